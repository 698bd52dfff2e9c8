import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.project import Project
from sa.core import Ctx
from sa.q import *
proj=Project()
class C: pass
ctx=Ctx(proj,'X','quick')
f=ctx.func(sys.argv[1])
kw={}
if len(sys.argv)>2: kw['max_depth']=int(sys.argv[2])
if len(sys.argv)>3: kw['opaque']=set(sys.argv[3].split(','))
w,paths=walk(ctx,f,**kw)
print(len(paths), w.truncated, [x.split('.')[-1] for x in map(str,w.inlined)])
import os
lim=int(os.environ.get("N","3")); kind=os.environ.get("K","ret"); skip=int(os.environ.get("SKIP","0"))
for p in [p for p in paths if p.kind==kind][skip:skip+lim]:
    print("=====",p.kind, show(p.value)[:200] if p.value else p.value)
    for a,v in p.atoms.items(): print("   @",v,show(a)[:160])
    for e in p.events: print("   ",e.loc.split('/')[-1], "H" if e.held else "-", "L%d"%len(e.loops), repr(e)[:200])
