import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.project import Project
from sa.core import Ctx
from sa.q import *
ctx=Ctx(Project(),'X','quick')
f=ctx.func(sys.argv[1])
kw={}
if len(sys.argv)>2: kw['max_depth']=int(sys.argv[2])
if len(sys.argv)>3: kw['opaque']=set(sys.argv[3].split(','))
w,paths=walk(ctx,f,**kw)
for p in paths:
    print(p.kind, show(expand(p.value,p.st)) if p.value else p.value)
    if p.kind=='ret' and p.value[0]=='obj':
        for it in heap_items(p,p.value): print('    ITEM', [show(x) for x in it[:-1]], '| conds', [ (x[0],) + tuple(show(y) if isinstance(y,tuple) else y for y in x[1:]) if isinstance(x,tuple) else x for x in it[-1]])
