import os,json,subprocess,tempfile,shutil,re,sys
from concurrent.futures import ThreadPoolExecutor
V='/verif'
def one(n):
    tmp=tempfile.mkdtemp(prefix='sr-')
    try:
        repo=tmp+'/repo'; subprocess.run(['git','clone','-q','/repo',repo])
        a=subprocess.run(['git','-C',repo,'apply',f'{V}/seeded/{n}/patch.diff'],capture_output=True,text=True)
        if a.returncode: return n,'PATCH FAILS'
        pid=json.load(open(f'{V}/seeded/{n}/meta.json'))['property']
        v=subprocess.run(['python3',f'{V}/check.py',pid,'--no-write'],env=dict(os.environ,VERIF_REPO=repo),capture_output=True,text=True)
        open(f'/tmp/sr_{n}.txt','w').write(v.stdout)
        return n,(v.returncode,pid,v.stdout)
    finally: shutil.rmtree(tmp)
if __name__=='__main__':
    ns=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
    res={}
    p=V+'/devtools/seed_results.json'
    if os.path.exists(p): res=json.load(open(p))
    with ThreadPoolExecutor(3) as ex:
        for n,r in ex.map(one,ns):
            if isinstance(r,str): print(n,r); continue
            rules=sorted(set(re.findall(r'\[([a-z0-9-]+)\]',r[2])))
            res[n]=f"{r[1]} {', '.join(rules)}" if r[0]==1 else 'not caught'
            print(n,res[n])
    res={k:v for k,v in res.items() if os.path.isdir(V+'/seeded/'+k)}
    json.dump(res,open(p,'w'),indent=1,sort_keys=True)
