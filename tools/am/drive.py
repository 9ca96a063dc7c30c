import subprocess,sys,json,os
from concurrent.futures import ThreadPoolExecutor
ids=json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else list(map(int,sys.argv[1].split(',')))
n=int(sys.argv[2]); log=open(sys.argv[3],'a')
def f(i):
    r=subprocess.run(['nice','-n','19','python3','/tmp/am/one.py',str(i)],capture_output=True,text=True,timeout=1500)
    l=[x for x in r.stdout.splitlines() if x.startswith('{')]
    log.write((l[-1] if l else json.dumps(dict(ix=i,res=['ERR',r.stderr[-300:]])))+'\n'); log.flush()
with ThreadPoolExecutor(n) as ex: list(ex.map(f,ids))
