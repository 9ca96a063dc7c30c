import os,sys,json,subprocess,shutil,time
ix=int(sys.argv[1]); secs=float(os.environ.get('AMSECS','3'))
M=json.load(open('/tmp/am/all.json'))[ix]
d='/tmp/am/w/%d'%ix
shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/am/w',exist_ok=True)
subprocess.check_call(['cp','-a','/tmp/am/repo',d])
def done(*a):
    shutil.rmtree(d,ignore_errors=True)
    print(json.dumps(dict(ix=ix,file=M['File'],line=M['Line'],desc=M['Desc'][:120],res=a)),flush=True)
    sys.exit(0)
p=d+'/'+M['File']; s=open(p,'rb').read()
s=s[:M['Off']]+M['New'].encode()+s[M['Off']+M['Len']:]
open(p,'wb').write(s)
sys.path.insert(0,'/tmp/plant')
import plant as P
P.ENV['GOMAXPROCS']='2'
r=P.run(['go','build','./bip32','./bip39','./bip44','./util'],d)
if r.returncode: done('nobuild')
try: r=subprocess.run(['go','test','-json','-vet=off','-count=1','-timeout','60s','./bip32','./bip39','./bip44','./util'],cwd=d,env=P.ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=120)
except subprocess.TimeoutExpired: done('tests')
ok=set()
for l in r.stdout.splitlines():
    try: o=json.loads(l)
    except Exception: continue
    if o.get('Action')=='pass' and o.get('Test'): ok.add(o['Package']+'::'+o['Test'])
ST=set(json.load(open('/tmp/am/stable.json')))
if ST-ok: done('tests')
os.environ['VERIF_REPO']=d
sys.path.insert(0,'/tmp/am/verif'); sys.argv=['check.py']
import check
class F(Exception): pass
def ff(m): raise F(m)
check.fail=ff
R={'bip39':'C04 C14 C11 C05 C01 C02 C03 C26 C09','bip32/path':'C07 C26 C09','bip32/reg':'C10 C06 C12 C13 C26','bip32':'C06 C12 C13 C08 C09 C10 C05 C02 C01 C03 C07 C26','bip44':'C25 C10 C26','util':'C07 C08 C05 C01 C02 C13 C14 C26 C09'}
k=[x for x in ('bip39','bip32/path','bip32/reg','bip32','bip44','util') if M['File'].startswith(x)][0]
try:
    for pr in R[k].split():
        st,f=check.search(pr,'quick',1,secs,1,only=['plain'])
        if f: done('caught',pr,f[0]['class'],f[0]['index'])
except F as e: done('fail',str(e)[-300:])
finally: shutil.rmtree(check.scratch,ignore_errors=True)
done('SURVIVED')
