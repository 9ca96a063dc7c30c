import os,sys,subprocess,shutil,json,textwrap
SEED='/verif/seeded'
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',CGO_ENABLED='1')
DEMO='''#!/bin/bash
# cwd: the repository; exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
t=$(mktemp -d) || exit 2
trap 'rm -r -- "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_planted_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off %(flags)s -count=1 -timeout 200s -run '^TestPlantedDemo$' ./%(pkg)s
'''
def run(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
STABLE=None
def tests(d):
    r=run(['go','test','-json','-vet=off','-count=1','./...'],d)
    ok=set()
    for l in r.stdout.splitlines():
        try: o=json.loads(l)
        except Exception: continue
        if o.get('Action')=='pass' and o.get('Test'): ok.add(o['Package']+'::'+o['Test'])
    return ok
def plant(id,prop,needs,breaks,edits,pkg,test,flags='',extra=None,demo=None):
    d='/tmp/plant/wt-'+id
    shutil.rmtree(d,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',d])
    try:
        out=f'{SEED}/{id}'; os.makedirs(out,exist_ok=True)
        open(out+'/demo_test.go','w').write(test) if test else None
        for n,c in (extra or {}).items(): 
            os.makedirs(os.path.dirname(f'{out}/{n}'),exist_ok=True)
            open(f'{out}/{n}','w').write(c)
        open(out+'/demo.sh','w').write(demo or DEMO%dict(pkg=pkg,flags=flags)); os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
        r=run(['bash',out+'/demo.sh'],d)
        base=r.returncode
        if base: print(id,'DEMO FAILS ON BASE',r.stdout[-1500:]); return False
        global STABLE
        if STABLE is None: STABLE=tests(d)
        for f,old,new in edits:
            s=open(f'{d}/{f}').read()
            if s.count(old)!=1: print(id,'EDIT count',s.count(old),repr(old)[:80]); return False
            open(f'{d}/{f}','w').write(s.replace(old,new))
        for f in {e[0] for e in edits}:
            run(['gofmt','-w',f],d)
        r=run(['git','diff'],d); open(out+'/patch.diff','w').write(r.stdout)
        r=run(['go','build','./...'],d)
        if r.returncode: print(id,'BUILD',r.stdout[-1500:]); return False
        t=tests(d)
        if STABLE-t: print(id,'TESTS',STABLE-t); return False
        r=run(['bash',out+'/demo.sh'],d)
        if r.returncode==0: print(id,'DEMO PASSES WITH PATCH'); return False
        print(id,'ok; demo:',[l for l in r.stdout.splitlines() if 'zz_' in l or 'demo_test' in l or 'RACE' in l or 'panic' in l][:2])
        return True
    finally:
        shutil.rmtree(d,ignore_errors=True)
