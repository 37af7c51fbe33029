#!/usr/bin/env python3
"""run.py mutants.py [ids...]: applies each mutant to a copy of /repo and lists which checks report"""
import sys,os,subprocess,shutil,json,re,tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/tmp/mut')
ns={}
exec(open(sys.argv[1]).read(),ns)
M=ns['M']; sel=set(sys.argv[2:])
env=dict(os.environ,GOPROXY='off',GOFLAGS='-mod=mod',GOTOOLCHAIN='local')
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def one(m):
    id,prop,edits=m
    if sel and id not in sel and prop not in sel: return None
    d=tempfile.mkdtemp(prefix='mut-',dir='/tmp/mut')
    try:
        t=d+'/r'; subprocess.run(['cp','-a',os.environ.get('REPO','/tmp/mut/repo'),t],check=True)
        for (f,old,new,*cnt) in edits:
            p=t+'/'+f; s=open(p).read()
            n=s.count(old)
            if n<1: return (id,prop,'NOMATCH %s %r'%(f,old))
            if n>1 and not cnt: return (id,prop,'AMBIG %d %r'%(n,old))
            k=cnt[0] if cnt else 1
            if k==0: s=s.replace(old,new)
            else:
                parts=s.split(old); s=old.join(parts[:k])+new+old.join(parts[k:])
            open(p,'w').write(s)
        r=subprocess.run(r'gofmt -l . ; go vet . ./cmd/... && go test -vet=off -count=1 -run "Test(ParseGo|ParseC|ParseJava|ParseRust|ParseTypeScript|ParseTypescript|[A-Z])" . 2>&1 | grep -E "^(---|ok|FAIL|panic|\s+---)"; git status --short | grep -v "^ M"',shell=True,cwd=t,env=env,capture_output=True,text=True)
        fails=set(re.findall(r'--- FAIL: (\S+)',r.stdout))
        bad=[b for b in base if b.split('::')[-1].split('/',1)[-1] in fails or b.split('::')[-1] in fails]
        tst=''
        if 'ok' not in r.stdout:
            tst=' TESTFAIL '+str(sorted(fails))[:200]+r.stderr[-300:]
        home=d+'/home'; os.makedirs(home+'/evidence'); shutil.copy('/verif/known_findings.txt',home)
        e2=dict(env,XGEN_REPO=t,XGENLINT_HOME=home)
        try:
            c=subprocess.run([os.environ.get('XL','/tmp/exp/xl'),'check','all'],env=e2,capture_output=True,text=True,timeout=600)
            out=c.stdout+c.stderr
        except subprocess.TimeoutExpired:
            return (id,prop,'TIMEOUT')
        v=re.findall(r'VIOLATION property=(C\d\d)',out)
        nl=[l for l in out.split('\n') if 'panic' in l][:2]
        und=[]
        for l in out.split('\n'):
            mm=re.match(r'(C\d\d) held.*\((\d+) undecided',l)
            if mm and mm.group(2)!='0': und.append(mm.group(1)+'u'+mm.group(2))
        res='CAUGHT' if prop in v else ('QUIET' if not v else 'MISSED')
        return (id,prop,res+' '+','.join(v)+' '+' '.join(und)+tst+' '.join(nl)+('' if c.returncode in (0,1) else ' RC%d %s'%(c.returncode,out[-300:])))
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,M):
        if r: print('%-28s %s %s'%r,flush=True)
