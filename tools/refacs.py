#!/usr/bin/env python3
"""refacs.py EDITS.jsonl OUT.jsonl [-n SAMPLE] [-s SEED] [-b BATCH] [-op OP,...]: applies automatic refactorings
(lint/refac) in batches of edits of different functions, runs every check on the result and narrows an alarm
down to the single edits that cause it (those are then run against the existing tests too)."""
import sys,os,json,subprocess,shutil,tempfile,re,threading,random,argparse
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV='. /opt/vp/env.sh; '
def sh(c,cwd='/',t=300):
    try: return subprocess.run(['timeout','-k','2',str(t),'bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    except Exception as e:
        class R: returncode=99; stdout=str(e)
        return R
def ids():
    m=open(V+'/lint/main.go').read()
    return ','.join(sorted(set(re.findall(r'"(C\d\d)": rule',m))))
def run(d,ms,tests=False):
    for f in {m['file'] for m in ms}:
        b=open('/repo/'+f,'rb').read()
        for m in sorted((m for m in ms if m['file']==f),key=lambda m:-m['from']):
            b=b[:m['from']]+m['new'].encode()+b[m['to']:]
        open(f'{d}/repo/{f}','wb').write(b)
    try:
        r=sh(ENV+'go build ./...',d+'/repo')
        if r.returncode:
            for f in {m['file'] for m in ms}: sh(ENV+'goimports -w '+f,d+'/repo')
            r=sh(ENV+'go build ./...',d+'/repo')
        if r.returncode: return 'nobuild',[r.stdout[-300:]]
        if tests:
            r=sh(ENV+"unshare -rn bash -c 'ip link set lo up; exec go test -vet=off -timeout 40s ./...'",d+'/repo',90)
            if r.returncode: return 'tests',[]
        r=sh(ENV+f'/tmp/lint.mut -verif {d} -dir {d}/repo -check {IDS}',t=900)
        got=re.findall(r'VIOLATION property=(\w+)',r.stdout)
        return ('alarm' if got else 'quiet' if r.returncode==0 else f'rc{r.returncode}'),got
    finally:
        for f in {m['file'] for m in ms}: shutil.copy('/repo/'+f,f'{d}/repo/{f}')
a=argparse.ArgumentParser(); a.add_argument('mut'); a.add_argument('out'); a.add_argument('-n',type=int); a.add_argument('-s',type=int,default=1); a.add_argument('-j',type=int,default=4); a.add_argument('-b',type=int,default=8); a.add_argument('-op'); a.add_argument('-again')
a=a.parse_args()
if sh(ENV+'go build -o /tmp/lint.mut .',V+'/lint').returncode: print('lint build'); sys.exit(1)
IDS=ids(); M=[json.loads(l) for l in open(a.mut)]
if a.op: M=[m for m in M if m['op'] in a.op.split(',')]
if a.again:
    k={(x['file'],x['from'],x['to'],x['new']) for x in map(json.loads,open(a.again)) if x['res'] not in('quiet','tests')}
    M=[m for m in M if (m['file'],m['from'],m['to'],m['new']) in k]; a.b=1
R=random.Random(a.s); R.shuffle(M)
if a.n: M=M[:a.n]
B=[]
for m in M:
    for b in B:
        if len(b)<a.b and all((x['file'],x['fn'])!=(m['file'],m['fn']) and (x['file']!=m['file'] or x['to']<=m['from'] or m['to']<=x['from']) for x in b): b.append(m); break
    else: B.append([m])
print(len(M),'edits',len(B),'batches',flush=True)
dirs=[]; lock=threading.Lock(); out=open(a.out,'w')
def put(m,res,got):
    with lock: out.write(json.dumps(dict(m,res=res,got=got))+'\n'); out.flush()
def work(b):
    with lock: d=dirs.pop()
    try:
        st=[b]
        while st:
            ms=st.pop(); res,got=run(d,ms,len(ms)==1)
            if res=='quiet' or len(ms)==1:
                for m in ms: put(m,res,got)
            else:
                if len(ms)==len(b): pass
                h=len(ms)//2; st+=[ms[:h],ms[h:]]
    finally:
        with lock: dirs.append(d)
for _ in range(a.j):
    d=tempfile.mkdtemp(prefix='rfc',dir='/tmp'); shutil.copytree('/repo',d+'/repo',symlinks=True); dirs.append(d)
try:
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(work,B))
finally:
    for d in dirs: shutil.rmtree(d,ignore_errors=True)
