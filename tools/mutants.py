#!/usr/bin/env python3
"""mutants.py MUTANTS.jsonl OUT.jsonl [-f FILE,...] [-n SAMPLE] [-s SEED]: runs every check on the mutants (lint/mutate)
that compile and pass the existing tests, each in a scratch copy of /repo; OUT gets one line per mutant."""
import sys,os,json,subprocess,shutil,tempfile,re,threading,queue,random,argparse
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV='. /opt/vp/env.sh; '
def sh(c,cwd='/',t=300):
    try: return subprocess.run(['timeout','-k','2',str(t),'bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    except Exception as e:
        class R: returncode=99; stdout=str(e)
        return R
def ids():
    m=open(V+'/lint/main.go').read()
    return ','.join(sorted(set(re.findall(r'"(C\d\d)": rule',m))))
def run(d,m,IDS):
    p=f'{d}/repo/{m["file"]}'; orig=open('/repo/'+m['file'],'rb').read()
    open(p,'wb').write(orig[:m['from']]+m['new'].encode()+orig[m['to']:])
    try:
        r=sh(ENV+'go build ./...',d+'/repo')
        if r.returncode and ('imported and not used' in r.stdout or 'undefined: ' in r.stdout):
            sh(ENV+'goimports -w '+m['file'],d+'/repo'); r=sh(ENV+'go build ./...',d+'/repo')
        if r.returncode: return 'nobuild',[]
        r=sh(ENV+"unshare -rn bash -c 'ip link set lo up; exec go test -vet=off -timeout 40s ./...'",d+'/repo',90) # the tests listen on a fixed port
        if r.returncode: return 'tests',[]
        r=sh(ENV+f'/tmp/lint.mut -verif {d} -dir {d}/repo -check {IDS}',t=600)
        got=re.findall(r'VIOLATION property=(\w+)',r.stdout)
        return ('caught' if got else 'survived' if r.returncode==0 else f'rc{r.returncode}'),got
    finally: open(p,'wb').write(orig)
def main():
    a=argparse.ArgumentParser(); a.add_argument('mut'); a.add_argument('out'); a.add_argument('-f'); a.add_argument('-n',type=int); a.add_argument('-s',type=int,default=1); a.add_argument('-j',type=int,default=8)
    a.add_argument('-again',help='only the survivors of this earlier output')
    a=a.parse_args()
    if sh(ENV+'go build -o /tmp/lint.mut .',V+'/lint').returncode: print('lint build'); sys.exit(1)
    M=[json.loads(l) for l in open(a.mut)]
    if a.f: M=[m for m in M if m['file'] in a.f.split(',')]
    if a.again:
        k={(x['file'],x['from'],x['to'],x['new']) for x in map(json.loads,open(a.again)) if x['res']=='survived'}
        M=[m for m in M if (m['file'],m['from'],m['to'],m['new']) in k]
    if a.n and a.n<len(M): M=random.Random(a.s).sample(M,a.n)
    IDS=ids(); q=queue.Queue(); [q.put(m) for m in M]; lock=threading.Lock(); out=open(a.out,'w')
    def work():
        d=tempfile.mkdtemp(prefix='mut',dir='/tmp')
        try:
            shutil.copytree('/repo',d+'/repo',symlinks=True)
            while True:
                try: m=q.get_nowait()
                except queue.Empty: return
                res,got=run(d,m,IDS)
                with lock: out.write(json.dumps(dict(m,res=res,got=got))+'\n'); out.flush()
        finally: shutil.rmtree(d,ignore_errors=True)
    T=[threading.Thread(target=work) for _ in range(a.j)]
    [t.start() for t in T]; [t.join() for t in T]
main()
