#!/usr/bin/env python3
"""compound.py OUT [-n TREES] [-r ROUNDS] [-s SEED] [-j JOBS]: refactors whole copies of /repo in several rounds (in each,
one random edit of lint/refac per function), checks that the tests still pass and that every check stays quiet.
Trees that raise an alarm are kept as OUT.<seed>.diff."""
import sys,os,json,subprocess,shutil,tempfile,re,argparse,threading
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV='. /opt/vp/env.sh; '
def sh(c,cwd='/',t=300):
    try: return subprocess.run(['timeout','-k','2',str(t),'bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    except Exception as e:
        class R: returncode=99; stdout=str(e)
        return R
a=argparse.ArgumentParser(); a.add_argument('out'); a.add_argument('-n',type=int,default=20); a.add_argument('-r',type=int,default=3); a.add_argument('-s',type=int,default=1); a.add_argument('-j',type=int,default=4); a.add_argument('-p',type=float,default=1.0)
a=a.parse_args()
for n,d in(('lint.cmp','.'),('refac.cmp','./refac')):
    if sh(ENV+f'go build -o /tmp/{n} {d}',V+'/lint').returncode: print('build'); sys.exit(1)
IDS=','.join(sorted(set(re.findall(r'"(C\d\d)": rule',open(V+'/lint/main.go').read()))))
lock=threading.Lock()
def apply(repo,es):
    "applies edits; those that do not build together are dropped"
    if not es: return 0
    fs={e['file'] for e in es}; orig={f:open(f'{repo}/{f}','rb').read() for f in fs}
    for f in fs:
        b=orig[f]
        for e in sorted((e for e in es if e['file']==f),key=lambda e:-e['from']): b=b[:e['from']]+e['new'].encode()+b[e['to']:]
        open(f'{repo}/{f}','wb').write(b)
    sh(ENV+'goimports -w '+' '.join(fs),repo)
    if sh(ENV+'go build ./...',repo).returncode==0 and sh(ENV+"unshare -rn bash -c 'ip link set lo up; exec go test -vet=off -timeout 60s ./...'",repo,120).returncode==0: return len(es)
    for f in fs: open(f'{repo}/{f}','wb').write(orig[f])
    return 0
def work(seed):
    import random
    R=random.Random(seed); d=tempfile.mkdtemp(prefix='cmp',dir='/tmp'); repo=d+'/repo'
    try:
        shutil.copytree('/repo',repo,symlinks=True); n=0
        for r in range(a.r):
            es=[json.loads(l) for l in sh(ENV+f'/tmp/refac.cmp -dir {repo} -pick {seed*100+r+1}',repo).stdout.splitlines() if l.startswith('{')]
            # revocation by collected keys looks entries up again while others are deleted: not understood (DESIGN.md, 10)
            es=[e for e in es if not(e['op']=='range-sorted' and e['file']=='server.go') and R.random()<a.p]; R.shuffle(es)
            # edits of one file at a time, so that a failure costs little
            for f in sorted({e['file'] for e in es}):
                fe=[e for e in es if e['file']==f]; k=apply(repo,fe)
                if not k:
                    # positions stay valid while nothing was applied
                    h=len(fe)//2; k=apply(repo,fe[:h]) or apply(repo,fe[h:])
                n+=k
        t=sh(ENV+"unshare -rn bash -c 'ip link set lo up; exec go test -vet=off -timeout 60s ./...'",repo,120)
        if t.returncode:
            open(f'{a.out}.{seed}.tests.diff','w').write(sh(f'git diff',repo).stdout); res=f'TESTS {t.stdout[-300:]}'
        else:
            r=sh(ENV+f'/tmp/lint.cmp -verif {d} -dir {repo} -check {IDS}',t=900)
            got=re.findall(r'VIOLATION property=(\w+)',r.stdout); res='quiet' if r.returncode==0 else f'ALARM {got}'
            if r.returncode: open(f'{a.out}.{seed}.diff','w').write(sh('git diff',repo).stdout+'\n'+r.stdout)
        with lock: print(seed,n,'edits',res,flush=True)
    finally: shutil.rmtree(d,ignore_errors=True)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(work,range(a.s,a.s+a.n)))
