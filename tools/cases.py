#!/usr/bin/env python3
"""cases.py SPEC.py [name...]: runs the checks on edited scratch copies of /repo.

SPEC defines C = [(name, kind, edits, expect)]: kind 'ref' (behaviour kept: every check must stay quiet) or 'mut'
(expect: ids of which at least one must report). edits: (file, old, new), (file, None, appended text).
"""
import sys,os,subprocess,shutil,tempfile,re,concurrent.futures as cf
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV='. /opt/vp/env.sh; '
def sh(c,cwd='/'): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash')
def ids():
    m=open(V+'/lint/main.go').read()
    return ','.join(sorted(set(re.findall(r'"(C\d\d)": rule',m))))
def run(c,IDS,tests):
    name,kind,edits,expect=c
    d=tempfile.mkdtemp(prefix='case',dir='/tmp')
    try:
        shutil.copytree('/repo',d+'/repo',symlinks=True)
        for f,o,n in edits:
            p=f'{d}/repo/{f}'; t=open(p).read() if os.path.exists(p) else ''
            if o is None: t+=n
            else:
                if t.count(o)!=1: return name,f'EDIT {f}: {t.count(o)} matches: {o[:60]!r}'
                t=t.replace(o,n)
            open(p,'w').write(t)
        r=sh(ENV+'goimports -w *.go oauth2test/*.go; go vet . ./oauth2test',d+'/repo')
        if r.returncode: return name,'BUILD '+r.stdout[:600]
        if tests:
            r=sh(ENV+"unshare -rn bash -c 'ip link set lo up; exec go test ./... 2>&1 | tail -30'",d+'/repo')
            if 'FAIL' in r.stdout: return name,'TESTS '+r.stdout[-400:]
        r=sh(ENV+f'/tmp/lint.cases -verif {d} -dir {d}/repo -check {IDS}')
        got=re.findall(r'VIOLATION property=(\w+)',r.stdout)
        det=[l for l in r.stdout.splitlines() if ': C' in l or 'analysis' in l]
        if kind=='ref':
            return (name,'ok') if not got else (name,'ALARM '+' '.join(got)+'\n    '+'\n    '.join(x.replace(d+'/repo/','')[:260] for x in det[:4]))
        hit=[g for g in got if g in expect]
        return (name,'ok '+' '.join(got)) if hit else (name,f'MISSED expected {expect}, got {got}')
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    args=[a for a in sys.argv[2:] if a!='-t']; tests='-t' in sys.argv
    if sh(ENV+'go build -o /tmp/lint.cases .',V+'/lint').returncode: print('lint build'); sys.exit(1)
    C=[c for c in ns['C'] if not args or c[0] in args]
    IDS=ids(); bad=0
    with cf.ThreadPoolExecutor(7) as ex:
        for name,res in ex.map(lambda c:run(c,IDS,tests),C):
            if not res.startswith('ok'): bad+=1; print(name,res)
            elif args: print(name,res)
    print(len(C),'cases,',bad,'bad')
main()
