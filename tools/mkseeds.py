#!/usr/bin/env python3
"""Writes and verifies planted bugs: mkseeds.py SPEC.py [id...].

A spec file defines S = [dict(id, prop, edits=[(file, old, new)], demo=go code, needs, breaks, race=bool)].
Each is built in a scratch copy of /repo: the patched tree must build and pass all tests, the demo must pass
on the unchanged tree and fail on the patched one. Only then is it written to /verif/seeded/<id>/.
"""
import json,os,subprocess,sys,shutil,tempfile,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP=open(os.path.join(V,'tools','seed_helpers.go')).read()
DEMO='''#!/bin/bash
# Runs the demonstration test beside this script inside the package in the current directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@PKG@zz_seed_demo_test.go" "$here/demo_test.go" >"$work/overlay.json"
go test -vet=off -count=1 -timeout 200s @FLAGS@-overlay "$work/overlay.json" -run '^TestSeedDemo$' ./@PKG@
'''
def sh(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def imports(code,pkg):
    want=[]
    for name,path in [('bytes','bytes'),('errors','errors'),('fmt','fmt'),('io','io'),('base64','encoding/base64'),('hex','encoding/hex'),('json','encoding/json'),('http','net/http'),('httptest','net/http/httptest'),('oauth2test','github.com/256dpi/oauth2/v2/oauth2test'),('url','net/url'),
                      ('strings','strings'),('sync','sync'),('testing','testing'),('time','time'),('sort','sort'),('strconv','strconv'),('hmac','crypto/hmac'),('sha256','crypto/sha256'),('rand','crypto/rand'),('runtime','runtime'),('reflect','reflect'),('ioutil','io/ioutil'),('exec','os/exec'),('os','os'),('context','context')]:
        if re.search(r'(?<![\w.])'+name+r'\.[A-Z]',code): want.append(path)
    return 'import (\n'+''.join(f'\t"{w}"\n' for w in want)+')\n'
def main():
    spec=sys.argv[1]; only=set(sys.argv[2:])
    ns={}; exec(open(spec).read(),ns)
    env='. /opt/vp/env.sh; '
    bad=[]
    for s in ns['S']:
        if only and s['id'] not in only: continue
        if not only and os.path.exists(f"{V}/seeded/{s['id']}/meta.json"): continue
        sc=tempfile.mkdtemp(prefix='seed',dir='/tmp')
        try:
            repo=sc+'/repo'; shutil.copytree('/repo',repo,symlinks=True)
            pkg=s.get('pkg','')
            d=sc+'/d'; os.mkdir(d)
            body='func TestSeedDemo(t *testing.T) {\n'+s['demo']+'\n}\n'+s.get('extra','')
            code=(HELP if not pkg else s.get('helpers',''))+'\n'+body
            # drop unused helpers is unnecessary: unused functions compile
            open(d+'/demo_test.go','w').write('package '+(pkg.strip('/') or 'oauth2')+'\n\n'+imports(code,pkg)+'\n'+code)
            r=sh('gofmt -l -w .',d); 
            if r.returncode: print(s['id'],'gofmt',r.stdout); bad.append(s['id']); continue
            open(d+'/demo.sh','w').write(DEMO.replace('@PKG@',pkg).replace('@FLAGS@','-race ' if s.get('race') else ''))
            os.chmod(d+'/demo.sh',0o755)
            r=sh(f'bash {d}/demo.sh',repo)
            if r.returncode: print(s['id'],'demo fails on the unchanged tree\n',r.stdout[-1500:]); bad.append(s['id']); continue
            err=None
            for f,o,n in s['edits']:
                t=open(f'{repo}/{f}').read()
                if t.count(o)!=1: err=f'{f}: {t.count(o)} matches of {o!r}'; break
                open(f'{repo}/{f}','w').write(t.replace(o,n))
            if err: print(s['id'],err); bad.append(s['id']); continue
            r=sh('gofmt -l *.go oauth2test; git diff HEAD',repo)
            if not r.stdout.startswith('diff'): print(s['id'],'gofmt:',r.stdout[:200]); sh('gofmt -w *.go oauth2test',repo)
            diff=sh('git diff HEAD',repo).stdout
            r=sh(env+"go build ./... && go vet ./... && unshare -rn bash -c 'ip link set lo up; exec go test -count=1 ./...'",repo) # the tests listen on a fixed port
            if r.returncode: print(s['id'],'tests fail with the change\n',r.stdout[-1500:]); bad.append(s['id']); continue
            r=sh(f'bash {d}/demo.sh',repo)
            if r.returncode==0: print(s['id'],'demo passes with the change\n',r.stdout[-500:]); bad.append(s['id']); continue
            if 'build failed' in r.stdout or 'setup failed' in r.stdout: print(s['id'],'demo does not build\n',r.stdout[-800:]); bad.append(s['id']); continue
            o=f"{V}/seeded/{s['id']}"; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
            open(o+'/patch.diff','w').write(diff)
            for f in ('demo.sh','demo_test.go'): shutil.copy(f'{d}/{f}',o)
            json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(o+'/meta.json','w'),indent=1)
            print(s['id'],'ok')
        finally:
            shutil.rmtree(sc,ignore_errors=True)
    print('bad:',bad)
main()
