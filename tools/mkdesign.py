#!/usr/bin/env python3
"""Writes DESIGN.md: prose from tools/design, per-property sections from properties.jsonl, evidence/ and seeded/.
Usage: mkdesign.py [EVIDENCE_DIR] [SEEDS_OUT]"""
import json,sys,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else V+'/evidence'
so=sys.argv[2] if len(sys.argv)>2 else '/tmp/w/seeds.out'
D=V+'/tools/design/'
notes=json.load(open(D+'notes.json'))
na=json.load(open(V+'/lint/not_applicable.json'))
out=[open(D+'head.md').read()]
out.append('## 3. The properties\n\nFor each: what is enumerated and which obligations are checked (as also stated in the evidence), the rule names with\ntheir number of obligations on the current tree, and remarks on bounds.\n')
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)
    if p['id'] in na: continue
    c=json.load(open(f'{ev}/{p["id"]}.json'))['coverage']
    r=', '.join(f"{k} {v['obligations']}" for k,v in c['rules'].items() if k!='instances')
    out.append(f"### {p['id']} {p['title']}\n\n*Decided by:* {c['explanation']}.\n\n*Obligations:* {r} over {c['paths_analysed']} paths.\n")
    if p['id'] in notes: out.append(f"*Remarks:* {notes[p['id']]}\n")
out.append(open(D+'tail4.md').read())
caught={}
for l in open(so):
    w=l.split()
    caught[w[0]]=(w[1],' '.join(w[4:]) if 'CAUGHT' in l else 'MISSED')
out.append('## 8. Planted bugs\n\nEach lies in `seeded/<id>/`, was written from the property\'s text and the code, compiles, passes the stable tests and has a\ndemonstration. "Caught by" lists every check that reports it.\n\n| bug | property | what it needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i,('','?'))[1]} |")
out.append('\n'+open(D+'tail9.md').read())
open(V+'/DESIGN.md','w').write('\n'.join(out))
