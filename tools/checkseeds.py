#!/usr/bin/env python3
"""Lists planted bugs that change lines this project's own commits added to /repo (they do not count)."""
import glob,subprocess
base={}
def b(f):
    if f not in base: base[f]=set(l.strip() for l in subprocess.run(['git','-C','/repo','show','9a439fb:'+f],stdout=subprocess.PIPE,text=True).stdout.split('\n'))
    return base[f]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; mine=[]
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in b(f): mine.append(l[1:].strip())
    if mine: print(p,mine)
