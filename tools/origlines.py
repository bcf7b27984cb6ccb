#!/usr/bin/env python3
"""origlines.py: do the planted patches remove lines of the original repository?"""
import subprocess,glob,re
orig=subprocess.check_output("git -C /repo log --format=%H --reverse",shell=True,text=True).split()
base=None
for h in orig:
    m=subprocess.check_output(["git","-C","/repo","log","-1","--format=%s",h],text=True)
    if m.startswith("fix:"): break
    base=h
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; bad=[]; n=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip(); src=subprocess.run(["git","-C","/repo","show",base+":"+f],capture_output=True,text=True,errors='replace').stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---'):
            n+=1
            if l[1:].rstrip('\n') not in src: bad.append(l.strip())
    print(p.split('/')[-2],'removed',n,'not-original',bad)
