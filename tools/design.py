#!/usr/bin/env python3
"""Fills the planted-bug table into DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json,glob,os,re
caught=dict(l.split(None,1) for l in open('/verif/tools/caught.txt') if l.strip()) if os.path.exists('/verif/tools/caught.txt') else {}
rows=['| bug | property | needs | breaks | caught by |','|---|---|---|---|---|']
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=p.split('/')[-2]; m=json.load(open(p)); rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['needs'],m['what_it_breaks'],caught.get(i,'?').strip()))
s=open('/verif/DESIGN.md').read()
s=re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)',lambda k:k.group(1)+'\n'.join(rows)+'\n'+k.group(2),s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
