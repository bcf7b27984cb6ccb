#!/usr/bin/env python3
"""src.py <harness.c>: compile the script embedded as SRC[] in a harness with the built bzzparse (harness debugging aid)"""
import re,sys,subprocess,os,tempfile
s=open(sys.argv[1]).read(); i=s.index('static const char SRC[]='); j=s.index(';\n#',i) if ';\n#' in s[i:] else s.index(';\nstatic',i)
parts=re.findall(r'"((?:[^"\\]|\\.)*)"',s[i:j]); d=tempfile.mkdtemp(); f=d+'/t.bzz'
open(f,'w').write(''.join(parts).encode().decode('unicode_escape'))
subprocess.run(['/repo/_build/buzz/bzzparse',f,d+'/t.basm'],env=dict(os.environ,LD_LIBRARY_PATH='/repo/_build/buzz'))
