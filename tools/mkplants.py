#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Development aid. The "caught" column: property's own check unless meta says otherwise."""
import glob,json,os
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f))
    rows.append((os.path.basename(os.path.dirname(f)),m['property'],m['needs'],m.get('caught_by',m['property'])))
s=open('/verif/DESIGN.md').read()
a,b='<!-- plants -->','<!-- /plants -->'
t='| id | property | needs | caught by |\n|----|----|----|----|\n'+''.join('| %s | %s | %s | %s |\n'%tuple(str(x).replace('|','/') for x in r) for r in rows)
if a not in s: s=s.rstrip()+'\n\n'+a+'\n'+b+'\n'
s=s[:s.index(a)]+a+'\n'+t+b+s[s.index(b)+len(b):]
open('/verif/DESIGN.md','w').write(s)
