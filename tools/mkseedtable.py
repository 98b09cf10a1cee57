#!/usr/bin/env python3
"""mkseedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,glob,os
V=os.environ.get('SEED_VERIF','/verif')
rows=[]
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'].replace('|','\\|'),d['what_it_breaks']))
s=open(V+'/DESIGN.md').read()
a,b='<!-- seeds -->\n','<!-- /seeds -->'
i,j=s.index(a)+len(a),s.index(b)
open(V+'/DESIGN.md','w').write(s[:i]+'| bug | caught by | needs | what breaks |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'+s[j:])
