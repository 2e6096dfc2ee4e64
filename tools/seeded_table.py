#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the SEEDED markers)."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'],d,m['needs'],m['what_it_breaks'],m.get('caught','by '+m['property'])))
rows.sort()
t='| property | planted change | needs | breaks | caught |\n|---|---|---|---|---|\n'+''.join('| %s | %s | %s | %s | %s |\n'%tuple(str(x).replace('|','/').replace('\n',' ') for x in r) for r in rows)
s=open(root+'/DESIGN.md').read()
if '<!-- /SEEDED -->' in s: s=re.sub(r'<!-- SEEDED -->.*?<!-- /SEEDED -->',lambda m:'<!-- SEEDED -->\n'+t+'<!-- /SEEDED -->',s,flags=re.S)
else: s=s.replace('<!-- SEEDED -->','<!-- SEEDED -->\n'+t+'<!-- /SEEDED -->')
open(root+'/DESIGN.md','w').write(s); print(len(rows),'planted bugs')
