#!/usr/bin/env python3
"""Rewrites section 5's table of DESIGN.md from seeded/*/meta.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST={ # missed first: what was added to the check
'p05':'batches beyond the transaction limit that also fail','p11':'part of the unsynced data kept in images','p15':'both existence options together',
'p19':'prefix slices with spare capacity','p22':'lines of over a thousand vertices','p30':'prefixes cut from one buffer','p31':'returned keys extended by the caller',
'p35':'objects of over 1000 cells','p39':'repeated vertices in rings','p41':'multipolygons with parts inside one another\'s cells','p42':'rings of several hundred vertices',
'p52':'batches of over 20000 operations','p53':'batches of over 1000 operations','p63':'buffers of exactly the value\'s size, large values','p69':'bucket names differing in case and spaces',
'p74':'crowds of thousands of ids in a cell','p77':'tiny objects at cell borders','p82':'queries much like earlier ones','p101':'lists of over 1000 tokens','p102':'bodies of over a megabyte'}
EXTRA=os.path.join(V,'tools','missed_first.json')
if os.path.exists(EXTRA): FIRST.update(json.load(open(EXTRA)))
rows=[]
for d in os.listdir(V+'/seeded'):
    m=json.load(open(f'{V}/seeded/{d}/meta.json')); n=d.split('-')[0]
    rows.append((m['property'],int(n[1:]),f"| {d} | {m['property']} | {m['needs']} | {'missed first; added: '+FIRST[n] if n in FIRST else 'caught'} |"))
rows.sort()
s=open(V+'/DESIGN.md').read()
i=s.index('## 5. Planted bugs'); j=s.find('| bug |',i)
if j<0: j=len(s)
s=s[:j].rstrip()+'\n\n| bug | caught by | needs | history |\n|---|---|---|---|\n'+'\n'.join(r[2] for r in rows)+'\n'
open(V+'/DESIGN.md','w').write(s)
