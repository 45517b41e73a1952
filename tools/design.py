#!/usr/bin/env python3
"""Fills the tables of DESIGN.md between their markers from known_findings.txt and seeded/*/meta.json."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=R+'/DESIGN.md'; t=open(p).read()
def put(name,body):
    global t
    m='<!-- %s -->'%name; blk=m+'\n'+body+'\n<!-- end -->'
    if '@%s@'%name in t: t=t.replace('@%s@'%name,blk)
    else: t=re.sub(re.escape(m)+r'.*?<!-- end -->',lambda _:blk,t,flags=re.S)
rows=[]
for l in open(R+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: rows.append('| %s | %s | %s |'%m.groups())
h=t.index('| property | commit | what |') if '| property | commit | what |' in t else 0
put('FIXES','\n'.join(['','| property | commit | what |','|---|---|---|']+rows) )
cp=R+'/tools/caught.json'; c=json.load(open(cp)) if os.path.exists(cp) else {}
rows=['| bug | property | needs | breaks | caught |','|---|---|---|---|---|']
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; d=json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |'%(i,d['property'],d['needs'],d['what_it_breaks'],c.get(i,'?')))
put('SEEDS','\n'.join(['']+rows))
open(p,'w').write(t)
