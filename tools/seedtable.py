"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes={}
p=os.path.join(root,'tools','seednotes.json')
if os.path.exists(p): notes=json.load(open(p))
rows=[]
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    rows.append(f"| {i} | {d['needs'].strip().replace('|','/')} | {d['property']}{notes.get(i,'')} |")
f=root+'/DESIGN.md'; t=open(f).read()
a=t.index('| bug | needs | caught by |'); 
b=a
lines=t[a:].split('\n'); n=0
while n<len(lines) and lines[n].startswith('|'): n+=1
t=t[:a]+'\n'.join(['| bug | needs | caught by |','|---|---|---|']+rows+lines[n:])
open(f,'w').write(t)
