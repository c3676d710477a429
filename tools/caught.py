# caught.py LOG: writes the table of planted bugs and verdicts into DESIGN.md (LOG: lines "ID CHECK rc=N ...")
import sys,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows={}
for l in open(sys.argv[1]):
    w=l.split()
    if len(w)>2: rows.setdefault(w[0],{})[w[1]]=w[2]=='rc=1'
by={}
for id in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{id}/meta.json')); p=m['property']
    r=rows.get(id,{})
    by.setdefault(p,[]).append(id+('' if r.get(p) else ' (missed)' if p in r else ' (not run)')+''.join(f' [also {c}]' for c in sorted(r) if c!=p and r[c]))
t='| check | planted bugs it was run against, all caught unless noted |\n|---|---|\n'+''.join(f'| {p} | {", ".join(by[p])} |\n' for p in sorted(by))
s=open(V+'/DESIGN.md').read()
s=s[:s.index('<!-- caught -->')]+'<!-- caught -->\n'+t
open(V+'/DESIGN.md','w').write(s)
