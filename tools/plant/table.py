#!/usr/bin/env python3
"""table.py: rewrite the table of planted bugs at the end of DESIGN.md from the logs of catch.sh (/tmp/catch.ID.PROP.log);
rows without a log keep what DESIGN.md says."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d=open(V+'/DESIGN.md').read()
head,_,old=d.partition('<!-- catches -->')
head=head.replace('CATCHTABLE','').rstrip()+'\n\n'
was={m[0]:m[1] for m in re.findall(r'^\| `([^`]+)` \|.*\| ([^|]*) \|$',old,re.M)}
rows=[]
for p in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(p)); m=json.load(open(p)); r=was.get(i,'not run')
    logs=glob.glob('/tmp/catch.%s.*.log'%i)
    if logs:
        hit=sorted(l.split('.')[-2] for l in logs if 'VIOLATION property=' in open(l,errors='replace').read())
        r=', '.join(hit) if hit else 'missed'
    rows.append('| `%s` | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/'),r))
open(V+'/DESIGN.md','w').write(head+'<!-- catches -->\n| planted bug | property | what it breaks | caught by (quick) |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n')
