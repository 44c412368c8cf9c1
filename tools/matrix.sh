#!/bin/bash
# matrix.sh: caught.sh over all planted bugs, its result as the table in DESIGN.md.
cd "$(dirname "$0")/.." || exit 2
bash tools/caught.sh "$@" | tee /tmp/matrix.txt
python3 - <<'P'
import json,re
rows={}
d=open('DESIGN.md').read()
a,r=d.split("<!-- planted -->\n",1); old,b=r.split("<!-- end of planted -->",1)
for l in old.splitlines():
    m=re.match(r'\| (\S+) \| (\S+) \| (.*) \| (.*) \|',l)
    if m and m.group(1) not in('planted','---'): rows[m.group(1)]=l
for l in open('/tmp/matrix.txt'):
    m=re.match(r'(\S+) (P\d+) rc=(\d+)',l)
    if not m: continue
    j=json.load(open('seeded/%s/meta.json'%m.group(1)))
    rows[m.group(1)]='| %s | %s | %s | %s |'%(m.group(1),m.group(2),j['what_it_breaks'].replace('|','/').replace('\n',' '),'caught' if m.group(3)=='1' else 'missed')
t='| planted bug | property | what it breaks | its check |\n|---|---|---|---|\n'+''.join(rows[k]+'\n' for k in sorted(rows))
open('DESIGN.md','w').write(a+"<!-- planted -->\n"+t+"<!-- end of planted -->"+b)
P
