import json,glob,os
rows=["| change | property | needs | caught by |","|---|---|---|---|"]
extra={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[3]
    rows.append("| %s | %s | %s | %s |"%(i,m['property'],m['needs'],'./check '+m['property']))
import re
s=open('/verif/DESIGN.md').read()
t="\n".join(rows)
if '@@SEEDED@@' in s: s=s.replace('@@SEEDED@@',t)
else: s=re.sub(r'\| change \| property.*?\n\n', lambda _:t+"\n\n", s, flags=re.S)
open('/verif/DESIGN.md','w').write(s)
