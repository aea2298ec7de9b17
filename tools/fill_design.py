import json,glob,re
kf=json.load(open('/verif/known_findings.json'))
fx='\n'.join(f"- `{k['commit'][:7]}` {k['property']}: {k['what']}" for k in kf if k['status']=='fixed')
rows=[]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); rows.append((m['property'],p.split('/')[-2],m['needs']))
rows.sort()
sd='| check | planted bug | what it needs |\n|---|---|---|\n'+'\n'.join(f"| {a} | {b} | {c} |" for a,b,c in rows)
d=open('/verif/DESIGN.md').read()
d=d.replace('@@FIXES@@','<!--FIXES-->\n<!--/FIXES-->').replace('@@SEEDS@@','<!--SEEDS-->\n<!--/SEEDS-->')
d=re.sub(r'<!--FIXES-->.*?<!--/FIXES-->',lambda _:'<!--FIXES-->\n'+fx+'\n<!--/FIXES-->',d,flags=re.S)
d=re.sub(r'<!--SEEDS-->.*?<!--/SEEDS-->',lambda _:'<!--SEEDS-->\n'+sd+'\n<!--/SEEDS-->',d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
