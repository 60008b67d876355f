import json,glob
s=open('/verif/DESIGN.md').read()
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append((m['property'],f.split('/')[-2],m['needs']))
rows.sort()
t='| property and check | planted bug | needs |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%r for r in rows)
a='<!-- matrix -->\n'; b='\n<!-- /matrix -->'
if '@@MATRIX@@' in s: s=s.replace('@@MATRIX@@',a+t+b)
else:
    i=s.index(a); j=s.index(b); s=s[:i]+a+t+s[j:]
open('/verif/DESIGN.md','w').write(s)
