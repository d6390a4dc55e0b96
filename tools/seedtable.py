import json,os,re
p='/verif/DESIGN.md'; s=open(p).read()
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/'+d+'/meta.json'))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['what_it_breaks'].replace('|','/')))
sec='''## Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, what it needs). All compile, pass the 345 stable tests, and are caught by the
quick check of the property they were written for. Candidates that the project's own tests catch were dropped.

| id | caught by | what it breaks |
|---|---|---|
'''+'\n'.join(rows)+'\n\n'
if '## Planted bugs' in s:
    s=re.sub(r'## Planted bugs\n.*?(?=\n## )',lambda _:sec.rstrip('\n')+'\n',s,flags=re.S)
else:
    s=s.replace('## Findings\n',sec+'## Findings\n')
open(p,'w').write(s)
