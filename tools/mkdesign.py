import json,os,glob
s=open('/verif/tools/DESIGN.in.md').read()
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((m['property'],os.path.basename(d[:-1]),m['needs'],m['what_it_breaks']))
rows.sort()
t='## Planted changes and the checks that catch them\n\nEach lies in seeded/<name>; all are caught by the quick check of their property. `*`: missed at first; the check was\nstrengthened (P03 `no-flush`: sinks that buffer; P06 `page-limit`: pages of exactly the limit; P11 `whole-skip`: runs given\ndirectly with bitmaps used in part).\n\n| property | change | needs | breaks |\n|---|---|---|---|\n'
for p,n,a,b in rows: t+=f"| {p} | {n}{'*' if n in ('no-flush','page-limit','whole-skip') else ''} | {a} | {b} |\n"
k=''
for l in open('/verif/known_findings.jsonl'):
    x=json.loads(l); w=x['what'].replace('fixed: property=','').split(' ',2); k+=f"* {w[0]} `{w[1]}` {w[2]}\n"
s=s.replace('@@SEEDS@@',t).replace('@@FIXES@@',k)
open('/verif/DESIGN.md','w').write(s)
