# fills the table of planted changes into DESIGN.md from tools/planted.txt and seeded/*/meta.json
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes={}
for l in open(root+'/tools/planted.txt'):
    l=l.strip()
    if l:
        a=l.split('|'); notes[a[0].strip()]=(a[1].strip(),a[2].strip() if len(a)>2 else '')
rows=['| change | what it breaks | caught by | first missed? |','|---|---|---|---|']
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    c,n=notes.get(d,('?',''))
    rows.append(f"| {d} | {m['what_it_breaks']} | {c} | {n} |")
s=open(root+'/DESIGN.md').read()
t='<!-- planted -->\n'+'\n'.join(rows)+'\n<!-- end -->'
if '@@TABLE@@' in s: s=s.replace('@@TABLE@@',t)
else: s=re.sub(r'<!-- planted -->.*?<!-- end -->',lambda _:t,s,flags=re.S)
open(root+'/DESIGN.md','w').write(s)
