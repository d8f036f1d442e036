#!/usr/bin/env python3
# rows.py: adds rows for new planted bugs to the table in DESIGN.md.
# A note for column 4 can be given as id=text.
import glob,json,os,re,sys
os.chdir('/verif')
notes=dict(a.split('=',1) for a in sys.argv[1:])
s=open('DESIGN.md').read().split('\n')
ids=sorted(os.path.basename(d) for d in glob.glob('seeded/*'))
rows=[i for i,l in enumerate(s) if re.match(r'\| c\d\d-',l)]
have={s[i].split('|')[1].strip() for i in rows}
old=[s[i] for i in rows if s[i].split('|')[1].strip() in ids]
for id in ids:
    if id not in have:
        m=json.load(open('seeded/%s/meta.json'%id))
        old.append('| %s | %s | %s | %s |'%(id,m['property'],m['what_it_breaks'],notes.get(id,'')))
old=sorted(set(old))
s[rows[0]:rows[-1]+1]=old
t='\n'.join(s)
t=re.sub(r'`seeded/` has \d+ changes','`seeded/` has %d changes'%len(ids),t)
open('DESIGN.md','w').write(t)
print(len(ids))
