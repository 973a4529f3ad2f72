# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['property']} |")
s=open('DESIGN.md').read()
a=s.index('| planted | breaks | caught by |')
b=s.find('\n\n',a); b=len(s) if b<0 else b
s=s[:a]+'| planted | breaks | caught by |\n|---|---|---|\n'+'\n'.join(rows)+'\n'+s[b:]
open('DESIGN.md','w').write(s.rstrip('\n')+'\n')
