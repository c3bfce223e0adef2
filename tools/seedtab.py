# rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
rows=['<!--SEEDS-->','| change | property | what it breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/')):
    m=json.load(open(d+'meta.json'));rows.append('| %s | %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],m['what_it_breaks'].replace('|','\\|'),m['needs'].replace('|','\\|')))
rows.append('<!--/SEEDS-->')
s=open('DESIGN.md').read()
s=re.sub(r'<!--SEEDS-->.*<!--/SEEDS-->',lambda m:'\n'.join(rows),s,flags=re.S)
open('DESIGN.md','w').write(s)
