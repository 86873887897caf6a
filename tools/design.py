"""Rebuild DESIGN.md from tools/design/*.md and the list of planted bugs."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
rows=['| planted bug | property | needs |','|---|---|---|']
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'].replace('|','/').replace('\n',' ')))
t=open(here+'/design/head.md').read()+'\n'+open(here+'/design/tail.md').read()
open(root+'/DESIGN.md','w').write(t.replace('SEEDTABLE','\n'.join(rows)))
