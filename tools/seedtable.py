import json,glob,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=['| change | caught by | needs |','|---|---|---|']
for d in sorted(glob.glob(root+'/seeded/*/')+glob.glob(root+'/more-seeds/*/'), key=lambda d: d.rstrip('/').split('/')[-1]):
    m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s |'%(os.path.basename(d[:-1]),m.get('caught_by',m['property']),m['needs'].replace('|','\\|')))
p=root+'/DESIGN.md'; s=open(p).read()
t='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
s=re.sub(r'SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
