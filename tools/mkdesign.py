import re, json, glob, os
p='/verif/DESIGN.md'; s=open(p).read()
fx=[]
for l in open('/verif/known_findings.jsonl'):
    m=re.match(r'fixed: property=(P\d+) (\w+) (.*)',l.strip())
    if m: fx.append(m.groups())
fx.sort(key=lambda t:t[0])
fixes='\n'.join(f'- **{a}** `{b}` {c}' for a,b,c in fx)
rows=['| planted bug | what it breaks | what it needs |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    cl=lambda t:' '.join(str(t).split()).replace('|','/')
    rows.append(f'| {os.path.basename(d)} | {cl(m["what_it_breaks"])} | {cl(m["needs"])} |')
def sub(name,text):
    global s
    b,e=f'<!-- {name} -->',f'<!-- /{name} -->'
    if '@@'+name+'@@' in s: s=s.replace('@@'+name+'@@',b+'\n'+text+'\n'+e)
    else: s=re.sub(re.escape(b)+'.*?'+re.escape(e),lambda m:b+'\n'+text+'\n'+e,s,flags=re.S)
sub('FIXES',fixes); sub('MATRIX','\n'.join(rows))
open(p,'w').write(s)
