#!/usr/bin/env python3
"""gen_design.py -- writes DESIGN.md: the prose below and of design_head.md / design_tail.md, with the bounds from the //VP lines and the planted bugs."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
D={}
exec(open('tools/design_prose.py').read(),{'D':D})
P=[json.loads(l) for l in open('properties.jsonl')]
o=[open('tools/design_head.md').read().rstrip()+'\n']
for p in P:
    i=p['id']; o.append('### %s %s\n\n%s\n'%(i,p['title'],D[i].strip()))
    for f in sorted(glob.glob('harness/%s/*.cpp'%i)):
        for l in open(f):
            if not l.startswith('//VP '): continue
            n=re.search(r'name=(\S+)',l).group(1); t=(re.search(r'tier=(\S+)',l) or [0,'both'])[1]; d=re.search(r'desc="([^"]*)"',l); q=re.search(r'--preempt (\d)',l)
            o.append('* `%s.%s` (%s): %s%s'%(os.path.basename(f)[:-4],n,t[0].upper(),d.group(1) if d else '',''))
    o.append('')
o.append('## Planted bugs\n\nEach was written from the property\'s text and the code, and confirmed by its demonstration and the repository\'s tests. `tools/seedcheck.sh` runs the quick check of its property against it.\n')
R=json.load(open('tools/seed_results.json'))
o.append('| planted bug | needs | caught by |\n|---|---|---|')
for m in sorted(glob.glob('seeded/*/meta.json')):
    k=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); o.append('| %s | %s | %s |'%(k,d['needs'].replace('|','/'),R.get(k,'?')))
o.append('')
o.append(open('tools/design_tail.md').read())
open('DESIGN.md','w').write('\n'.join(o))
