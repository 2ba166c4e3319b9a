#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text + per property text + the harness comments (bounds) + the table of planted bugs (tools/caught.json)."""
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
props=[json.loads(l) for l in open('properties.jsonl')]
exec(open('tools/design_text.py').read())
out=[HEAD]
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}\n\n{PER.get(i,'')}\n")
    hs=[]
    for f in sorted(glob.glob(f'harness/h/{i.lower()}/*.go')):
        for m in re.findall(r'^// (H_.*(?:\n// .*)*)\nfunc H_',open(f).read(),re.M): hs.append('- '+m.replace('\n// ',' '))
    out.append("Harnesses and bounds, quick (thorough):\n\n"+'\n'.join(hs)+'\n')
out.append(AFTER)
c=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
out.append("## Planted bugs and the checks that catch them\n\n| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|")
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(b,'not run')} |")
open('DESIGN.md','w').write('\n'.join(out)+'\n')
