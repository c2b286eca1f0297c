#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.txt
(lines `ID how`, how the check of the property reports it)."""
import json,glob,os,re
how=dict(l.rstrip('\n').split(' ',1) for l in open('/verif/tools/seeded_results.txt'))
rows=['| planted bug | breaks | needs | reported by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {how.get(i,'?')} |")
s=open('/verif/DESIGN.md').read()
a=s.index('## 5. Planted bugs'); b=s.index('## 6.')
head='''## 5. Planted bugs

`/verif/seeded/*`; `tools/mkseed.sh` makes one, `tools/tryseed.sh` runs the checks on them,
`tools/seedtable.py` writes this table. "proof" counts the obligations that fail, "input" means the
harness also found a failing input on the real code.

'''
s=s[:a]+head+'\n'.join(rows)+'\n\n'+s[b:]
open('/verif/DESIGN.md','w').write(s)
