#!/usr/bin/env python3
"""Documentation only: fills the tables of DESIGN.md from props.py and the planted bugs."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
seeds = {}
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append((d, m))
how = ''
for p in PROPS:
    s = ', '.join(d for d, _ in seeds.get(p['id'], [])) or 'none'
    t = p['tech'].replace('static analysis: ', '')
    how += f"**{p['id']} {p['title']}.** *Decided by* {t}. *Over* {p['quant']}. *Bounds:* {p['note']}. *Out of reach of tests because* {p['why']}. *Anchors:* " + '; '.join(w for _, w in p['mech']) + f". *Planted:* {s}.\n\n"
tab = '| planted bug | property | needs | breaks |\n|---|---|---|---|\n'
for p in PROPS:
    for d, m in seeds.get(p['id'], []):
        tab += '| ' + ' | '.join([d, p['id'], m['needs'], m['what_it_breaks']]).replace('\n', ' ') + ' |\n'
f = root + '/DESIGN.md'
s = open(f).read()
for name, text in (('table', how), ('seeds', tab)):
    s = re.sub(f'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: m[1] + text + m[2], s, flags=re.S)
open(f, 'w').write(s)
