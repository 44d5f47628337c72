#!/usr/bin/env python3
"""Appends the per-property and findings sections to DESIGN.md (between markers)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
from findings import FINDINGS, FIXED
root = os.path.join(os.path.dirname(__file__), '..')
f = os.path.join(root, 'DESIGN.md')
mark = '<!-- generated by tools/design.py from here -->\n'
s = open(f).read().split(mark)[0]
o = [mark, '\n## Properties\n']
for p in PROPS:
    o.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Explored:* {p['quant']}.\n*Decided by:* {p['technique']} ({p['level']}). {p['note']}\n*Why tests cannot:* {p['why']}\n")
    if p.get('design'): o.append('\n' + p['design'].strip() + '\n')
if NOT_APPLICABLE:
    o.append('\n## Not applicable\n\n' + ''.join(f"- {n['property']}: {n['reason']}\n" for n in NOT_APPLICABLE))
o.append('\n## Genuine defects found\n\nRepaired (each in its own `fix:` commit):\n\n')
o += [f"- {a}: {c} ({b})\n" for a, b, c in FIXED]
o.append('\nRecorded as known findings (not small and safe to repair here):\n\n')
o += [f"- {k['property']}: {k['title']}. Signatures: {', '.join(k['signatures'])}.\n" for k in FINDINGS]
o.append('\n## Planted bugs\n\n| seed | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
sd = os.path.join(root, 'seeded')
res = {}
rf = os.path.join(root, 'tools', 'seed-results.json')
if os.path.exists(rf): res = json.load(open(rf))
more = os.path.join(root, 'seeded-more')
for n, at in sorted((n, d) for d in (sd, more) if os.path.isdir(d) for n in os.listdir(d)):
    mf = os.path.join(at, n, 'meta.json')
    if os.path.exists(mf):
        m = json.load(open(mf))
        o.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(n, '')} |\n")
open(f, 'w').write(''.join([s] + o))
