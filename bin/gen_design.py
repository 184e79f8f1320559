#!/usr/bin/env python3
"""writes DESIGN.md from doc/*.md and props/*/prop.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {json.loads(l)['id']: json.loads(l)['title'] for l in open(f'{V}/properties.jsonl')}
o = [open(f'{V}/doc/design_head.md').read()]
for p in sorted(T):
    f = f'{V}/props/{p}/prop.json'
    o.append(f'### {p} — {T[p]}\n')
    if not os.path.exists(f): o.append(open(f'{V}/doc/{p}.md').read()); continue
    c = json.load(open(f))
    o.append(f'Level: **{c["level"]}**. Units: ' + (', '.join(f'`{u["unit"]}`' for u in c.get('verus', [])) or 'none') + '.\n')
    o.append(c.get('design', 'Bounded evaluation of the contract on the compiled code against `spec/`.') + '\n')
    if c.get('level_note'): o.append(f'*Remaining bounded/assumed:* {c["level_note"]}\n')
o.append(open(f'{V}/doc/design_tail.md').read())
open(f'{V}/DESIGN.md', 'w').write('\n'.join(o))
