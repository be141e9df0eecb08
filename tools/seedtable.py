#!/usr/bin/env python3
"""development aid: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'] if isinstance(m['needs'], str) else '; '.join(m['needs'])} |".replace('\n', ' '))
p = f'{root}/DESIGN.md'; s = open(p).read()
blk = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', blk) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: blk, s, flags=re.S)
open(p, 'w').write(s)
