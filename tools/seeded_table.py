#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its markers) from seeded/*/meta.json."""
import json, os, glob, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MISSED = dict(l.split(None, 1) for l in open('tools/missed_at_first.txt').read().splitlines() if l.strip())
rows = ['| planted bug | needs | caught by | |', '|---|---|---|---|']
for p in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(p)); i = p.split('/')[1]
    e = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {i} | {e(m['needs'])} | {m['property'] if not MISSED.get(i, '').startswith('STILL') else '**not caught**'} | {e(MISSED.get(i, ''))} |")
t = open('DESIGN.md').read()
t = re.sub(r'<!-- table -->.*<!-- end of table -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end of table -->', t, flags=re.S)
open('DESIGN.md', 'w').write(t)
print(len(rows) - 2, 'planted bugs')
