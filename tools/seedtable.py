#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| bug | property (the check that reports it) | what breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
rows.append('<!-- /seeds -->')
p = root + '/DESIGN.md'
s = open(p).read()
s = s.replace('@SEEDTABLE@', '<!-- seeds --><!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
