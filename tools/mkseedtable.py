#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|'), m.get('caught_by', m['property'])))
t = '<!-- seeds -->\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
p = R + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE', '<!-- seeds --><!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
