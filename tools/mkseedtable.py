#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (UNITS: where the check of the property sees it)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
t = '<!-- planted -->\n| change | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /planted -->'
p = V + '/DESIGN.md'
d = open(p).read()
d = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: t, d, flags=re.S)
open(p, 'w').write(d)
