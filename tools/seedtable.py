#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md, from seeded/*/meta.json (run by hand after planting)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | breaks | needs, to manifest | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'; t = open(p).read()
t = re.sub(r'(?s)<!-- planted -->.*<!-- /planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->', t)
open(p, 'w').write(t)
