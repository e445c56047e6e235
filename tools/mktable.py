#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.setdefault(m['property'], []).append((d, ' '.join(m['what_it_breaks'].split())))
head = '## Planted bugs\n'
text = open(V + '/DESIGN.md').read().split(head)[0].rstrip() + '\n\n' + head
text += '\n`seeded/`: each is caught by the quick check of the property it was written for (first column).\n\n| check | planted bug | what it breaks |\n|---|---|---|\n'
for p in sorted(rows):
    for d, w in rows[p]:
        text += '| %s | %s | %s |\n' % (p, d, w.replace('|', '\\|'))
open(V + '/DESIGN.md', 'w').write(text)
