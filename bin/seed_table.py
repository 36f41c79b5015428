#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    one = lambda t: ' '.join(t.split()).replace('|', '/')
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), one(m['what_it_breaks']), one(m['needs'])))
text = ('## Planted changes\n\nEach was confirmed in a scratch copy (builds, passes the stable tests, its demonstration fails).  Every one is\n'
        'reported by the quick check of its property, the first part of its name.\n\n| Change | What it breaks | What it needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n')
p = V + '/DESIGN.md'
s = open(p).read()
a = s.find('## Planted changes')
b = s.index('## False alarms corrected')
s = (s[:a] if a >= 0 else s[:b]) + text + s[b:]
open(p, 'w').write(s)
