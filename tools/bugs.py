#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head, mark = text[:text.index('| bug |')], '| bug | what it breaks | what it needs |\n|---|---|---|\n'
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
open(path, 'w').write(head + mark + ''.join(rows))
