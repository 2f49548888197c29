#!/usr/bin/env python3
"""Regenerates tools/seeded.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
with open(here + '/tools/seeded.md', 'w') as o:
    o.write('# Planted bugs, by the property whose check catches them\n')
    for p in sorted(by):
        o.write('\n## %s\n\n' % p)
        for i, n, b in by[p]:
            o.write('* `%s` — %s %s\n' % (i, n, b))
