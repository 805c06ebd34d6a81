#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md (which check catches which planted bug) from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
p = root + '/DESIGN.md'
t = open(p).read().split('\n## 6. ')[0].rstrip() + '\n'
t += '\n## 6. Which check catches which planted bug\n\nEvery one is caught by the quick check of its own property (last run of all of them: see the log of commits).\n\n'
t += '| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
