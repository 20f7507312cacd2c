"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('| id | property | needs |\n')
i = s.index('\n', s.index('\n', i) + 1) + 1
j = s.index('\n\n', i) + 1
open(p, 'w').write(s[:i] + ''.join(rows) + s[j:])
