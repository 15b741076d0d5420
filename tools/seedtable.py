#!/usr/bin/env python3
"""Writes the table of the seeded bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].split('. ')[0].replace('|', '/')))
rows.sort()
t = '| check | bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % (c, i, n[:160]) for c, i, n in rows)
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
