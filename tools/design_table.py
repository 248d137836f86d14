#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/detected.txt
(lines "BUG: CHECK(12s) ..." as tools/detect.sh prints them; the last line of a bug counts)."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
det = {}
for l in open('tools/detected.txt'):
    if ':' in l:
        a, b = l.strip().split(':', 1)
        det[a] = b.strip()
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]; m = json.load(open(f))
    w = m['needs'] + ': ' + m['what_it_breaks']; w = w if len(w) < 220 else w[:217] + '...'
    rows.append('| %s | %s | %s |' % (i, w.replace('|', '/'), re.sub(r'\((\d+)s\)', '', det.get(i, '?'))))
d = open('DESIGN.md').read()
mark = '<!-- planted bugs -->'
d = d.split(mark)[0] if mark in d else d.replace('DETECTION_TABLE\n', '')
open('DESIGN.md', 'w').write(d + mark + '\n%d bugs; the last column names the checks whose quick tier reports it.\n\n| bug | needs: what it breaks | caught by |\n|---|---|---|\n' % len(rows) + '\n'.join(rows) + '\n')
