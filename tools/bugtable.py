#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md from a log of runs (lines: id property CAUGHT|missed ...)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d\d) (CAUGHT|missed)[^|]*\|\s*(.*)', l)
        if m:
            res.setdefault(m.group(1), {})[m.group(2)] = (m.group(3), m.group(4).split(':')[0][:40])
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    d = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    r = res.get(i, {})
    c = ', '.join(f'{p} ({w[1]})' if re.match(r'\S+ \S.*#', w[1]) else p for p, w in sorted(r.items()) if w[0] == 'CAUGHT') or ('missed' if r else '?')
    rows.append(f'| {i} | {d["property"]} | {d["needs"]} | {c} |')
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a = s.index('@@TABLE@@') if '@@TABLE@@' in s else s.index('| change | property |')
e = s.find('\n\n', a)
s = s[:a] + '\n'.join(rows) + (s[e:] if e >= 0 else '\n')
open(p, 'w').write(s)
