#!/usr/bin/env python3
"""Rewrites the catch table of DESIGN.md from seeded/*/meta.json and the output of
tools/catch.sh (given as a file)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    m = re.match(r'(caught|MISSED)\s+(\S+) \(\w+\)(.*)', l)
    if m:
        got[m[2]] = (m[1], m[3])
rows = ["| planted bug | property | what it breaks | check |", "|---|---|---|---|"]
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    s, d = got.get(i, ('?', ''))
    d = d.strip(': ').strip()
    r = re.match(r'VIOLATION|(\S+)', d)
    s = 'missed' if s == 'MISSED' else m['property'] + ' reports it'
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {s} |")
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
