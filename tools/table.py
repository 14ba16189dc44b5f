#!/usr/bin/env python3
"""Writes the table of the planted bugs in DESIGN.md, between its two markers; /tmp/mut/matrix.jsonl (of `mutate.py bugs`) tells which other checks catch them."""
import json, os, re
V = '/verif/'
m = {}
if os.path.exists('/tmp/mut/matrix.jsonl'):
    for l in open('/tmp/mut/matrix.jsonl'):
        d = json.loads(l); m[d['bug']] = [c for c, r in d['res'].items() if r == 1]
s = open(V + 'DESIGN.md').read()
old = {r[0]: r[2] for r in re.findall(r'^\| (c\d\d-[\w-]+) \| (C\d\d) \| ([C\d ,]+) \|', s, re.M)}
rows = ['| bug | property | caught by | needs |', '|---|---|---|---|']
for b in sorted(os.listdir(V + 'seeded')):
    d = json.load(open(f'{V}seeded/{b}/meta.json'))
    by = sorted(m[b]) if b in m else old.get(b, d['property']).split(', ')
    rows.append(f"| {b} | {d['property']} | {', '.join(by)} | {d['needs']} |")
a, z = '<!-- bugs -->\n', '\n<!-- /bugs -->'
if '@BUGS@' in s: s = s.replace('@BUGS@', a + z)
i, j = s.index(a) + len(a), s.index(z)
open(V + 'DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
