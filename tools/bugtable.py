#!/usr/bin/env python3
"""Run every planted change against the check of its property and write the
table into DESIGN.md.  bugtable.py [ID..]"""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(ROOT, 'evidence', 'bugtable.json')
seeded = os.path.join(ROOT, 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(seeded))
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    out = subprocess.run(['bash', os.path.join(ROOT, 'tools/trybug.sh'), i],
                         stdout=subprocess.PIPE, text=True).stdout
    res[i] = 'rc=1' in out
    print(i, res[i], flush=True)
    os.makedirs(os.path.dirname(RES), exist_ok=True)
    json.dump(res, open(RES, 'w'))
rows = ['| id | property | what it needs | what breaks | caught |', '|---|---|---|---|---|']
for i in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (
        i, m['property'], m['needs'], m['what_it_breaks'],
        {True: m['property'] + ' quick', False: 'missed', None: '?'}[res.get(i)]))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p, encoding='utf-8').read()
a, b = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->')
open(p, 'w', encoding='utf-8').write(s[:a] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + s[b:])
