#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the planted-bug table (from seeded/ and catches.json)
and the bounds (from evidence/ of the last full quick run)."""
import json, os, re, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
t = open('DESIGN.md').read()
def put(name, body):
    global t
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n' + body + '\n' + t[j:]
c = json.load(open('catches.json'))
rows = ['| planted bug | what it breaks | caught by | not caught by |', '|---|---|---|---|']
ids = sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob('seeded/*/meta.json'))
n = 0
for s in ids:
    m = json.load(open(f'seeded/{s}/meta.json'))
    r = c.get(s, {})
    hit = [k for k in sorted(r) if r[k] == 'CAUGHT']
    n += m['property'] in hit
    no = [k for k in sorted(r) if r[k] == 'missed' and k == m['property']]
    rows.append(f"| {s} | {m['what_it_breaks'].replace('|', '/')} | {', '.join(hit)} | {', '.join(no)} |")
put('catches', f'{len(ids)} planted bugs; {n} are caught by the check of their own property (quick tier).\n\n' + '\n'.join(rows))
rows = ['| check | family | bound | executions | s |', '|---|---|---|---|---|']
for f in sorted(glob.glob('evidence/C*.json')):
    d = json.load(open(f))
    for x in d['coverage']['families']:
        b = x['bound'].replace('|', '/').replace('\n', ' ')
        rows.append(f"| {d['property']} | {x['name']} | {b if len(b) < 420 else b[:417] + '...'} | {x['executions']} | {x['wall_s']:.0f} |")
put('bounds', '\n'.join(rows))
open('DESIGN.md', 'w').write(t)
