#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md and the planted bugs' meta.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
by = {}
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    by.setdefault(m['property'], []).append((d, m))
also = {'side-field-memo': 'C22', 'e2e-prefix-outside': 'C21', 'prefix-bytes-text': 'C21', 'side-render-scratch': 'C17', 'short-lookup-ambiguous': 'C11'}
try:
    missed = set(open(here + '/missed.txt').read().split())
except OSError:
    missed = set()
out = ['| property | planted bug | what it breaks | caught by |', '|---|---|---|---|']
n = 0
for p in sorted(by):
    for d, m in by[p]:
        n += 1
        what = ' '.join(m['what_it_breaks'].split()).replace('|', '/')
        got = 'nothing' if d in missed else p + (', ' + also[d] if d in also else '')
        out.append(f'| {p} | {d} | {what} | {got} |')
body = open(here + '/design_body.md').read().replace('SEEDTABLE', '\n'.join(out)).replace('SEEDCOUNT', str(n))
open(root + '/DESIGN.md', 'w').write(body)
