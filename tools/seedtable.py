#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seednotes.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); notes = json.load(open(os.path.join(root, 'tools/seednotes.json')))
rows = ['| bug | property | what it breaks | needs | caught by | first / what was added |', '|---|---|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    d = json.load(open(p)); n = os.path.basename(os.path.dirname(p)); c, f = notes.get(n, [d['property'], 'yes'])
    rows.append('| %s | %s | %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), c, f))
s = open(os.path.join(root, 'DESIGN.md'), encoding='utf-8').read(); a, b = s.index('<!-- seeded -->') + 15, s.index('<!-- /seeded -->')
open(os.path.join(root, 'DESIGN.md'), 'w', encoding='utf-8').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
