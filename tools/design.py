#!/usr/bin/env python3
"""Bring the table of planted bugs in DESIGN.md up to date (between the SEEDS marks)."""
import glob, json, re, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
missed = json.load(open('tools/missed.json')) if os.path.exists('tools/missed.json') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f)); i = f.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], missed.get(i, d['property'])))
s = open('DESIGN.md').read()
s = re.sub(r'<!-- SEEDS -->.*?(?=\n## Limits)', lambda m: '<!-- SEEDS -->\n' + '\n'.join(rows) + '\n', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
