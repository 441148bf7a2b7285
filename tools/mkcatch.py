#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
rows = ["| id | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split('/')[1], m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
s = open('DESIGN.md').read()
s = re.sub(r'<!--T-->\n.*\n<!--/T-->', lambda _: '<!--T-->\n' + '\n'.join(rows) + '\n<!--/T-->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
