#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and build/caught.json (id -> what the check reported).
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
try: caught = json.load(open(f'{root}/tools/caught.json'))
except FileNotFoundError: caught = {}
rows = []
for f in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    rows.append((m['property'], i, m['needs'], caught.get(i, '?')))
rows.sort()
t = '| property | planted bug | needs | reported by its check |\n|---|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} | {d} |\n' for a, b, c, d in rows)
p = f'{root}/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: f'<!-- planted -->\n{t}<!-- /planted -->', s, flags=re.S)
open(p, 'w').write(s); print(len(rows))
