"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, 'seeded_results.json')))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'),
                                           m['needs'].replace('|', '/'), res.get(n, 'not run')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- BUGS -->.*<!-- /BUGS -->', lambda m: '<!-- BUGS -->\n' + '\n'.join(rows) + '\n<!-- /BUGS -->', s, flags=re.S)
open(p, 'w').write(s)
