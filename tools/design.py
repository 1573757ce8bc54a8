#!/usr/bin/env python3
# design.py MC: rewrites the generated parts of DESIGN.md (planted bugs, enumerated spaces).
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
f = os.path.join(V, 'tools/seed/missed.json')
if os.path.exists(f):
    missed = json.load(open(f))
s = open(V + '/DESIGN.md').read()
cell = lambda t: t.replace('|', '\\|').replace('\n', ' ')
t = '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    t += '| %s | %s | %s | %s |\n' % (d, m['property'], cell(m['needs']), missed.get(d, m['property']))
s = re.sub(r'<!-- seeds -->.*?(?=\n## )', lambda _: '<!-- seeds -->\n' + t, s, flags=re.S)
out = subprocess.check_output([sys.argv[1], 'rules']).decode()
t = '| | tier | space | units | rule |\n|---|---|---|---|---|\n'
for l in out.splitlines():
    i, tier, n, u, r = l.split('\t')
    t += '| %s | %s | %s | %s | %s |\n' % (i, tier, n, u, cell(r))
s = s[:s.index('<!-- spaces -->')] + '<!-- spaces -->\n' + t
open(V + '/DESIGN.md', 'w').write(s)
