#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (list of fixes, table of planted bugs) from known_findings.json and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
k = json.load(open(V + '/known_findings.json'))
fx = '\n<!--fixes-->\n' + ''.join('- %s\n' % x for x in k['fixed']) + '<!--/fixes-->\n'
s = re.sub(r'FIXLIST\n|\n<!--fixes-->.*<!--/fixes-->\n', lambda m: fx, s, flags=re.S)
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
rows = ['| planted bug | needs | outcome (quick tier) |', '|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), res.get(i, 'not judged yet').replace('|', '\\|')))
t = '<!--seeds-->\n' + '\n'.join(rows) + '\n<!--/seeds-->\n'
s = re.sub(r'SEEDTABLE\n|<!--seeds-->.*<!--/seeds-->\n', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
