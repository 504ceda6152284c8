#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: the table of planted bugs and the number of fixes."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(root + '/known_findings.json'))['findings']
fixed = sum(1 for x in k if x.get('status') == 'fixed')
rows = ['| bug | property and catching check | needs | what it breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], c(m['needs']), c(m['what_it_breaks'])))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), s, flags=re.S)
s = re.sub(r'every genuine defect found: \S+ fixed', 'every genuine defect found: %d fixed' % fixed, s)
open(p, 'w').write(s)
