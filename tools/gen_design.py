#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(V + '/DESIGN.md').read()
rows = ['| change | property | breaks | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    f = lambda t: ' '.join(t.replace('|', '\\|').split())
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], f(m['what_it_breaks']), f(m['needs'])))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->\n'
s = s.replace('@@SEEDS@@\n', '<!-- seeds -->\n<!-- /seeds -->\n')
s = re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->\n', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
