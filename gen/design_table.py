#!/usr/bin/env python3
"""Author tool: fills the table of planted changes in DESIGN.md."""
import json, os, re, collections
V = '/verif'; t = collections.defaultdict(list)
for d in sorted(os.listdir(V + '/seeded')):
    t[json.load(open('%s/seeded/%s/meta.json' % (V, d)))['property']].append('`%s`' % d)
tab = '\n'.join('| %s | %s |' % (p, ', '.join(t[p])) for p in sorted(t))
s = open(V + '/DESIGN.md').read()
s = s.replace('@TABLE@', tab) if '@TABLE@' in s else re.sub(r'(\| property \| planted changes \|\n\|---\|---\|\n)(?:\|.*\n)*', lambda m: m.group(1) + tab + '\n', s)
open(V + '/DESIGN.md', 'w').write(s)
