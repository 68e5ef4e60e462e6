#!/usr/bin/env python3
"""writes the generated parts of DESIGN.md: the table of planted bugs (from seeded/*/meta.json)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append((m['property'], d, m['what_it_breaks']))
t = '\n'.join('| %s | %s | %s |' % (b, a, c.replace('|', '/')) for a, b, c in sorted(rows))
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '| planted bug | caught by | what it breaks |\n|---|---|---|\n' + t + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
