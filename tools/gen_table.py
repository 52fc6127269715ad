"""Writes the table of planted bugs into DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {}
rows = []
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s |' % (b, ' '.join(str(m['needs']).split()).replace('|', '/'), m['property']))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
head = '| bug | what it needs | caught by |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
print(len(rows))
