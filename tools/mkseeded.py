"""Rewrites the table of planted bugs in DESIGN.md (development use)."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |\n' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
head = '| id | property | what it needs | caught by |\n|---|---|---|---|\n'
i = t.index(head) + len(head)
j = i
while t[j] in '|@':
    j = t.index('\n', j) + 1
open(p, 'w').write(t[:i] + ''.join(rows) + t[j:])
