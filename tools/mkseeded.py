"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + '/DESIGN.md').read()
head = text[:text.index('## Seeded bugs and what catches them')]
out = '''## Seeded bugs and what catches them

Every entry of `seeded/` was run with `vcheck --bug` or the equivalent: it builds, passes the 47 stable
tests, its demo tells it apart, and the quick check of its property reports it.

| bug | property (check that catches it) | what it needs to show |
|---|---|---|
'''
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, d)))
    out += '| %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'))
open(root + '/DESIGN.md', 'w').write(head + out)
