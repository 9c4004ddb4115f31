"""Writes DESIGN.md from tools/DESIGN.in, known_findings.txt and seeded/"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(HERE, 'tools', 'DESIGN.in')).read()
d = []
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('fixed:'):
        _, p, c, what = l.strip().split(' ', 3)
        d.append('* %s `%s` %s' % (p[9:], c, what))
b = ['| id | property | breaks | needs | caught by |', '|---|---|---|---|---|']
root = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, i, 'meta.json')))
    b.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], m['property']))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s.replace('@@DEFECTS@@', '\n'.join(d)).replace('@@SEEDED@@', '\n'.join(b)))
