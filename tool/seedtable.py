"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(HERE, 'tool', 'missed.json')))
MARK = '<!-- planted bugs -->'
rows = []
for f in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
    d, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append((d['property'], i, d['needs'], MISSED.get(i, '')))
t = '| check | bug | needs | missed first, then |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
p = os.path.join(HERE, 'DESIGN.md')
a, _, b = open(p).read().split(MARK)
open(p, 'w').write(a + MARK + '\n' + t + MARK + b)
