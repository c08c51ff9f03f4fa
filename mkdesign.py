"""Rewrites the generated end of DESIGN.md (planted bugs, cost)."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
M = '<!-- generated below by mkdesign.py -->\n'
t = open(H + '/DESIGN.md').read().split(M)[0] + M
t += '\n## 6 Planted bugs and what catches them\n\nEach directory of `seeded/` is a change that compiles, passes the 15 tests and breaks the property;\nthe check of that property reports every one of these with its quick command.\n\n| bug | caught by | needs |\n|---|---|---|\n'
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    t += f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |\n"
c = json.load(open(H + '/costs.json'))
t += '\n## 7 Cost\n\nSeconds on the 8 cores of the sandbox.\n\n| check | quick | thorough |\n|---|---|---|\n'
for k in sorted(c):
    t += f'| {k} | {c[k][0]} | {c[k][1]} |\n'
open(H + '/DESIGN.md', 'w').write(t)
