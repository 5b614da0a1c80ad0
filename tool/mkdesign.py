"""writes the tables at the end of DESIGN.md from the known findings and the seeded bugs (between the markers)"""
import json, os, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known, fixed = collections.Counter(), collections.Counter()
for l in open(os.path.join(R, 'known_findings.txt')):
    m = re.match(r'fixed: property=(P\d+)', l)
    if m: fixed[m[1]] += 1; continue
    m = re.match(r'property=(P\d+) key=', l)
    if m: known[m[1]] += 1
out = ['| property | repaired | recorded |', '|---|---|---|']
for p in sorted(set(known) | set(fixed)):
    out.append('| %s | %d | %d |' % (p, fixed[p], known[p]))
out += ['', '### Seeded bugs', '', '| bug | property | needs | caught by | history |', '|---|---|---|---|---|']
HIST = json.load(open(os.path.join(R, 'tool/seeded.json')))
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    f = os.path.join(R, 'seeded', d, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f)); h = HIST.get(d, {})
        out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), h.get('caught', m['property']), h.get('note', 'caught when planted')))
p = os.path.join(R, 'DESIGN.md'); t = open(p).read()
a, b = '<!-- tables -->', '<!-- end -->'
t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + t[t.index(b):]
open(p, 'w').write(t)
