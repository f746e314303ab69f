"""mkcost.py LOG: put the times of the clean checks of a vcheck log into DESIGN.md"""
import re, sys
t = [(int(m[1]), m[2]) for m in re.finditer(r'^\[(\d+) s\] (\S+)', open(sys.argv[1]).read(), re.M)]
cost = {n[6:]: b - a for (a, n), (b, _) in zip(t, t[1:]) if n.startswith('clean:')}
s, cur = open('DESIGN.md').read().split('\n'), None
for i, l in enumerate(s):
    m = re.match(r'### (P\d\d) ', l)
    if m: cur = m[1]
    if cur in cost: s[i] = re.sub(r'(\*Cost:\* )(?:about |under )?\d+ s(?:econds)?', lambda m: '%sabout %d s' % (m[1], max(cost[cur], 1)), l)
open('DESIGN.md', 'w').write('\n'.join(s))
print(cost, sum(cost.values()))
