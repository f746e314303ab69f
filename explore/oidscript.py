"""P15: scripts/parse_oids.py, which turns the published data file into the rows of the table and into dotted numbers."""
import itertools, os, re, subprocess, sys


def enc(comp):
    o = [comp & 127]
    while comp >> 7:
        comp >>= 7
        o.insert(0, comp & 127 | 128)
    return o


def octets(arcs):
    return enc(arcs[0] * 40 + arcs[1]) + [b for a in arcs[2:] for b in enc(a)]


def arcs(oct):
    r, c = [], 0
    for b in oct:
        c = c << 7 | b & 127
        if b < 128:
            if r: r.append(c)
            else: x = min(c // 40, 2); r += [x, c - 40 * x]
            c = 0
    return r


def run(r):
    unit = 'oidscript'
    if r.only_unit and r.only_unit != unit:
        return
    script = os.path.join(r.repo, 'scripts', 'parse_oids.py')
    d = r.scratch('oids')
    os.makedirs(os.path.join(d, 'data'), exist_ok=True)

    def check(key, entries, hexfmt='\\x%02X'):
        """entries: (name, octets)"""
        if r.only and r.only != key:
            return
        r.add('traces'); r.add('states', len(entries)); r.add('transitions', 2 * len(entries))
        with open(os.path.join(d, 'data', 'oids.txt'), 'w') as f:
            for n, o in entries:
                f.write('OBJ_%s="%s"\n' % (n, ''.join(hexfmt % b for b in o)))
        for opt in ('--bytes', '--strings'):
            p = subprocess.run([sys.executable, script, opt], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(r.env, PYTHONDONTWRITEBYTECODE='1'))
            if p.returncode:
                r.violation(unit, key, '%s fails with %d: %s' % (opt, p.returncode, p.stderr[-200:])); return
            got = []
            for l in p.stdout.splitlines():
                m = re.match(r'\{ \{ ((?:0x[0-9a-f]{2},?)*) \}, (\d+), "(.*)" \},$', l) if opt == '--bytes' else re.match(r'\{ "([0-9.]*)", +"(.*)" +\},$', l)
                if not m:
                    r.violation(unit, key, '%s prints "%s"' % (opt, l[:80])); return
                if opt == '--bytes':
                    o = [int(x, 16) for x in m.group(1).split(',')]
                    if len(o) != int(m.group(2)):
                        r.violation(unit, key, '%s gives %s %s octets' % (opt, m.group(3), m.group(2))); return
                    got.append((m.group(3), tuple(o)))
                else:
                    got.append((m.group(2), tuple(int(x) for x in m.group(1).split('.'))))
            want = [(n, tuple(o) if opt == '--bytes' else tuple(arcs(o))) for n, o in entries]
            if sorted(got) != sorted(want):
                a = sorted(set(got) - set(want)); b = sorted(set(want) - set(got))
                r.violation(unit, key, '%s gives %s for %s' % (opt, a[:1], b[:1]) if a or b else '%s loses or doubles an entry' % opt); return

    # the published file: its rows are those of the table
    real = []
    for l in open(os.path.join(r.repo, 'data', 'oids.txt')):
        n, v = l.strip().split('=')
        real.append((n[4:], [int(x, 16) for x in v.strip('"').split('\\x')[1:]]))
    check('published', real)
    first = [(x, y) for x in range(3) for y in ([0, 1, 38, 39] if x < 2 else [0, 1, 39, 40, 46, 47, 48, 79, 80, 100, 999, 16303, 16304, 2 ** 31])]
    vals = [0, 1, 39, 40, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 32, 2 ** 48, 2 ** 56 - 1, 2 ** 56, 2 ** 64 - 1, 2 ** 64, 2 ** 128 - 1]
    k = itertools.count()
    for n in range(0, 4 if r.thorough else 3):
        for f in first:
            check('first %d.%d more %d' % (f + (n,)), [('n%d_%s' % (next(k), '_'.join(map(str, f + t))), octets(f + t)) for t in itertools.product(vals, repeat=n)], '\\x%02x' if n & 1 else '\\x%02X')
    check('one of each length', [('len%d' % n, octets((1, 2) + (5,) * n)) for n in range(0, 60)])
    check('empty', [])
    check('same number twice', [('a', octets((1, 2, 3))), ('b', octets((1, 2, 3)))])
    r.units.append(dict(unit=unit))
