"""P35: the sample programs over the types of a grammar. What they print is compared with what a program compiled with the
same types prints of its own objects, and with the sizes the compiler gives."""
import glob, itertools, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor


LONGNAME = 'a_name_' + 'of_many_' * 23 + 'letters'


class T:
    """k: leaf ptr arr st un td"""
    def __init__(self, k, **a):
        self.k = k; self.__dict__.update(a)

    def declare(self, n):
        if self.k in ('leaf', 'td'): return '%s %s' % (self.c, n)
        if self.k == 'ptr': return self.c % n
        if self.k == 'arr': return self.e.declare('%s%s' % (n, ''.join('[%s]' % x for x in self.dims)))
        return '%s %s' % (self.head() if self.tag else self.body(), n)

    def head(self):
        return ('struct ' if self.k == 'st' else 'union ') + self.tag

    def body(self):
        return '%s%s { %s }' % ('struct' if self.k == 'st' else 'union', ' ' + self.tag if self.tag else '', ' '.join(t.declare(n) + ';' for n, t in self.m))

    def real(self):
        return self.t.real() if self.k == 'td' else self

    def name(self):
        """the name of the reflected type"""
        s = self.real()
        if s.k in ('leaf', 'ptr'): return s.r
        if s.k == 'arr': return ''.join('[%s]' % (x or '0') for x in s.dims) + s.e.name()
        return s.tag

    def show(self, e):
        """C that prints the value e as the printer does"""
        s = self.real()
        if s.k == 'leaf': return 'printf("%s", (%s)%s);' % (s.fmt, s.cast, e)
        if s.k == 'ptr': return 'printf("(%s) 0x%%016llx", (unsigned long long)%s);' % (s.r, e)
        if s.k == 'arr':
            x, pre = s, []
            while x.k == 'arr': pre += [int(d or 0) for d in x.dims]; x = x.e.real()
            o, v = 'printf("[ "); { int first = 1; ', e
            for q in pre:
                i = 'i%d' % next(uniq); o += 'for (int %s = 0; %s < %d; %s++) ' % (i, i, q, i); v += '[%s]' % i
            return o + '{ if (!first) printf(", "); first = 0; %s } } printf(" ]");' % x.show(v)
        if not s.m: return 'printf("%s{}");' % s.tag
        o = 'printf("%s { ");' % s.tag
        for n, t in s.m:
            o += 'printf("%s : "); %s printf("; ");' % (n, t.show('%s.%s' % (e, n) if n else e))
        return o + 'printf("}");'


uniq = itertools.count()
LEAF = [T('leaf', c=c, r=r, fmt=f, cast=k) for c, r, f, k in (
    ('char', 'byte', '%d', 'int'), ('signed char', 'byte', '%d', 'int'), ('unsigned char', 'ubyte', '%u', 'unsigned'), ('short', 'short', '%d', 'int'), ('unsigned short', 'ushort', '%u', 'unsigned'),
    ('int', 'int', '%d', 'int'), ('unsigned', 'uint', '%u', 'unsigned'), ('long', 'long', '%ld', 'long'), ('unsigned long', 'ulong', '%lu', 'unsigned long'), ('long long', 'long', '%lld', 'long long'),
    ('unsigned long long', 'ulong', '%llu', 'unsigned long long'), ('float', 'float', '%f', 'double'), ('double', 'double', '%f', 'double'))]
BY = {t.c: t for t in LEAF}
CHAR, SHORT, INT, LONG, FLOAT, DOUBLE, U8 = (BY[x] for x in ('char', 'short', 'int', 'long', 'float', 'double', 'unsigned char'))
PTR = [T('ptr', c='int *%s', r='*int'), T('ptr', c='void *%s', r='*void'), T('ptr', c='char **%s', r='**byte'), T('ptr', c='const char *%s', r='*const_byte'),
       T('ptr', c='struct base *%s', r='*base'), T('ptr', c='int (*%s)[3]', r='*[3]int'),
       T('ptr', c='struct ' + LONGNAME + ' *%s', r='*' + LONGNAME)]
BASE = T('st', tag='base', m=[('c', CHAR), ('s', SHORT), ('d', DOUBLE)])
EMPTY = T('st', tag='empty', m=[])
MIX = T('un', tag='mix', m=[('i', INT), ('b', BASE), ('raw', T('arr', e=U8, dims=[3]))])
TD = [T('td', c='td_int', t=INT), T('td', c='td_base', t=BASE), T('td', c='td_arr', t=T('arr', e=SHORT, dims=[3])), T('td', c='td_ptr', t=PTR[4]),
      T('td', c='td_anon', t=T('st', tag='', m=[('x', SHORT), ('y', LONG)])), T('td', c='td_td', t=None)]
TD[5].t = TD[1]


def anon(k, *ts):
    u = next(uniq)
    return T(k, tag='', m=[('n%d_%d' % (u, i), t) for i, t in enumerate(ts)])


def pool():
    p = list(LEAF) + PTR + TD + [BASE, EMPTY, MIX]
    p += [T('arr', e=e, dims=d) for e in (CHAR, INT, FLOAT, PTR[0], BASE, MIX, TD[4], TD[2]) for d in ([1], [3], [2, 3])] + [T('arr', e=SHORT, dims=[2, 1, 3]), T('arr', e=INT, dims=[0])]
    p += [anon('st', CHAR, LONG), anon('un', CHAR, INT), T('arr', e=anon('st', SHORT, CHAR), dims=[2]), anon('st', anon('un', DOUBLE, CHAR), SHORT)]
    return p


def ctx(t):
    u = next(uniq)
    return [T('st', tag='', m=[('h%d' % u, CHAR), ('x%d' % u, t)]), T('un', tag='', m=[('x%d' % u, t), ('o%d' % u, SHORT)]), T('arr', e=t, dims=[2])]


def structs(thorough):
    """every sequence of members, and every type under every stack of contexts"""
    P = pool()
    small = [CHAR, SHORT, INT, DOUBLE, PTR[4], BASE, MIX, T('arr', e=CHAR, dims=[3])]
    seqs = [[]] + [[t] for t in P] + [[a, b] for a in P for b in (P if thorough else small)] + [[a, b, c] for a in small for b in (P if thorough else small) for c in small]
    # unnamed members
    names = 'abc'
    out = [[(names[i], t) for i, t in enumerate(s)] for s in seqs]
    for pos in range(3):
        for k in ('st', 'un'):
            for t in LEAF + [BASE]:
                m = [('a', CHAR), ('b', INT)]
                m.insert(pos, ('', anon(k, t, SHORT)))
                out.append(m)
    level = [t for t in LEAF + PTR[:1] + [BASE, MIX]]
    for depth in range(3 if thorough else 2):
        level = [x for t in level for x in ctx(t) if not (t.k == 'arr' and x.k == 'arr')]
        for t in level: out.append([('a', SHORT), ('v', t), ('z', CHAR)])
    for n in (10, 100, 1000):
        out.append([('m%d' % i, LEAF[i % len(LEAF)]) for i in range(n)])
        out.append([('a', CHAR), ('v', T('arr', e=BASE, dims=[n])), ('z', CHAR)])
    t = INT
    for i in range(100): t = T('st', tag='', m=[('k%d' % i, CHAR if i % 3 else DOUBLE), ('l%d' % i, t)])
    out.append([('a', CHAR), ('v', t)])
    return [T('st', tag='s%d' % i, m=m) for i, m in enumerate(out)]


COMMON = ['struct base %s;' % BASE.body().split(' ', 2)[2], 'struct empty { };', '%s;' % MIX.body(), 'typedef int td_int;', 'typedef struct base td_base;', 'typedef short td_arr[3];',
          'typedef struct base *td_ptr;', 'typedef struct { short x; long y; } td_anon;', 'typedef td_base td_td;']
FUNCS = [('void', 'void', 'f0', []), ('int', 'int', 'f1', [(INT, 'a')]), ('struct base', 'struct base', 'f2', [(BASE, 'b'), (PTR[3], 'p'), (DOUBLE, 'd')]),
         ('char *', '*byte', 'f3', [(PTR[4], 'q'), (TD[1], 't'), (MIX, 'u')]), ('unsigned long', 'ulong', 'f4', [(TD[0], '')])]
VARS = [('g0', INT), ('g1', BASE), ('g2', T('arr', e=FLOAT, dims=[4])), ('g3', PTR[2]), ('g4', MIX), ('g5', TD[4])]

FILL = '''
static void fill(void *p, size_t n, int k)
{
    unsigned char *b = p;
    for (size_t i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 255 : k == 2 ? i + 1 : k == 3 ? 0x80 ^ (i * 37) : (i % 8 == 7 ? 0x40 : i % 4 == 3 ? 0x3f : i * 11);
}
'''


def run(r):
    from check import CheckError
    unit = 'samples'
    if r.only_unit and r.only_unit != unit: return
    d = r.scratch('samples')
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(r.build.plugin), ex.submit(r.build.tool, 'crefltool', 'asan'), ex.submit(r.build.lib, 'asan')]
        so, tool, lib = [f.result() for f in fs]
    SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment']

    def sh(cmd, timeout=300):
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env, cwd=d, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: return -99, '', 'no end'
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

    def must(cmd):
        rc, o, e = sh(cmd)
        if rc: raise CheckError('%s: %s' % (' '.join(cmd)[:300], e[-800:]))
        return o

    def bad(key, text):
        if len(r.viol) < 40: r.violation(unit, key, text)

    S = structs(r.thorough)
    half = len(S) // 2
    src = {'one': COMMON + ['%s;' % s.body() for s in S], 'ta': COMMON + ['struct twice { int first; };'] + ['%s;' % s.body() for s in S[:half]],
           'tb': COMMON + ['#ifndef PLAIN', 'struct twice { char second[4]; };', '#endif'] + ['%s;' % s.body() for s in S[half:]],
           'decls': COMMON + ['%s;' % s.body() for s in S[:200]] + ['%s %s(%s);' % (rt, n, ', '.join(t.declare(p) for t, p in a) or ('void' if a == [] else '')) for rt, rr, n, a in FUNCS] + ['extern %s;' % t.declare(n) for n, t in VARS]}
    for n, lines in src.items():
        open(os.path.join(d, n + '.c'), 'w').write('\n'.join(lines) + '\n')

    def reflect(n):
        must([sys.executable, '-B', os.path.join(r.repo, 'scripts', 'creflcc.py'), '-p', os.path.dirname(so), '-o', n + '.refl', n + '.c'])

    with ThreadPoolExecutor(r.ncpu) as ex:
        list(ex.map(reflect, src))
        inc = ['-I', os.path.join(r.repo, 'include'), '-I', os.path.join(r.repo, 'samples', 'example3_printer')]
        cc = ['gcc', '-w', '-O0', '-g'] + SAN + inc
        # the printer of the sample, the sizes, and the objects in several parts
        N = 24
        parts = [S[i::N] for i in range(N)]
        def part(i):
            o = ['#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', '#include "printer.h"'] + COMMON + ['%s;' % s.body() for s in parts[i]] + [FILL]
            for s in parts[i]:
                o.append('static void show_%s(struct %s *v) { %s puts(""); }' % (s.tag, s.tag, s.show('(*v)')))
            o.append('void part%d(decl_db *db, int who, int k) {' % i)
            for s in parts[i]:
                o.append(' { struct %s *v = malloc(sizeof *v); fill(v, sizeof *v, k); if (who) show_%s(v); else crefl_print(crefl_type(db, struct %s), v); free(v); }' % (s.tag, s.tag, s.tag))
            o.append('}')
            open(os.path.join(d, 'part%d.c' % i), 'w').write('\n'.join(o) + '\n')
            must(['gcc', '-w', '-O0'] + inc + ['-c', 'part%d.c' % i, '-o', 'part%d.o' % i])
        parted = [ex.submit(part, i) for i in range(N)]
        main = ['#include <stdio.h>', '#include <stdlib.h>', '#include <stdint.h>', '#include "printer.h"', 'struct twice { int first; };', FILL] + ['void part%d(decl_db *db, int who, int k);' % i for i in range(N)]
        main += ['int main(int argc, char **argv) {', ' int who = atoi(argv[1]); decl_db *db = who ? NULL : crefl_db_internal(); struct twice tw = { 42 };', ' for (int k = 0; k < 5; k++) {']
        main += [' part%d(db, who, k);' % i for i in range(N)] + [' }']
        # intrinsic types taken by their kind and width, and names that are no struct of the program
        for cls, w, t, f in [('uint', w, 'uint%d_t' % w, '%llu') for w in (8, 16, 32, 64)] + [('sint', w, 'int%d_t' % w, '%lld') for w in (8, 16, 32, 64)] + [('float', 32, 'float', '%f'), ('float', 64, 'double', '%f')]:
            main.append(' for (int k = 0; k < 5; k++) { %s v; fill(&v, sizeof v, k); if (who) printf("%s\\n", (%s)v); else crefl_print(crefl_intrinsic(db, _decl_%s, %d), &v); }' % (t, f, 'double' if cls == 'float' else 'unsigned long long' if cls == 'uint' else 'long long', cls, w))
        for n in ('struct nosuch', 'struct s', 'struct S1', 'base', 'int', '', 's1', 'struct s1 ', 'struct  s1', 'struct mix', 'struct td_int', 'struct td_base'):
            main.append(' if (who) puts(""); else crefl_print(crefl_type_by_name(db, "%s"), &tw);' % n)
        main.append(' if (argc > 2) { if (who) puts("twice { first : 42; }"); else crefl_print(crefl_type(db, struct twice), &tw); }')
        main += [' if (db) crefl_db_destroy(db);', ' return 0; }']
        open(os.path.join(d, 'main.c'), 'w').write('\n'.join(main) + '\n')
        smp = os.path.join(r.repo, 'samples')
        def one(out, files):
            os.makedirs(os.path.join(d, out + '.d'))
            objs = [os.path.join(d, out + '.d', os.path.basename(f) + '.o') for f in files]
            for f, o in zip(files, objs): must(cc + ['-c', f, '-o', o])
            must(['ld', '-r', '-o', out] + objs)
        jobs = [ex.submit(must, cc + ['-c', 'main.c', '-o', 'main.o']), 
                ex.submit(one, 'printer.o', [f for f in sorted(glob.glob(os.path.join(smp, 'example3_printer', '*.c'))) if os.path.basename(f) != 'main.c']),
                ex.submit(one, 'ex1.o', sorted(glob.glob(os.path.join(smp, 'example1_file', '*.c')))), ex.submit(one, 'ex2.o', sorted(glob.glob(os.path.join(smp, 'example2_embed', '*.c'))))]
        # the compiler's sizes
        def sizes():
            o = ['#include <stdio.h>'] + src['one'] + ['int main() {']
            for s in [BASE, EMPTY, MIX] + S:
                o.append(' { static struct { %s; } v; printf("%%zu", sizeof v.a_ * 8);' % s.declare('a_'))
                for n, t in s.m: o.append(' printf(" %%zu", sizeof(%s) * 8);' % ('v.a_.' + n if n else t.body()))
                o.append(' puts(""); }')
            o.append(' return 0; }')
            open(os.path.join(d, 'sizes.c'), 'w').write('\n'.join(o) + '\n')
            must(['gcc', '-w', '-O0', 'sizes.c', '-o', 'sizes'])
            return [[int(x) for x in l.split()] for l in must([os.path.join(d, 'sizes')]).splitlines()]
        szf = ex.submit(sizes)
        for f in parted + jobs: f.result()
        sz = szf.result()
    size = {s.tag: z for s, z in zip([BASE, EMPTY, MIX] + S, sz)}
    r.add('states', len(S))

    # the printer: the types in one source or in two, in both orders
    obj = ['part%d.o' % i for i in range(N)]
    expect = {}
    for arr in (['one'], ['ta', 'tb'], ['tb', 'ta'], ['void', 'ta', 'tb']) if not r.only or r.only.startswith('printer') else []:
        tag = '_'.join(arr)
        open(os.path.join(d, 'void.c'), 'w').write('int nothing;\n')
        if 'void' in arr: reflect('void')
        must([tool, '--merge', 'm_%s.refl' % tag] + [a + '.refl' for a in arr]); must([tool, '--emit', 'm_%s.c' % tag, 'm_%s.refl' % tag])
        must(cc[:3] + ['-c', 'm_%s.c' % tag, '-o', 'm_%s.o' % tag])
        must(['g++'] + SAN + ['main.o', 'printer.o', 'm_%s.o' % tag] + obj + [lib, '-o', 'x_' + tag])
        args = ['twice'] if arr[-2:] == ['ta', 'tb'] else []
        rc, got, err = sh([os.path.join(d, 'x_' + tag), '0'] + args, 600)
        rc1, exp, e1 = sh([os.path.join(d, 'x_' + tag), '1'] + args, 600)
        if rc1: raise CheckError('the objects cannot be shown: ' + e1[-300:])
        a, b = got.splitlines(), exp.splitlines()
        order = [s for p in parts for s in p]
        r.add('traces', len(b)); r.add('transitions', len(b))
        n = 0
        for k in range(max(len(a), len(b))):
            x, y = a[k] if k < len(a) else '(end)', b[k] if k < len(b) else '(end)'
            if x != y:
                what = 'pattern %d of %s' % (k // len(order), order[k % len(order)].body()[:200]) if k < 5 * len(order) else 'line %d' % (k - 5 * len(order))
                bad('printer %s %s' % (tag, what), 'prints "%s", the program\'s object is "%s"' % (x[:300], y[:300]))
                n += 1
                if n > 3: break
        if rc: bad('printer %s' % tag, 'ends with %d: %s' % (rc, err[:400]))
        r.sample('printer: ' + b[len(order) + 600][:200])
        r.units.append(dict(unit='printer ' + tag, lines=len(b), structs=len(order)))

    # example1_file lists every struct with the widths of the compiler
    def names(s): return [(n, t) for n, t in s.m]
    if not r.only or r.only.startswith('example1'):
        must(['g++'] + SAN + ['ex1.o', lib, '-o', 'ex1'])
        for n, structs_ in (('one', S), ('ta', S[:half]), ('tb', S[half:]), ('decls', S[:200])):
            lines = []
            def add(s, z):
                lines.append('struct %s : %d' % (s.tag, z[0]))
                for (m, t), w in zip(s.m, z[1:]): lines.append('\tfield %s : %d' % (m, w))
            add(BASE, size['base']); add(EMPTY, size['empty'])
            add(TD[4].t, [128, 16, 64])
            if n == 'ta': lines += ['struct twice : 32', '\tfield first : 32']
            if n == 'tb': lines += ['struct twice : 32', '\tfield second : 32']
            for s in structs_: add(s, size[s.tag])
            rc, o, e = sh([os.path.join(d, 'ex1'), n + '.refl'])
            a = o.splitlines()
            r.add('traces', len(lines)); r.add('transitions')
            if rc: bad('example1 %s' % n, 'ends with %d: %s' % (rc, e[:300]))
            k = next((k for k in range(max(len(a), len(lines))) if k >= len(a) or k >= len(lines) or a[k] != lines[k]), None)
            if k is not None: bad('example1 %s line %d' % (n, k), 'prints "%s", the compiler says "%s"' % (a[k] if k < len(a) else '(end)', lines[k] if k < len(lines) else '(end)'))
            r.units.append(dict(unit='example1 ' + n, lines=len(lines)))
        for args in ([], ['one.refl', 'one.refl']):
            rc, o, e = sh([os.path.join(d, 'ex1')] + args)
            if rc == 0 or o: bad('example1 with %d arguments' % len(args), 'exit %d, prints "%s"' % (rc, o[:60]))

    # example2_embed prints every named declaration with its sizes
    if not r.only or r.only.startswith('example2'):
        W = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'float': 32}
        def layout(t):
            """size and alignment in bits"""
            t = t.real()
            if t.k == 'leaf': return (W.get(t.c, 64),) * 2
            if t.k == 'ptr': return 64, 64
            if t.k == 'arr':
                s, a = layout(t.e)
                for x in t.dims: s *= int(x or 0)
                return s, a
            o, al = 0, 8
            for n, m in t.m:
                s, a = layout(m); al = max(al, a)
                o = max(o, s) if t.k == 'un' else -(-o // a) * a + s
            return -(-o // al) * al, al
        for s in S + [BASE, EMPTY, MIX]:
            if layout(s)[0] != size[s.tag][0]: raise CheckError('the size of %s' % s.body())
        ids = {}
        def head(t):
            return ('struct ' if t.k == 'st' else 'union ') + (t.tag or '/* anonymous id=@%d */' % ids.setdefault(id(t), len(ids)))
        def pad(k): return ' ' * min(4 * k, 255)
        def body(t, k):
            o = '%s%s /* size=%d */' % (pad(k), head(t), layout(t)[0])
            if not t.m: return o
            return o + ' {\n' + ''.join(field(n, x, k + 1) + ';\n' for n, x in t.m) + pad(k) + '}'
        def short(t):
            t = t.real()
            return head(t) if t.k in ('st', 'un') else (t.name() or None)
        def field(n, t, k):
            x = t.real()
            o = body(x, k) if x.k in ('st', 'un') else pad(k) + x.name()
            return o + ' /* size=%d */ %s' % (layout(t)[0], n)
        def typedef(t):
            x = t.real()
            return 'typedef ' + (body(x, 0) if x.k in ('st', 'un') else x.name()) + ' /* size=%d */ %s' % (layout(t)[0], t.c)
        for n, structs_ in (('one', S), ('decls', S[:200])):
            ids.clear()
            o = [body(BASE, 0), body(EMPTY, 0), body(MIX, 0)] + [typedef(t) for t in TD] + [body(s, 0) for s in structs_]
            if n == 'decls':
                for rt, rr, fn, a in FUNCS: o.append('%s %s(%s)' % (rr, fn, ', '.join('%s %s' % (t.name(), p) for t, p in a)))
                for vn, t in VARS: o.append(field(vn, t, 0))
            exp = ''.join(x + ';\n' for x in o)
            must([tool, '--merge', 'e_%s.refl' % n, n + '.refl']); must([tool, '--emit', 'e_%s.c' % n, 'e_%s.refl' % n])
            must(cc[:3] + ['-c', 'e_%s.c' % n, '-o', 'e_%s.o' % n]); must(['g++'] + SAN + ['ex2.o', 'e_%s.o' % n, lib, '-o', 'ex2_' + n])
            rc, got, e = sh([os.path.join(d, 'ex2_' + n)])
            if rc: bad('example2 %s' % n, 'ends with %d: %s' % (rc, e[:300]))
            a, b = got.splitlines(), exp.splitlines()
            r.add('traces', len(b)); r.add('transitions')
            m, inv = {}, {}
            for k in range(max(len(a), len(b))):
                x, y = a[k] if k < len(a) else '(end)', b[k] if k < len(b) else '(end)'
                i, j = re.findall(r'anonymous id=(\d+)', x), re.findall(r'anonymous id=@(\d+)', y)
                same = len(i) == len(j) and all(m.setdefault(q, p) == p and inv.setdefault(p, q) == q for p, q in zip(i, j))
                if re.sub(r'id=\d+', 'id', x) != re.sub(r'id=@\d+', 'id', y) or not same:
                    bad('example2 %s line %d' % (n, k), 'prints "%s", and the source says "%s"' % (x[:200], y[:200])); break
            r.units.append(dict(unit='example2 ' + n, lines=len(b)))
