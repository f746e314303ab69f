"""P23: enumerated C translation units through the compiler plug-in, compared with an independent model of the graph"""
import itertools, os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from refl import N, Own, Ref, BUILTIN, compare
from layoutrun import plugin_cmd

B = {n: i for i, n in enumerate(BUILTIN)}
QN = ['const', 'volatile', 'restrict']


# ---------------------------------------------------------------- types
def b(c, n): return ('b', c, B[n])
def p(t): return ('p', t)
def q(s, t): return ('q', frozenset(s.split()), t)
def a(n, t): return ('a', n, t)
def td(name, t): return ('t', name, t)
def tag(kw, name): return ('r', kw, name)
def fn(ret, args): return ('f', ret, args)


BASE = [b('int', 'int'), b('char', 'byte'), b('unsigned char', 'ubyte'), b('signed char', 'byte'), b('short', 'short'), b('unsigned short', 'ushort'),
        b('unsigned', 'uint'), b('long', 'long'), b('unsigned long', 'ulong'), b('long long', 'long'), b('unsigned long long', 'ulong'),
        b('__int128', 'cent'), b('unsigned __int128', 'ucent'), b('_Bool', 'bool'), b('float', 'float'), b('double', 'double'), b('long double', 'quad'),
        b('__float128', 'quad'), b('_Float16', 'half'), b('float _Complex', 'cfloat'), b('double _Complex', 'cdouble'), b('long double _Complex', 'cquad')]
VOID = b('void', 'void')


def decl(t, inner=''):
    k = t[0]
    paren = '(%s)' % inner if inner.startswith('*') else inner
    if k in 'b': return (t[1] + ' ' + inner).strip()
    if k == 't': return (t[1] + ' ' + inner).strip()
    if k == 'r': return ('%s %s %s' % (t[1], t[2], inner)).strip()
    if k == 'p': return decl(t[1], '*' + inner)
    if k == 'q':
        qs = ' '.join(x for x in QN if x in t[1])
        if t[2][0] == 'p': return decl(t[2][1], ('* %s %s' % (qs, inner)).strip())
        return qs + ' ' + decl(t[2], inner)
    if k == 'A': return ('_Atomic(%s) %s' % (decl(t[1]), inner)).strip()
    if k == 'Y': return ('__typeof__(%s) %s' % (decl(t[1]), inner)).strip()
    if k == 'O': return ('%s %s' % (t[1], inner)).strip()
    if k == 'a': return decl(t[2], paren + '[%s]' % ('' if t[1] is None else t[1]))
    if k == 'f': return decl(t[1], paren + '(%s)' % ', '.join(decl(x) for x in t[2]) if t[2] else paren + '(void)')
    assert 0, t


def tname(x):
    if isinstance(x, int): return BUILTIN[x]
    if isinstance(x, Ref): return x.to[0].name
    return x.name


class Env:
    """declared tags: every declaration and the definition, filled while the unit is written, read afterwards"""

    def __init__(self):
        self.d, self.defs = {}, {}
        self.late = []

    def declare(self, n, define=False):
        k = n.name
        self.d.setdefault(k, []).append(n)
        if define: self.defs[k] = n
        return n

    def ref(self, name):
        r = Ref([None])
        r.name = name
        self.late.append(r)
        return r

    def resolve(self):
        for r in self.late:
            r.to = [self.defs[r.name]] if r.name in self.defs else self.d[r.name]


class TagName:
    pass


def exp(env, t, quals=frozenset()):
    """the graph of a type"""
    k = t[0]
    if k == 't': return exp(env, t[2], quals)
    if k == 'q': return exp(env, t[2], quals | t[1])
    if k == 'a':
        e = exp(env, t[2], quals)
        n, cnt, vla = t[1], 0, ''
        if n is None: nm = '[]'
        elif isinstance(n, str): nm, vla = '[*]', 'vla'
        else: nm, cnt = '[%d]' % n, n
        return N('array', nm + nm_of(e), vla, cnt, e)
    if k in 'AY': return exp(env, t[1], quals)
    if k == 'b': r = t[2]
    elif k == 'O':
        r = Own(t[2]); r.name = t[2].name
    elif k == 'f': return B['void']
    elif k == 'r': r = env.ref(t[2])
    elif k == 'p':
        e = exp(env, t[1])
        r = N('pointer', '*' + nm_of(e), '', 64, e)
    if quals:
        r = N('qualifier', ''.join(x + '_' for x in QN if x in quals) + nm_of(r), ' '.join(quals), 0, r)
    return r


def nm_of(x):
    if isinstance(x, int): return BUILTIN[x]
    if isinstance(x, Ref): return x.name
    return x.name


# ---------------------------------------------------------------- declarations
class Unit:
    def __init__(self):
        self.c, self.top, self.env = [], [], Env()

    def add(self, text, *nodes):
        self.c.append(text)
        for n in nodes:
            n.text = text
            self.top.append(n)

    def var(self, name, t, storage='', attrs='', an=()):
        pr = {'': 'extern_c static', 'extern': 'extern_c static', 'static': 'static', '_Thread_local': 'extern_c', 'static _Thread_local': '', 'extern _Thread_local': 'extern_c'}[storage]
        self.add(('%s %s%s;' % (storage, decl(t, name), attrs)).strip(), N('field', name, pr, 0, exp(self.env, t), attrs=list(an)))

    def typedef(self, name, t, attrs='', an=()):
        self.add('typedef %s%s;' % (decl(t, name), attrs), N('typedef', name, '', 0, exp(self.env, t), attrs=list(an)))
        return td(name, t)

    def func(self, name, ret, params, storage='', body=None, attrs='', an=(), extra='', static=()):
        """params: (name, type, text or None)"""
        words = storage.split()
        pr = ['static'] if 'static' in words else ['global', 'extern_c']
        if 'inline' in words: pr.append('inline')
        if '_Noreturn' in words or 'noreturn' in extra: pr.append('noreturn')
        f = N('function', name, ' '.join(pr), attrs=list(an))
        f.kids.append(N('param', '', 'out', 0, exp(self.env, ret)))
        ps = []
        for pn, pt, txt in params:
            ps.append(txt or decl(pt, pn))
            e = exp(self.env, pt)
            if pn in static or (txt and 'static' in txt): e.pr |= 1 << 13
            f.kids.append(N('param', pn, '', 0, e))
        self.add('%s %s%s%s' % (storage, decl(ret, '%s(%s)' % (name, ', '.join(ps) or 'void')), attrs, ';' if body is None else ' ' + body), f)

    def record(self, kw, name, mem, attrs='', an=(), tail=''):
        """mem: list of (text, [N...]) members; returns the node"""
        n = N(kw, name, attrs=list(an))
        for txt, ns in mem: n.kids += ns
        if name: self.env.declare(n, True)
        self.add('%s%s %s { %s }%s;' % (kw, attrs, name, ' '.join(x[0] for x in mem), tail), n)
        return n

    def field(self, name, t, bw=None, attrs='', an=()):
        return ('%s%s%s;' % (decl(t, name), '' if bw is None else ' : %d' % bw, attrs),
                [N('field', name, '' if bw is None else 'bitfield', bw or 0, exp(self.env, t), attrs=list(an))])

    def enum(self, name, consts, attrs='', an=(), tail='', cattrs=()):
        """consts: (name, value or None)"""
        n = N('enum', name, attrs=list(an))
        vals, v = [], -1
        for cn, cv in consts:
            v = v + 1 if cv is None else cv
            vals.append(v)
        lo, hi = min(vals + [0]), max(vals + [0])
        if lo >= 0: w, ty = (32, 'uint') if hi < 1 << 32 else (64, 'ulong')
        else: w, ty = (32, 'int') if lo >= -1 << 31 and hi < 1 << 31 else (64, 'long')
        n.qty = w
        txt = []
        for i, ((cn, cv), v) in enumerate(zip(consts, vals)):
            at, ann = cattrs[i] if i < len(cattrs) else ('', ())
            n.kids.append(N('constant', cn, '', v & (1 << 64) - 1, B[ty], attrs=list(ann)))
            txt.append(cn + at + ('' if cv is None else ' = %s' % lit(cv)))
        if name: self.env.declare(n, True)
        self.add('enum%s %s { %s }%s;' % (attrs, name, ', '.join(txt), tail), n)
        return n

    def source(self, fname):
        self.env.resolve()
        s = N('source', fname)
        s.kids = self.top
        self.fix(s)
        return s

    def fix(self, n):
        pass


def lit(v):
    if v >= 1 << 63: return '%dull' % v
    if v == -1 << 63: return '(-9223372036854775807ll - 1)'
    return '%dll' % v if abs(v) >= 1 << 31 else str(v)


def av(name, s=None, v=None):
    n = N('attribute', name)
    if s is not None: n.link = N('value', s)
    elif v is not None: n.link = N('value', '', '', v)
    return n


# attribute text, expected, where it may stand
ATTRS = [('deprecated', lambda: av('deprecated'), 'svtfecr'), ('unused', lambda: av('unused'), 'svtfrec'), ('used', lambda: av('used'), 'vF'),
         ('packed', lambda: av('packed'), 'srm'), ('pure', lambda: av('pure'), 'f'), ('warn_unused_result', lambda: av('warn_unused_result'), 'f'),
         ('annotate("one")', lambda: av('annotate', 'one'), 'svtfecrm'), ('annotate("two; words::\\"q\\"")', lambda: av('annotate', 'two; words::"q"'), 'svtfecrm'),
         ('annotate("")', lambda: av('annotate', ''), 'svtfecrm'),
         ('aligned(8)', lambda: av('aligned', None, 64), 'svrm'), ('aligned(16)', lambda: av('aligned', None, 128), 'svfrm'), ('always_inline', lambda: av('always_inline'), 'F'),
         ('alias("target")', lambda: av('alias', 'target'), 'A')]


def at(sel):
    return ' __attribute__((%s))' % ', '.join(ATTRS[i][0] for i in sel), [ATTRS[i][1]() for i in sel]


def types(depth, bases, full):
    """all type trees over the constructors"""
    cur = list(bases)
    out = [cur]
    for d in range(depth):
        nx = []
        for t in cur:
            nx.append(p(t))
            if object_type(t):
                for n in ((3, 0, 70000) if full else (3,)): nx.append(a(n, t))
            if t[0] != 'f' and not (t[0] == 'q'):
                qs = ['const', 'volatile', 'const volatile'] if full else ['const']
                if t[0] == 'p' and bare(t[1])[0] != 'f': qs += ['restrict', 'const restrict', 'volatile restrict', 'const volatile restrict'] if full else ['restrict']
                if t[0] != 'a': nx += [q(x, t) for x in qs]
        if full or d == 0:
            nx += [p(fn(t, [b('int', 'int')])) for t in cur if bare(t)[0] not in 'af']
        cur = nx
        out.append(cur)
    return out


def bare(t):
    while t[0] in 'tqAY': t = t[1 if t[0] in 'AY' else 2]
    return t


def object_type(t):
    t = bare(t)
    return not (t == VOID or t[0] == 'f')


def has_big(t, n=1):
    if t[0] == 'a': return n * t[1] > 1 << 28 or has_big(t[2], n * t[1])
    return has_big(t[2], n) if t[0] in 'qt' else False


def prelude(u):
    u.record('struct', 'S', [u.field('x', BASE[0])])
    u.record('union', 'U', [u.field('x', BASE[0]), u.field('y', BASE[1])])
    u.enum('E', [('e0', None), ('e1', 5)])
    u.add('struct I;', u.env.declare(N('struct', 'I')))
    T = u.typedef('T', BASE[0])
    TS = u.typedef('TS', tag('struct', 'S'))
    TP = u.typedef('TP', p(tag('struct', 'S')))
    TA = u.typedef('TA', a(2, BASE[4]))
    TC = u.typedef('TC', q('const', BASE[7]))
    TT = u.typedef('TT', T)
    TF = u.typedef('TF', fn(BASE[0], [BASE[1]]))
    # structures named only through a typedef
    n = N('struct', '')
    n.kids = u.field('z', BASE[0])[1]
    r = Ref([n]); r.name = ''
    u.add('typedef struct { int z; } AN;', n, N('typedef', 'AN', '', 0, r))
    return [T, TS, TP, TA, TC, TT, TF, tag('struct', 'S'), tag('union', 'U'), tag('enum', 'E'), p(tag('struct', 'I'))]


# ---------------------------------------------------------------- the enumerations: yield (name, Unit)
def batches(name, gen, size=60):
    """gen yields functions that add one declaration to a unit"""
    k = 0
    while True:
        u = Unit()
        extra = prelude(u)
        n = 0
        for f in gen:
            f(u, n)
            n += 1
            if n == size: break
        if not n: return
        yield '%s %d' % (name, k), u
        k += 1


def e_types(th):
    u = Unit()
    tags = prelude(u)
    def all_types():
        lv = types(2 if not th else 3, BASE + [VOID] + tags, False) if not th else types(2, BASE + [VOID] + tags, True)
        for l in lv: yield from l
        lv = types(3, [BASE[0], VOID, tags[0], tags[3], tags[7]], False)
        yield from lv[3]
        if th: yield from types(4, [BASE[0], tags[7]], False)[4]
        lv = types(1, BASE + [VOID] + tags, True)
        yield from lv[1]
        yield from types(2, [BASE[0], tags[2], tags[7]], True)[2]
    def g():
        for t in all_types():
            if has_big(t): continue
            ob = object_type(t)
            def f(u, i, t=t, ob=ob):
                u.typedef('t%d' % i, t)
                if ob:
                    u.var('v%d' % i, t, 'extern')
                    u.record('struct', 'R%d' % i, [u.field('m', t)])
                    u.func('f%d' % i, VOID, [('p', t, None)])
                if bare(t)[0] not in 'af':
                    u.func('g%d' % i, t, [])
            yield f
    yield from batches('types', g(), 60)


def e_members(th):
    def kinds(u, i, k):
        """member k of record number i at place j"""
    I, C = BASE[0], BASE[1]
    def mem(u, k, j, me):
        x = 'm%d' % j
        f = u.field
        if k == 0: return f(x, I)
        if k == 1: return f(x, BASE[6], 3 + j)
        if k == 2: return f('', BASE[6], 5)
        if k == 3: return f('', I, 0)
        if k == 4:
            n = N('struct', me + x); u.env.declare(n, True); n.kids = f('a', I)[1]
            return ('struct %s { int a; } %s;' % (me + x, x), [n, f(x, tag('struct', me + x))[1][0]])
        if k == 5:
            n = N('struct', ''); n.kids = f('a%d' % j, I)[1] + f('b%d' % j, C)[1]
            r = Ref([n]); r.name = ''
            return ('struct { int a%d; char b%d; };' % (j, j), [n, N('field', '', '', 0, r)])
        if k == 6:
            n = N('union', ''); n.kids = f('a', I)[1] + f('b', p(C))[1]
            r = Ref([n]); r.name = ''
            return ('union { int a; char *b; } %s;' % x, [n, N('field', x, '', 0, r)])
        if k == 7: return ('int %s, *%sp, %sa[2];' % (x, x, x), f(x, I)[1] + f(x + 'p', p(I))[1] + f(x + 'a', a(2, I))[1])
        if k == 8: return f(x, p(tag('struct', me)))
        if k == 9: return f(x, a(2, a(3, q('const', C))))
        if k == 10:
            n = N('enum', me + x, '', 32); n.kids = [N('constant', me + x + 'k', '', 0, B['uint'])]; u.env.declare(n, True)
            return ('enum %s { %sk } %s;' % (me + x, me + x, x), [n, f(x, tag('enum', me + x))[1][0]])
        if k == 11: return f(x, td('TS', tag('struct', 'S')), None, ' __attribute__((annotate("n%d")))' % j, [av('annotate', 'n%d' % j)])
        if k == 12: return f(x, p(tag('struct', 'LATER')))
        if k == 13: return f(x, p(fn(VOID, [p(tag('struct', me))])))
        if k == 14:
            n = N('struct', ''); n.kids = f('in', I)[1]
            r = Ref([n]); r.name = ''
            m = N('union', ''); m.kids = [n, N('field', '', '', 0, r)] + f('w%d' % j, BASE[7])[1]
            s = Ref([m]); s.name = ''
            return ('union { struct { int in; }; long w%d; };' % j, [m, N('field', '', '', 0, s)]) if j == 0 else f(x, BASE[7])
        if k == 15: return f(x, tag('enum', 'E'), 2)
        if k == 16: return f(x, p(q('const', tag('struct', 'IMP'))))
    K = 17
    def g():
        for kw in ('struct', 'union'):
            for n in range(0, 4):
                for s in itertools.product(range(K), repeat=n):
                    if kw == 'union' and n == 3 and not th: continue
                    if n == 3 and not th and (s[0] + s[1] * 2 + s[2]) % 2: continue
                    def f(u, i, s=s, kw=kw):
                        me = 'M%d' % i
                        ms = [mem(u, k, j, me) if not (k == 8 and kw == 'union') else u.field('m%d' % j, p(tag('union', me))) for j, k in enumerate(s) if not (kw == 'union' and k == 13)]
                        u.record(kw, me, ms)
                        u.var('v%d' % i, a(2, tag(kw, me)), 'extern')
                    yield f
    for nm, u in batches('members', g(), 80):
        # the structure that members name before it is declared
        u.c.insert(0, 'struct LATER; struct IMP;')
        x, y = u.env.declare(N('struct', 'LATER')), u.env.declare(N('struct', 'IMP'))
        u.top.insert(0, y); u.top.insert(0, x)
        u.record('struct', 'LATER', [u.field('v', BASE[0])])
        yield nm, u


def e_enums(th):
    V = [None, 0, 1, -1, 127, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, -1 << 31, (-1 << 31) - 1, -1 << 63, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    def ok(s):
        v, vs = -1, []
        for x in s:
            v = v + 1 if x is None else x
            vs.append(v)
        return max(vs) < 1 << 64 and not (min(vs) < 0 and max(vs) >= 1 << 63) and not any(x is None and y > 0 and y in (1 << 31, 1 << 63, 1 << 64) for x, y in zip(s, vs))
    def g():
        for n in (1, 2, 3):
            for s in itertools.product(V, repeat=n):
                if not ok(s): continue
                if n == 3 and not th and hash_(s) % 3: continue
                def f(u, i, s=s):
                    cs = [('k%d_%d' % (i, j), x) for j, x in enumerate(s)]
                    if i % 3 == 0:
                        u.enum('X%d' % i, cs)
                        u.var('v%d' % i, tag('enum', 'X%d' % i), 'extern')
                        u.record('struct', 'Y%d' % i, [u.field('b', tag('enum', 'X%d' % i), 3)])
                    elif i % 3 == 1:
                        n = u.enum('', cs, tail=' v%d' % i)
                        r = Ref([n]); r.name = ''
                        u.top.append(N('field', 'v%d' % i, 'extern_c static', 0, r))
                    else:
                        n = u.enum('', cs)
                yield f
    yield from batches('enums', g(), 80)


def hash_(s):
    return int(hashlib.md5(repr(s).encode()).hexdigest()[:8], 16)


def e_attrs(th):
    def seqs(w, k):
        ids = [i for i, x in enumerate(ATTRS) if w in x[2]]
        for n in range(1, k + 1): yield from itertools.permutations(ids, n)
    I = BASE[0]
    def g():
        for s in seqs('v', 3): yield lambda u, i, s=s: u.var('v%d' % i, I, '', *at(s))
        for s in seqs('t', 3): yield lambda u, i, s=s: u.typedef('t%d' % i, I, *at(s))
        for s in seqs('f', 3): yield lambda u, i, s=s: u.func('f%d' % i, I, [('x', I, None)], '', None, *at(s))
        for s in seqs('s', 3):
            yield lambda u, i, s=s: u.record('struct', 's%d' % i, [u.field('a', I)], *at(s))
        for s in seqs('r', 2):
            yield lambda u, i, s=s: u.record('union', 'u%d' % i, [u.field('a', I)], *at(s))
        for s in seqs('m', 3): yield lambda u, i, s=s: u.record('struct', 's%d' % i, [u.field('a', I, None, *at(s)), u.field('b', BASE[1])])
        for s in seqs('m', 1): yield lambda u, i, s=s: u.record('struct', 's%d' % i, [u.field('a', I), u.field('b', BASE[6], 3, *at([x for x in s if ATTRS[x][0][:5] not in ('align',)] or [6]))])
        for s in seqs('e', 3): yield lambda u, i, s=s: u.enum('e%d' % i, [('c%d' % i, None)], *at(s))
        for s in seqs('c', 3): yield lambda u, i, s=s: u.enum('e%d' % i, [('c%d' % i, None), ('d%d' % i, 7)], cattrs=[at(s)])
        for s in seqs('c', 1): yield lambda u, i, s=s: u.enum('e%d' % i, [('c%d' % i, None), ('d%d' % i, 7)], cattrs=[('', ()), at(s)])
        def ali(u, i):
            if i >= 0:
                u.func('tg%d' % i, I, [], '', '{ return 0; }')
                u.func('al%d' % i, I, [], '', None, ' __attribute__((alias("tg%d")))' % i, [av('alias', 'tg%d' % i)])
        yield ali
        yield lambda u, i: u.func('in%d' % i, I, [], 'static inline', '{ return 0; }', '', [av('always_inline')]) if 0 else None
        # two attribute lists, and attributes the model does not have, between ones it has
        for x, y in (('deprecated', 'annotate("one")'), ('annotate("one")', 'unused'), ('unused', 'deprecated')):
            for hide in ('visibility("default")', 'section("foo")', 'weak'):
                def h(u, i, x=x, y=y, hide=hide):
                    A = {n: m for n, m, w in ATTRS}
                    u.var('v%d' % i, I, '', ' __attribute__((%s)) __attribute__((%s)) __attribute__((%s))' % (x, hide, y), [A[x](), A[y]()])
                    u.var('w%d' % i, I, '', ' __attribute__((%s, %s, %s))' % (hide, x, y), [A[x](), A[y]()])
                yield h
        for n in (1, 2, 4, 8, 16, 32, 64, 4096):
            yield lambda u, i, n=n: u.var('v%d' % i, I, '', ' __attribute__((aligned(%d)))' % n, [av('aligned', None, 8 * n)])
        for L in (1, 31, 32, 33, 255, 256, 1000, 1024, 5000):
            yield lambda u, i, L=L: u.var('v%d' % i, I, '', ' __attribute__((annotate("%s")))' % ('y' * L), [av('annotate', 'y' * L)])
    yield from batches('attributes', g(), 60)


def e_funcs(th):
    I, C, S = BASE[0], BASE[1], tag('struct', 'S')
    P = [('', I, None), ('a', I, None), ('s', S, None), ('p', p(q('const', C)), None), ('v', a(3, I), 'int v[static 3]'), ('w', a(None, C), 'char w[]'),
         ('x', a(4, I), 'int x[const 4]'), ('fp', p(fn(I, [C])), None), ('ff', fn(I, [C]), 'int ff(char)'), ('m', a(2, a(3, I)), None), ('e', tag('enum', 'E'), None)]
    ST = ['', 'static', 'extern', 'inline', 'static inline', 'extern inline', '_Noreturn', 'static _Noreturn']
    BODY = [None, '{ for (;;) ; }', '{ struct L { int q; } l; enum { LE } x = LE; static int keep; typedef int LT; extern int ext; int vla[keep + 1]; { struct S s; union { int a; } un; } int fl(int); for (;;) ; }']
    def g():
        for n in range(0, 3 + th):
            for s in itertools.product(range(len(P)), repeat=n):
                yield lambda u, i, s=s: u.func('f%d' % i, I, [((P[k][0] + str(j)) if P[k][0] else '', P[k][1], P[k][2] and P[k][2].replace(P[k][0], P[k][0] + str(j), 1) if P[k][0] not in ('v', 'x', 'w', 'ff') else
                                                               {'v': 'int v%d[static 3]', 'x': 'int x%d[const 4]', 'w': 'char w%d[]', 'ff': 'int ff%d(char)'}[P[k][0]] % j) for j, k in enumerate(s)])
        for st in ST:
            for bd in BODY:
                if bd is None and 'inline' in st and 'static' not in st and 'extern' not in st: continue
                for ret in (VOID, I, p(S), S, p(fn(I, [C]))):
                    def f(u, i, st=st, bd=bd, ret=ret):
                        u.func('h%d' % i, ret, [('%s' % n if bd else n, t, None) for n, t in (('a', I), ('b', p(S)))], st, bd)
                        u.var('after%d' % i, I, 'extern')
                    yield f
        def vla(u, i):
            u.func('va%d' % i, VOID, [('n', I, None), ('a', a('n', I), 'int a[n]')])
            u.func('vb%d' % i, VOID, [('n', I, None), ('a', a('*', I), 'int a[*]')])
            u.func('vc%d' % i, VOID, [('n', I, None), ('a', a('n', a('n', I)), 'int a[n][n]')])
            u.func('vd%d' % i, VOID, [('n', I, None), ('a', a(None, a('n', I)), 'int a[][n]')])
            u.func('ve%d' % i, VOID, [('n', I, None), ('a', p(a('n', I)), 'int (*a)[n]')])
            u.func('vf%d' % i, VOID, [('n', I, None), ('a', a('n', I), 'int a[static n]')])
            u.func('vg%d' % i, VOID, [('n', I, None), ('a', a('n', I), 'int a[static const n + 1]')], '', '{ for (;;) ; }')
            u.func('vh%d' % i, VOID, [('n', I, None), ('a', a('4', a('n', I)), 'int a[static 4][n]'), ('b', a('n', a(4, I)), 'int b[restrict static n][4]')])
        yield vla
        for k in range(0, 40): yield lambda u, i, k=k: u.func('m%d' % i, I, [('p%d' % j, (I, C, S, p(S))[j % 4], None) for j in range(k)])
        for st in ('', 'extern', 'static', '_Thread_local', 'static _Thread_local', 'extern _Thread_local'):
            for t in (I, p(I), a(3, C), S, q('const', I)):
                yield lambda u, i, st=st, t=t: u.var('v%d' % i, t, st)
    yield from batches('functions', g(), 60)


SN = [
    lambda u, k: u.add('struct A;', u.env.declare(N('struct', 'A'))),
    lambda u, k: u.record('struct', 'A', [u.field('x', BASE[0])]) if 'A' not in u.env.defs else None,
    lambda u, k: u.add('struct A *a%d;' % k, *([] if 'A' in u.env.d else [u.env.declare(N('struct', 'A'))]), N('field', 'a%d' % k, 'extern_c static', 0, exp(u.env, p(tag('struct', 'A'))))),
    lambda u, k: u.typedef('T%d' % k, tag('struct', 'A')) if 'A' in u.env.d else u.add('typedef struct A T%d;' % k, u.env.declare(N('struct', 'A')), N('typedef', 'T%d' % k, '', 0, exp(u.env, tag('struct', 'A')))),
    lambda u, k: sn_b(u, k),
    lambda u, k: u.enum('E', [('ea', None), ('eb', -3)]) if 'E' not in u.env.defs else None,
    lambda u, k: u.var('e%d' % k, p(tag('enum', 'E')), 'extern') if 'E' in u.env.defs else None,
    lambda u, k: u.func('f', p(tag('struct', 'A')), [('', p(tag('struct', 'A')), None)]) if 'A' in u.env.d else None,
    lambda u, k: u.var('x', BASE[0], 'extern'),
    lambda u, k: u.typedef('Q', q('const', p(BASE[1]))),
    lambda u, k: sn_anon(u, k),
    lambda u, k: sn_nest(u, k),
    lambda u, k: u.add(';'),
    lambda u, k: u.add('_Static_assert(1, "x");'),
    lambda u, k: u.add('int va%d, *vb%d, vc%d[2], vd%d(void);' % (k, k, k, k), N('field', 'va%d' % k, 'extern_c static', 0, B['int']), N('field', 'vb%d' % k, 'extern_c static', 0, exp(u.env, p(BASE[0]))),
                       N('field', 'vc%d' % k, 'extern_c static', 0, exp(u.env, a(2, BASE[0]))), N('function', 'vd%d' % k, 'global extern_c', kids=[N('param', '', 'out', 0, B['int'])])),
    lambda u, k: sn_implicit(u, k),
    lambda u, k: u.record('union', 'UA', [u.field('x', BASE[0]), u.field('p', p(tag('union', 'UA')))]) if 'UA' not in u.env.defs else None,
    lambda u, k: u.func('fd%d' % k, BASE[0], [('a', BASE[0], None)], '', '{ struct A *local; struct LL { int x; } ll; return a; }'),
    lambda u, k: u.add('enum FE;', u.env.declare(N('enum', 'FE'))),
    lambda u, k: u.enum('FE', [('fa', None)]) if 'FE' not in u.env.defs else None,
    lambda u, k: u.add('enum FE *fe%d;' % k, *([] if 'FE' in u.env.d else [u.env.declare(N('enum', 'FE'))]), N('field', 'fe%d' % k, 'extern_c static', 0, exp(u.env, p(tag('enum', 'FE'))))),
]


def sn_b(u, k):
    """a structure that holds a pointer to A and itself"""
    if 'BB' in u.env.defs: return
    ms = []
    if 'A' in u.env.d: ms.append(u.field('a', p(tag('struct', 'A'))))
    else:
        n = u.env.declare(N('struct', 'A'))
        ms.append(('struct A *a;', [n] + u.field('a', p(tag('struct', 'A')))[1]))
    ms.append(u.field('b', p(tag('struct', 'BB'))))
    u.record('struct', 'BB', ms)


def sn_anon(u, k):
    n = N('struct', ''); n.kids = u.field('x', BASE[0])[1]
    r = Ref([n]); r.name = ''
    u.add('struct { int x; } an%d, *ap%d;' % (k, k), n, N('field', 'an%d' % k, 'extern_c static', 0, r), N('field', 'ap%d' % k, 'extern_c static', 0, N('pointer', '*', '', 64, r)))


def sn_nest(u, k):
    """A defined inside another structure"""
    if 'A' in u.env.defs or 'O' in u.env.defs: return
    n = u.env.declare(N('struct', 'A'), True); n.kids = u.field('deep', BASE[7])[1]
    u.record('struct', 'O', [('struct A { long deep; } in;', [n] + u.field('in', tag('struct', 'A'))[1])])


def sn_implicit(u, k):
    nm = 'IM%d' % k
    n = u.env.declare(N('struct', nm))
    u.add('struct %s *im%d(void);' % (nm, k), n, N('function', 'im%d' % k, 'global extern_c', kids=[N('param', '', 'out', 0, exp(u.env, p(tag('struct', nm))))]))


def e_orders(th):
    m = len(SN)
    for n in range(0, 4):
        for s in itertools.product(range(m), repeat=n):
            if n == 3 and not th and 12 <= max(s) < 18: continue
            if n == 3 and not th and hash_(s) % 3: continue
            u = Unit()
            for k, x in enumerate(s): SN[x](u, k)
            yield 'order ' + '.'.join(map(str, s)), u


def va_tag():
    return N('struct', '__va_list_tag', kids=[N('field', 'gp_offset', '', 0, B['uint']), N('field', 'fp_offset', '', 0, B['uint']),
                                              N('field', 'overflow_arg_area', '', 0, N('pointer', '*void', '', 64, B['void'])),
                                              N('field', 'reg_save_area', '', 0, N('pointer', '*void', '', 64, B['void']))])


def e_scopes(th):
    """types that no list of declarations holds: declared in parameter lists, or by the compiler; atomic, deduced and typeof types"""
    I, C, S = BASE[0], BASE[1], tag('struct', 'S')
    F = lambda u, n, t: u.field(n, t)[1]
    # ways to declare a tag in a parameter list: text, node with its members
    def t_struct(u, n): return 'struct %s { int x; char y; }' % n, N('struct', n, kids=F(u, 'x', I) + F(u, 'y', C))
    def t_union(u, n): return 'union %s { S_ a; int b[2]; }'.replace('S_', 'struct S') % n, N('union', n, kids=F(u, 'a', S) + F(u, 'b', a(2, I)))
    def t_empty(u, n): return 'struct %s { }' % n, N('struct', n)
    def t_enum(u, n): return 'enum %s { %sa, %sb = 9 }' % (n, n, n), N('enum', n, '', 32, kids=[N('constant', n + 'a', '', 0, B['uint']), N('constant', n + 'b', '', 9, B['uint'])])
    def t_fwd(u, n): return 'struct %s' % n, N('struct', n)
    def t_ufwd(u, n): return 'union %s' % n, N('union', n)
    def t_self(u, n):
        m = N('struct', n); m.kids = F(u, 'n', p(('O', 'struct ' + n, m))) + F(u, 'v', I)
        return 'struct %s { struct %s *n; int v; }' % (n, n), m
    def t_bits(u, n):
        return 'struct %s { unsigned a : 3; int : 0; int b : 5; }' % n, N('struct', n, kids=u.field('a', BASE[6], 3)[1] + u.field('', I, 0)[1] + u.field('b', I, 5)[1])
    def t_attr(u, n):
        return 'struct __attribute__((annotate("p"))) %s { int x; }' % n, N('struct', n, kids=F(u, 'x', I), attrs=[av('annotate', 'p')])
    def t_nest(u, n):
        m = N('struct', n + 'in', kids=F(u, 'd', BASE[15])); w = ('O', 'struct %sin { double d; }' % n, m)
        e = N('enum', n + 'ne', '', 32, kids=[N('constant', n + 'k', '', 3, B['uint'])])
        return 'struct %s { struct %sin { double d; } i; enum %sne { %sk = 3 } e; struct %sin *p; }' % (n, n, n, n, n), N('struct', n, kids=F(u, 'i', w) + F(u, 'e', ('O', '', e)) + F(u, 'p', p(w)))
    TK = [t_struct, t_union, t_empty, t_enum, t_fwd, t_ufwd, t_self, t_bits, t_attr, t_nest]
    # and to use it there
    USE = [lambda t: t, lambda t: p(t), lambda t: p(p(t)), lambda t: p(q('const', t)), lambda t: p(a(3, t)), lambda t: q('const', t)]
    def fwd(k): return TK[k] in (t_fwd, t_ufwd)
    def g():
        for k in range(len(TK)):
            for x, use in enumerate(USE):
                if fwd(k) and x not in (1, 2, 3): continue
                for body in (None, '{ for (;;) ; }'):
                    for again in (0, 1, 2):
                        def f(u, i, k=k, use=use, body=body, again=again):
                            txt, n = TK[k](u, 'P%d' % i)
                            o = ('O', txt, n)
                            short = ('O', txt.split('{')[0].replace('__attribute__((annotate("p"))) ', '').strip(), n)
                            ps = [('p', use(o), None)]
                            if again == 1: ps.append(('q', p(short), None))
                            if again == 2: ps = [('a', I, None)] + ps + [('z', S, None)]
                            u.func('f%d' % i, I, ps, '', body)
                            # the name means another type outside
                            if again:
                                u.record('struct' if 'enum' not in txt else 'union', 'P%d' % i, [u.field('other', C)])
                                u.var('v%d' % i, p(tag('struct' if 'enum' not in txt else 'union', 'P%d' % i)), 'extern')
                            else: u.var('v%d' % i, I, 'extern')
                        yield f
        for j in range(len(TK)):
            for k in range(len(TK)):
                def f2(u, i, j=j, k=k):
                    x, y = TK[j](u, 'X%d' % i), TK[k](u, 'Y%d' % i)
                    u.func('f%d' % i, p(S), [('p', p(('O',) + x), None), ('q', p(('O',) + y), None)])
                    x2 = TK[j](u, 'X%d' % i) if j != 3 else TK[0](u, 'X%d' % i)
                    u.func('g%d' % i, p(S), [('p', p(('O',) + x2), None)])
                yield f2
        # the compiler's va_list: one structure in a unit, of its own
        for t in BASE + [tag('struct', 'S'), tag('union', 'U'), tag('enum', 'E'), p(I), p(p(C)), p(q('const', I)), p(fn(I, [C])), td('T', I), td('TP', p(S)), td('TT', td('T', I)), td('TS', S)]:
            def f3(u, i, t=t):
                at_ = ('A', t)
                u.var('v%d' % i, at_, 'extern'); u.var('w%d' % i, p(at_), 'extern'); u.var('x%d' % i, a(3, at_), 'extern')
                u.var('c%d' % i, q('const', at_), 'extern'); u.var('d%d' % i, q('volatile', p(q('const volatile', at_))), 'extern')
                u.typedef('t%d' % i, at_); u.record('struct', 'R%d' % i, [u.field('m', at_), u.field('n', p(at_))])
                u.func('f%d' % i, p(at_), [('p', at_, None), ('q', p(at_), None)])
            yield f3
            def f4(u, i, t=t):
                y = ('Y', t)
                u.var('v%d' % i, y, 'extern'); u.var('w%d' % i, p(y), 'extern'); u.var('x%d' % i, a(2, ('Y', p(t))), 'extern')
                u.var('y%d' % i, ('Y', a(4, t)), 'extern'); u.var('c%d' % i, q('const', ('Y', q('volatile', t))), 'extern')
                u.add('extern __typeof__(v%d) z%d;' % (i, i), N('field', 'z%d' % i, 'extern_c static', 0, exp(u.env, t)))
                u.func('f%d' % i, y, [('p', ('Y', p(t)), None)])
            yield f4
            if bare(t)[0] != 'r':
                def f5(u, i, t=t):
                    for st, pr in (('', 'extern_c static'), ('static', 'static'), ('const', 'extern_c static'), ('volatile const', 'extern_c static')):
                        qs = ' '.join(w for w in st.split() if w != 'static')
                        e = exp(u.env, q(qs, t) if qs else t)
                        n = st.replace(' ', '')
                        u.add('%s __auto_type %s%d = (%s)0;' % (st, n + '_', i, decl(t)), N('field', '%s_%d' % (n, i), pr, 0, e))
                    u.add('__auto_type pp%d = (%s)0;' % (i, decl(p(t))), N('field', 'pp%d' % i, 'extern_c static', 0, exp(u.env, p(t))))
                yield f5
    yield from batches('scopes', g(), 40)
    for x in itertools.product(range(8), repeat=3 if th else 2):
        u = Unit()
        v = va_tag()
        VL = ('O', '__builtin_va_list', v)
        L = lambda: N('array', '[1]__va_list_tag', '', 1, Own(v))
        for k, y in enumerate(x):
            if y == 0: u.add('__builtin_va_list v%d;' % k, N('field', 'v%d' % k, 'extern_c static', 0, L()))
            if y == 1: u.add('typedef __builtin_va_list va%d; va%d w%d;' % (k, k, k), N('typedef', 'va%d' % k, '', 0, L()), N('field', 'w%d' % k, 'extern_c static', 0, L()))
            if y == 2: u.add('struct s%d { __builtin_va_list l; int x; };' % k, N('struct', 's%d' % k, kids=[N('field', 'l', '', 0, L()), N('field', 'x', '', 0, B['int'])]))
            if y == 3: u.add('int f%d(const char *f, __builtin_va_list l);' % k, N('function', 'f%d' % k, 'global extern_c', kids=[N('param', '', 'out', 0, B['int']),
                             N('param', 'f', '', 0, exp(u.env, p(q('const', C)))), N('param', 'l', '', 0, L())]))
            if y == 4: u.add('extern __builtin_va_list *p%d;' % k, N('field', 'p%d' % k, 'extern_c static', 0, N('pointer', '*[1]__va_list_tag', '', 64, L())))
            if y == 5: u.add('__builtin_va_list a%d[2];' % k, N('field', 'a%d' % k, 'extern_c static', 0, N('array', '[2][1]__va_list_tag', '', 2, L())))
            if y == 6: u.var('i%d' % k, I)
            if y == 7:
                n = N('struct', 'q%d' % k, kids=[N('field', 'l', '', 0, L())])
                u.add('int g%d(struct q%d { __builtin_va_list l; } *p);' % (k, k), N('function', 'g%d' % k, 'global extern_c', kids=[N('param', '', 'out', 0, B['int']),
                      N('param', 'p', '', 0, N('pointer', '*q%d' % k, '', 64, Own(n)))]))
        yield 'va_list ' + '.'.join(map(str, x)), u


def e_sizes(th):
    for n in (1, 2, 9, 10, 11, 20, 40, 100, 500) + ((5000,) if th else (2000,)):
        u = Unit()
        for i in range(n):
            u.var('some_long_variable_name_%d' % i, (BASE[0], p(BASE[1]), a(i + 1, BASE[4]))[i % 3], 'extern')
        yield 'size %d' % n, u
    for L in (1, 30, 31, 32, 63, 64, 255, 256, 1000, 1024, 5000, 70000):
        u = Unit()
        u.record('struct', 'N' * L, [u.field('m' * L, BASE[0])])
        u.var('v' * L, p(tag('struct', 'N' * L)), 'extern')
        u.func('f' * L, BASE[0], [('p' * L, p(p(tag('struct', 'N' * L))), None)])
        yield 'name length %d' % L, u
    for d in (1, 5, 20, 50, 200):
        u = Unit()
        t = BASE[0]
        for i in range(d): t = p(t)
        u.var('v', t)
        t = BASE[0]
        for i in range(min(d, 50)): t = a(1, p(t))
        u.var('w', t, 'extern')
        yield 'depth %d' % d, u
    # element counts
    for k in list(range(1, 58)):
        u = Unit()
        for i, n in enumerate(sorted({(1 << k) - 1, 1 << k, (1 << k) + 1})):
            u.var('v%d' % i, a(n, BASE[1]), 'extern')
            u.typedef('t%d' % i, p(a(n, BASE[1])))
            u.record('struct', 'S%d' % i, [u.field('f', a(n, BASE[1])), u.field('g', BASE[0])])
            if k < 28: u.var('w%d' % i, a(n, a(n, BASE[1])), 'extern')
        yield 'count %d' % k, u
    # more than 2^16 of everything
    for n in (32768, 65535, 65536, 65537, 70001):
        u = Unit()
        u.enum('E', [('c%d' % i, None) for i in range(n)])
        u.var('after', BASE[0])
        yield 'many constants %d' % n, u
        u = Unit()
        u.record('struct', 'S', [u.field('f%d' % i, BASE[i % 3]) for i in range(n)])
        u.var('after', tag('struct', 'S'))
        yield 'many fields %d' % n, u
        u = Unit()
        for i in range(n): u.var('v%d' % i, BASE[i % 3], 'extern')
        u.record('struct', 'S', [u.field('f', BASE[0])])
        yield 'many variables %d' % n, u
        u = Unit()
        for i in range(n // 2):
            u.typedef('t%d' % i, p(BASE[i % 3]))
        u.var('after', p(a(n, BASE[1])))
        yield 'many types %d' % n, u
        # clang itself keeps the count of parameters in 16 bits
        u = Unit()
        u.func('f', BASE[0], [('p%d' % i, BASE[i % 3], None) for i in range(min(n, 60000))])
        u.var('after', BASE[1])
        yield 'many parameters %d' % n, u
    # nesting of definitions
    for d in range(1, 30 if not th else 100):
        u = Unit()
        def build(k):
            n = u.env.declare(N('struct', 'D%d' % k), True)
            if k == d: n.kids = u.field('x', BASE[0])[1]; return 'struct D%d { int x; }' % k, n
            t, c = build(k + 1)
            n.kids = [c] + u.field('m', tag('struct', 'D%d' % (k + 1)))[1] + u.field('y', BASE[0])[1]
            return 'struct D%d { %s m; int y; }' % (k, t), n
        t, n = build(0)
        u.add(t + ';', n)
        u.var('after', tag('struct', 'D%d' % d), 'extern')
        yield 'nesting %d' % d, u


def e_odd(th):
    """tags declared in expressions and casts, old style definitions, repeated and empty declarations"""
    I, C = BASE[0], BASE[1]
    V = lambda n, t, pr='extern_c static': N('field', n, pr, 0, t)
    def st(u, n, *kids): return u.env.declare(N('struct', n, kids=[x for k in kids for x in k]), True)
    F = lambda u, n, t: u.field(n, t)[1]
    def fun(n, pr, *ps): return N('function', n, pr, kids=[N('param', '', 'out', 0, B['int'])] + list(ps))
    def o_size(u, k): u.add('int a%d[sizeof(struct Z%d { int q; })];' % (k, k), st(u, 'Z%d' % k, F(u, 'q', I)), V('a%d' % k, exp(u.env, a(4, I))))
    def o_typeof(u, k): u.add('__typeof__(struct TY%d { long t; }) ty%d, *tz%d;' % (k, k, k), st(u, 'TY%d' % k, F(u, 't', BASE[7])), V('ty%d' % k, exp(u.env, tag('struct', 'TY%d' % k))),
                              V('tz%d' % k, exp(u.env, p(tag('struct', 'TY%d' % k)))))
    def o_enum(u, k):
        n = u.env.declare(N('enum', 'EE%d' % k, '', 32), True)
        n.kids = [st(u, 'EZ%d' % k, F(u, 'q', I)), N('constant', 'ea%d' % k, '', 4, B['uint']), N('constant', 'eb%d' % k, '', 5, B['uint'])]
        u.add('enum EE%d { ea%d = sizeof(struct EZ%d { int q; }), eb%d };' % (k, k, k, k), n)
    def o_assert(u, k): u.add('_Static_assert(sizeof(struct SA%d { int q; }) == 4, "");' % k, st(u, 'SA%d' % k, F(u, 'q', I)))
    def o_init(u, k): u.add('int ini%d = sizeof(struct IN%d { int x; char y; });' % (k, k), V('ini%d' % k, B['int']), st(u, 'IN%d' % k, F(u, 'x', I), F(u, 'y', C)))
    def o_cast(u, k): u.add('void *ca%d = (struct CA%d { int x; } *)0;' % (k, k), V('ca%d' % k, exp(u.env, p(VOID))), st(u, 'CA%d' % k, F(u, 'x', I)))
    def o_lit(u, k): u.add('int li%d[2] = { [1] = (struct LI%d { int a; }){ 3 }.a };' % (k, k), V('li%d' % k, exp(u.env, a(2, I))), st(u, 'LI%d' % k, F(u, 'a', I)))
    def o_asm(u, k): u.add('__asm__("nop");;')
    def o_kr(u, k): u.add('int kr%d(a, b) int a; char *b; { return a; }' % k, fun('kr%d' % k, 'global extern_c', N('param', 'a', '', 0, B['int']), N('param', 'b', '', 0, exp(u.env, p(C)))))
    def o_krs(u, k):
        n = st(u, 'KP%d' % k, F(u, 'x', I))
        u.add('int ks%d(p) struct KP%d { int x; } *p; { return p->x; }' % (k, k), n, fun('ks%d' % k, 'global extern_c', N('param', 'p', '', 0, exp(u.env, p(tag('struct', 'KP%d' % k))))))
    def o_bits(u, k):
        n = u.env.declare(N('struct', 'BF%d' % k), True)
        n.kids = [st(u, 'BW%d' % k, F(u, 'c', C))] + u.field('b', I, 1)[1] + [st(u, 'BX%d' % k, F(u, 's', BASE[4]))] + F(u, 'arr', a(2, I))
        u.add('struct BF%d { int b : sizeof(struct BW%d { char c; }); int arr[sizeof(struct BX%d { short s; })]; };' % (k, k, k), n)
    def o_again(u, k): u.add('extern int r; extern int r; int r; int r;', *[V('r', B['int']) for j in range(4)])
    def o_tdself(u, k):
        a1 = u.env.declare(N('struct', 'TD%d' % k))
        n = u.env.declare(N('struct', 'TD%d' % k), True); n.kids = F(u, 'n', p(tag('struct', 'TD%d' % k)))
        u.add('typedef struct TD%d TD%d; struct TD%d { TD%d *n; };' % (k, k, k, k), a1, N('typedef', 'TD%d' % k, '', 0, exp(u.env, tag('struct', 'TD%d' % k))), n)
    def o_static(u, k): u.add('static int sf%d(void); static int sf%d(void) { return 0; } int np%d();' % (k, k, k), fun('sf%d' % k, 'static'), fun('sf%d' % k, 'static'), fun('np%d' % k, 'global extern_c'))
    def o_paren(u, k): u.add('int (pf%d)(int x), (pv%d), (*(pp%d)), (pa%d)[2];' % (k, k, k, k), fun('pf%d' % k, 'global extern_c', N('param', 'x', '', 0, B['int'])), V('pv%d' % k, B['int']),
                             V('pp%d' % k, exp(u.env, p(I))), V('pa%d' % k, exp(u.env, a(2, I))))
    def o_fpv(u, k): u.add('int (*fp%d)(struct FP%d { int z; } *);' % (k, k), st(u, 'FP%d' % k, F(u, 'z', I)), V('fp%d' % k, exp(u.env, p(VOID))))
    def o_nested(u, k):
        n = st(u, 'NO%d' % k, [st(u, 'NI%d' % k, [st(u, 'NJ%d' % k, F(u, 'j', C))], F(u, 'm', tag('struct', 'NJ%d' % k)))], F(u, 'q', p(tag('struct', 'NI%d' % k))))
        u.add('int ns%d = sizeof(struct NO%d { struct NI%d { struct NJ%d { char j; } m; } *q; });' % (k, k, k, k), V('ns%d' % k, B['int']), n)
    def o_use(u, k):
        for w in ('Z', 'TY', 'SA', 'IN', 'CA', 'LI', 'NJ', 'BX'):
            if w + '0' in u.env.defs and k: u.var('u%s%d' % (w, k), tag('struct', w + '0'), 'extern')
        u.add('extern int eu%d;' % k, V('eu%d' % k, B['int']))
    def o_inh(u, k):
        # a block of declarations in the middle of a list of declarators
        u.add('struct DL%d { int x; } d1%d, *d2%d, d3%d[2], d4%d(void);' % (k, k, k, k, k), st(u, 'DL%d' % k, F(u, 'x', I)), V('d1%d' % k, exp(u.env, tag('struct', 'DL%d' % k))), V('d2%d' % k, exp(u.env, p(tag('struct', 'DL%d' % k)))),
              V('d3%d' % k, exp(u.env, a(2, tag('struct', 'DL%d' % k)))), N('function', 'd4%d' % k, 'global extern_c', kids=[N('param', '', 'out', 0, exp(u.env, tag('struct', 'DL%d' % k)))]))
    O = [o_size, o_typeof, o_enum, o_assert, o_init, o_cast, o_lit, o_asm, o_kr, o_krs, o_bits, o_again, o_tdself, o_static, o_paren, o_fpv, o_nested, o_use, o_inh]
    for n in range(1, 4 if th else 3):
        for s in itertools.product(range(len(O)), repeat=n):
            u = Unit()
            for k, x in enumerate(s): O[x](u, k)
            if n == 3 and O[s[2]] is not o_use and hash_(s) % 4: continue
            yield 'odd ' + '.'.join(map(str, s)), u


def units(th):
    for g in (e_types, e_members, e_enums, e_attrs, e_funcs, e_orders, e_scopes, e_odd, e_sizes):
        yield from g(th)


# ---------------------------------------------------------------- run
DEBUG = ['-Xclang', '-plugin-arg-crefl', '-Xclang', '-debug']


def run(r):
    if r.only_unit and r.only_unit != 'plugin':
        return
    so = r.build.plugin()
    d = r.scratch('plug')
    env = dict(os.environ, LC_ALL='C.UTF-8')

    def one(job):
        k, (name, u) = job
        if bad > 20: return name, 0, 0, None, ''
        fname = 'u%d.h' % k
        src = os.path.join(d, fname)
        text = '\n'.join(u.c) + '\n'
        open(src, 'w').write(text)
        outs = []
        err = None
        for again in range(2 if k % 3 == 0 else 1):
            out = os.path.join(d, 'o%d.%d' % (k, again))
            try:
                x = subprocess.run(plugin_cmd(so, src, out, ['-mavx512fp16', '-Wno-everything', '-x', 'c', '-std=gnu11'] + (DEBUG if again else [])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=120)
            except subprocess.TimeoutExpired:
                err = 'the compiler does not end'
                break
            e = x.stderr.decode(errors='replace')
            if x.returncode or (not again and 'error:' in e):
                if 'error:' in e and 'Stack dump' not in e and 'writing db' not in e:
                    err = ('unit', e[:600])
                else:
                    err = 'the compiler fails (%d): %s' % (x.returncode, e[:300])
                break
            outs.append(open(out, 'rb').read() if os.path.exists(out) else b'')
            if os.path.exists(out): os.unlink(out)
        if err is None:
            if len(outs) == 2 and outs[0] != outs[1]: err = 'a second run, with debug output, gives different bytes'
            else: err = compare(outs[0], u.source(fname))
        if err:
            # a unit the compiler itself rejects is a mistake of the generator (the plug-in keeps diagnostics to itself)
            x = subprocess.run(['/opt/llvm/bin/clang', '-fsyntax-only', '-w', '-mavx512fp16', '-x', 'c', '-std=gnu11', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d)
            if x.returncode: err = ('unit', x.stderr.decode(errors='replace')[:600])
        os.unlink(src)
        return name, len(outs), len(u.top), err, text

    bad = 0
    with ThreadPoolExecutor(r.ncpu) as ex:
        jobs = ((k, x) for k, x in enumerate(units(r.thorough)) if not r.only or r.only == x[0])
        pend = []
        def take(f):
            nonlocal bad
            name, runs, n, err, text = f.result()
            r.add('traces', runs); r.add('states', n); r.add('transitions', n * runs)
            if len(r.samples) < 6 and hash_(name) % 50 == 0: r.sample('plugin: %s: %s' % (name, text.replace('\n', ' ')[:160]))
            if isinstance(err, tuple):
                raise RuntimeError('the compiler does not accept %s: %s' % (name, err[1]))
            if err:
                bad += 10 if 'does not end' in err else 1
                if bad <= 60: r.violation('plugin', name, err + (' -- ' + text.replace('\n', ' ') if len(text) < 400 else ''))
        for j in jobs:
            if bad > 20: break
            pend.append(ex.submit(one, j))
            if len(pend) > 64: take(pend.pop(0))
        for f in pend: take(f)
    r.units.append(dict(unit='plugin', flavor='plugin in clang 14'))
