"""P23, second part: enumerated C++ members and declarations through the compiler plug-in, compared with an independent model of the graph"""
import itertools, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from refl import N, Own, Ref, compare
from layoutrun import plugin_cmd
from plug import B, BASE, DEBUG, Env, Unit, a, b, exp, p, q, tag, hash_

I, C, L = BASE[0], BASE[1], BASE[7]


def F(n, t, pr='', qty=0): return N('field', n, pr, qty, t)
def fun(n, pr, ret, *ps): return N('function', n, pr, kids=[N('param', '', 'out', 0, ret)] + [N('param', x, '', 0, t) for x, t in ps])
def own(n):
    o = Own(n); o.name = n.name
    return o
def ref(n):
    r = Ref([n]); r.name = n.name
    return r
def ptr(t, name): return N('pointer', '*' + name, '', 64, t)
def const(t, name): return N('qualifier', 'const_' + name, 'const', 0, t)


# each gives the text of some members, what the list of the class holds, and what follows the class
def m_field(k): return 'int x%s;' % k, [F('x' + k, B['int'])]
def m_static(k): return 'static int s%s;' % k, [F('s' + k, B['int'], 'static')]
def m_method(k): return 'int f%s(int a, char *b);' % k, [fun('f' + k, '', B['int'], ('a', B['int']), ('b', ptr(B['byte'], 'byte')))]
def m_smethod(k): return 'static long g%s();' % k, [fun('g' + k, 'static global', B['long'])]
def m_nested(k):
    n = N('struct', 'In' + k, kids=[F('c', B['byte']), fun('m', '', B['void'])])
    return 'struct In%s { char c; void m(); } in%s;' % (k, k), [n, F('in' + k, ref(n))]
def m_enum(k): return 'enum E%s { a%s, b%s = 5 };' % (k, k, k), [N('enum', 'E' + k, '', 32, kids=[N('constant', 'a' + k, '', 0, B['uint']), N('constant', 'b' + k, '', 5, B['uint'])])]
def m_typedef(k): return 'typedef long T%s; T%s t%s;' % (k, k, k), [N('typedef', 'T' + k, '', 0, B['long']), F('t' + k, B['long'])]
def m_forward(k):
    n, d = N('struct', 'Fw' + k), N('struct', 'Fw' + k, kids=[F('v', B['int'])])
    return 'struct Fw%s; Fw%s *fp%s; struct Fw%s { int v; };' % (k, k, k, k), [n, F('fp' + k, ptr(ref(d), 'Fw' + k)), d]
def m_bits(k): return 'unsigned bf%s : 3; int : 0;' % k, [F('bf' + k, B['uint'], 'bitfield', 3), F('', B['int'], 'bitfield', 0)]
def m_access(k): return 'public: int pu%s; protected: private: char pr%s; public:' % (k, k), [F('pu' + k, B['int']), F('pr' + k, B['byte'])]
def m_inline(k): return 'int inl%s() const { struct Loc { int q; } l; return l.q; }' % k, [fun('inl' + k, 'inline', B['int'])]
def m_using(k): return 'using U%s = short; U%s u%s;' % (k, k, k), [F('u' + k, B['short'])]
def m_tmethod(k): return 'template <class X> int tm%s(X x);' % k, []
def m_friend(k): return 'friend struct Other%s; friend void ff%s(int z); friend class Base;' % (k, k), [], [fun('ff' + k, 'global', B['void'], ('z', B['int']))]
def m_friendbody(k): return 'friend int fb%s(int z) { struct Q { int y; }; return z; }' % k, [], [fun('fb' + k, 'global inline', B['int'], ('z', B['int']))]
def m_assert(k): return 'static_assert(sizeof(int) == 4, "");', []
def m_anon(k):
    n = N('union', '', kids=[F('ua' + k, B['int']), F('ub' + k, B['float'])])
    return 'union { int ua%s; float ub%s; };' % (k, k), [n, F('', ref(n))]
def m_special(k): return 'virtual void v%s(); operator int*(); bool operator%s(int o) const;' % (k, OPS[int(k[-1])]), \
    [fun('v' + k, '', B['void']), fun('operator int *', '', ptr(B['int'], 'int')), fun('operator' + OPS[int(k[-1])], '', B['bool'], ('o', B['int']))]
OPS = ['==', '<', '>', '!=', '<=']
def m_scoped(k): return 'enum class EC%s : unsigned char { p, q = 200 };' % k, [N('enum', 'EC' + k, '', 8, kids=[N('constant', 'p', '', 0, B['ubyte']), N('constant', 'q', '', 200, B['ubyte'])])]
def m_mutable(k): return 'mutable int mu%s; const int ci%s = 3;' % (k, k), [F('mu' + k, B['int']), F('ci' + k, const(B['int'], 'int'))]
def m_lambda(k): return 'int dl%s(int a = [](int z) { struct LL { int w; }; return z; }(3)); int di%s = [] { return 1; }();' % (k, k), [fun('dl' + k, '', B['int'], ('a', B['int'])), F('di' + k, B['int'])]
def m_constexpr(k): return 'static constexpr int kk%s = 3;' % k, [F('kk' + k, const(B['int'], 'int'), 'static')]
def m_template(k):
    n = N('struct', 'TM' + k, kids=[F('x', B['int']), F('n', ptr(B['void'], 'void'))])
    n.kids[1].link = ptr(own(n), 'TM' + k)
    return 'template <class X> struct TM%s { X x; TM%s *n; }; TM%s<int> ti%s;' % (k, k, k, k), [F('ti' + k, own(n))]
def m_class(k):
    d = N('struct', 'D', kids=[F('d', B['long'])])
    n = N('struct', 'NC' + k, kids=[F('q', B['int']), d, F('d', ref(d)), F('s', B['int'], 'static')])
    return 'class NC%s { int q; public: struct D { long d; } d; static int s; };' % k, [n]
def m_attr(k):
    f = F('at' + k, B['int']); f.attrs = [N('attribute', 'deprecated')]
    g = fun('an' + k, '', B['int']); g.attrs = [N('attribute', 'annotate'), N('attribute', 'warn_unused_result')]; g.attrs[0].link = N('value', 'w')
    return '[[deprecated]] int at%s; [[nodiscard]] __attribute__((annotate("w"))) int an%s();' % (k, k), [f, g]
def m_deepfriend(k):
    n = N('struct', 'Dp' + k, kids=[F('a', B['int']), N('struct', 'Dq', kids=[F('b', B['int']), F('c', B['byte'])]), F('d', B['long'])])
    return 'struct Dp%s { int a; struct Dq { int b; friend void df%s(); char c; }; friend int dg%s(); long d; };' % (k, k, k), [n], [fun('df' + k, 'global', B['void']), fun('dg' + k, 'global', B['int'])]
def m_arr(k): return 'int ar%s[3], *ap%s[2]; int (*fp%s)(int); int (*pa%s)[4];' % (k, k, k, k), [F('ar' + k, N('array', '[3]int', '', 3, B['int'])),
    F('ap' + k, N('array', '[2]*int', '', 2, ptr(B['int'], 'int'))), F('fp' + k, ptr(B['void'], 'void')), F('pa' + k, ptr(N('array', '[4]int', '', 4, B['int']), '[4]int'))]
def m_deleted(k): return 'void de%s(int) = delete; static void sd%s() = delete; int cv%s() const volatile noexcept;' % (k, k, k), \
    [fun('de' + k, 'inline', B['void'], ('', B['int'])), fun('sd' + k, 'static global inline', B['void']), fun('cv' + k, '', B['int'])]


MEMBERS = [m_field, m_static, m_method, m_smethod, m_nested, m_enum, m_typedef, m_forward, m_bits, m_access, m_inline, m_using, m_tmethod, m_friend, m_friendbody, m_assert, m_anon,
           m_special, m_scoped, m_mutable, m_lambda, m_constexpr, m_template, m_class, m_attr, m_arr, m_deleted, m_deepfriend]
UNIONS = [x for x in MEMBERS if x not in (m_static, m_special, m_constexpr, m_class, m_lambda, m_mutable)]


# the same for declarations of a unit or a namespace; x: extern "C" or not
def t_var(k): return 'int x%s;' % k, [F('x' + k, B['int'], 'static')]
def t_block(k):
    n = N('struct', 'CS' + k, kids=[F('x', B['int'])])
    return 'extern "C" { int c%s; struct CS%s { int x; }; int cf%s(struct CS%s *); }' % (k, k, k, k), [F('c' + k, B['int'], 'static extern_c'), n, fun('cf' + k, 'global extern_c', B['int'], ('', ptr(ref(n), 'CS' + k)))]
def t_externc(k): return 'extern "C" long e%s; extern "C" void ef%s(int);' % (k, k), [F('e' + k, B['long'], 'static extern_c'), fun('ef' + k, 'global extern_c', B['void'], ('', B['int']))]
def t_ns(k):
    n = N('struct', 'S' + k, kids=[F('q', B['int'])])
    return 'namespace n%s { int v%s; struct S%s { int q; }; void f%s(); typedef S%s T%s; } n%s::S%s w%s; using n%s::v%s;' % ((k,) * 11), \
        [F('v' + k, B['int'], 'static'), n, fun('f' + k, 'global', B['void']), N('typedef', 'T' + k, '', 0, ref(n)), F('w' + k, ref(n), 'static')]
def t_derived(k):
    n, d = N('struct', 'Ba' + k, kids=[F('a', B['int'])]), N('struct', 'De' + k, kids=[F('b', B['byte'])])
    return 'struct Ba%s { int a; }; class De%s : public Ba%s { char b; };' % (k, k, k), [n, d]
def t_outofline(k):
    n = N('struct', 'O' + k, kids=[fun('m', '', B['void']), F('s', B['int'], 'static'), F('z', B['int'])])
    return 'struct O%s { void m(); static int s; int z; }; void O%s::m() { struct Loc { int q; }; } int O%s::s = 3;' % (k, k, k), [n, fun('m', '', B['void']), F('s', B['int'], 'static')]
def t_template(k):
    n = N('struct', 'TT' + k, kids=[F('t', B['byte'])])
    return 'template <class T> struct TT%s { T t; }; TT%s<char> tv%s, *tp%s; template <class T> T tf%s(T t) { return t; }' % ((k,) * 5), [F('tv' + k, own(n), 'static'), F('tp' + k, ptr(own(n), 'TT' + k), 'static')]
def t_inlinens(k): return 'inline namespace v%s { namespace w%s { int iz%s; } }' % (k, k, k), [F('iz' + k, B['int'], 'static')]
def t_anonns(k): return 'namespace { int hid%s; int hf%s(); }' % (k, k), [F('hid' + k, B['int'], 'static'), fun('hf' + k, '', B['int'])]
def t_enumfwd(k):
    x, d = N('enum', 'EF' + k, '', 16), N('enum', 'EF' + k, '', 16, kids=[N('constant', 'fa' + k, '', 0xffffffffffffffff, B['short'])])
    return 'enum EF%s : short; enum EF%s : short { fa%s = -1 }; EF%s ev%s;' % (k, k, k, k, k), [x, d, F('ev' + k, ref(d), 'static')]
def t_overload(k): return 'int ov%s(int a); long ov%s(long a = 3); static int os%s(); inline int oi%s() { return 1; } constexpr int oc%s() { return 1; }' % (k, k, k, k, k), \
    [fun('ov' + k, 'global', B['int'], ('a', B['int'])), fun('ov' + k, 'global', B['long'], ('a', B['long'])), fun('os' + k, 'static', B['int']), fun('oi' + k, 'global inline', B['int']), fun('oc' + k, 'global inline', B['int'])]
def t_storage(k): return 'static char sc%s; const int cc%s = 1; constexpr long cl%s = 2; inline int il%s = 4; thread_local int tl%s; extern int ex%s;' % (k, k, k, k, k, k), \
    [F('sc' + k, B['byte'], 'static'), F('cc' + k, const(B['int'], 'int'), 'static'), F('cl' + k, const(B['long'], 'long'), 'static'), F('il' + k, B['int'], 'static'), F('tl' + k, B['int']), F('ex' + k, B['int'], 'static')]
def t_auto(k): return 'auto au%s = 3; decltype(au%s) dt%s; auto at%s() -> int; const auto ca%s = 1L;' % (k, k, k, k, k), \
    [F('au' + k, B['int'], 'static'), F('dt' + k, B['int'], 'static'), fun('at' + k, 'global', B['int']), F('ca' + k, const(B['long'], 'long'), 'static')]
def t_body(k): return 'int bo%s(int z) { struct Loc { int q; } l; static int st; enum { LE }; extern int deep; return z; }' % k, [fun('bo' + k, 'global', B['int'], ('z', B['int']))]
def t_fwd(k):
    x, d = N('struct', 'Fd' + k), N('struct', 'Fd' + k)
    d.kids = [F('n', ptr(ref(d), 'Fd' + k))]
    return 'struct Fd%s; struct Fd%s *pf%s; struct Fd%s { Fd%s *n; };' % (k, k, k, k, k), [x, F('pf' + k, ptr(ref(d), 'Fd' + k), 'static'), d]
def t_ignored(k): return 'static_assert(1, ""); using namespace ::std; namespace al%s = ::std; using Al%s = int; ; asm("");' % (k, k), []
def t_friend(k):
    n = N('struct', 'Fr' + k, kids=[F('z', B['int'])])
    return 'class Fr%s { friend int fr%s(Fr%s *p) { return 0; } friend struct Later%s; int z; }; int fr%s(Fr%s *p);' % (k, k, k, k, k, k), [n, fun('fr' + k, 'global inline', B['int'], ('p', ptr(ref(n), 'Fr' + k))), fun('fr' + k, 'global inline', B['int'], ('p', ptr(ref(n), 'Fr' + k)))]
def t_noreturn(k):
    f = fun('nr' + k, 'global noreturn', B['void']); g = F('dp' + k, B['int'], 'static'); g.attrs = [N('attribute', 'deprecated'), N('attribute', 'unused')]
    return '[[noreturn]] void nr%s(); [[deprecated("x"), maybe_unused]] int dp%s;' % (k, k), [f, g]
def t_anonrec(k):
    n = N('struct', '', kids=[F('r', B['int'])])
    return 'struct { int r; } ar%s; ' % k, [n, F('ar' + k, ref(n), 'static')]
def t_spec(k):
    n = N('struct', 'Sp' + k, kids=[F('z', B['long'])])
    return 'template <class T> struct Sp%s { T t; }; template <> struct Sp%s<int> { long z; }; Sp%s<int> sv%s;' % (k, k, k, k), [n, F('sv' + k, ref(n), 'static')]

def t_outtempl(k):
    return 'template <class T> struct OT%s { void m(T); static int s; struct In; template <class U> U g(U); enum E : int; }; template <class T> void OT%s<T>::m(T) { struct Loc { int q; }; } template <class T> int OT%s<T>::s = 3; ' \
        'template <class T> struct OT%s<T>::In { int hid; }; template <class T> template <class U> U OT%s<T>::g(U u) { return u; } template <class T> enum OT%s<T>::E : int { ta, tb };' % ((k,) * 6), []
def t_templs(k):
    return '''template <class T> constexpr T vt%s = T(3); template <class T> using al%s = T *; template <class T> struct Fr%s { friend int frd%s(Fr%s *p) { return 0; } template <class U> friend int frt%s(U); };
        template <class... T> int pk%s(T... t); template <template <class> class X, int N = 3> struct tt%s { X<int> x; int a[N]; }; template <class T> struct ps%s { T t; }; template <class T> struct ps%s<T *> { T *p; struct In { int z; } in; }; template <class T> static inline int st%s(T t) { struct L { T t; } l{t}; return 0; }''' % ((k,) * 11), []
def t_explicit(k):
    return 'template <class T> int xf%s(T t) { struct L { int z; }; return 0; } template int xf%s<int>(int); extern template int xf%s<long>(long);' % (k, k, k), []


TOP = [t_var, t_block, t_externc, t_ns, t_derived, t_outofline, t_template, t_inlinens, t_anonns, t_enumfwd, t_overload, t_storage, t_auto, t_body, t_fwd, t_ignored, t_friend, t_noreturn, t_anonrec, t_spec, t_outtempl, t_templs, t_explicit]


def units(th):
    """(name, text, source kids)"""
    def cut(name, gen, size):
        k = 0
        while True:
            part = list(itertools.islice(gen, size))
            if not part: return
            yield '%s %d' % (name, k), 'class Base {}; namespace std {}\n' + '\n'.join(x[0] for x in part) + '\n', [N('struct', 'Base')] + [n for x in part for n in x[1]]
            k += 1

    def seqs(m, n3):
        for n in (0, 1, 2, 3):
            for s in itertools.product(range(m), repeat=n):
                if n == 3 and not th and hash_(s) % n3: continue
                yield s

    def classes(kw, ms):
        for j, s in enumerate(seqs(len(ms), 9)):
            parts = [ms[x]('%d_%d' % (j, k)) for k, x in enumerate(s)]
            if sum(ms[x] is m_special for x in s) > 1: continue
            name = '%s%d' % (kw[0].upper(), j)
            kids = [n for x in parts for n in x[1]]
            friends = [n for x in parts for n in x[2:] for n in n]
            x = N({'class': 'struct'}.get(kw, kw), name, kids=kids)
            how = j % 4
            extra, more = '', []
            if how == 1: extra, more = '%s(); %s(int); ~%s();' % (name, name, name), [fun(name, '', B['void']), fun(name, '', B['void'], ('', B['int'])), fun('~' + name, '', B['void'])]
            x.kids = kids + more
            text = '%s%s { %s %s};' % (kw + ' ', name, ''.join(y[0] + ' ' for y in parts), extra)
            after = F('v%d' % j, ptr(ref(x), name), 'static')
            tail = 'extern %s *v%d;' % (name, j)
            if how == 2:
                yield 'namespace q%d { %s %s }' % (j, text, tail), [x] + friends + [after]
            elif how == 3 and not any(ms[y] in (m_tmethod, m_template) for y in s):
                for n in friends + [after]: n.pr |= 1 << 14
                yield 'extern "C" { %s %s }' % (text, tail), [x] + friends + [after]
            else: yield text + ' ' + tail, [x] + friends + [after]

    def tops():
        for j, s in enumerate(seqs(len(TOP), 5)):
            parts = [TOP[x]('%d_%d' % (j, k)) for k, x in enumerate(s)]
            text = ' '.join(x[0] for x in parts)
            end = 'int end%d;' % j
            ns = [n for x in parts for n in x[1]] + [F('end%d' % j, B['int'], 'static')]
            yield ('namespace z%d { %s } %s' if j % 3 == 1 else '/* %d */ %s %s') % (j, text, end), ns

    yield from cut('class', classes('class', MEMBERS), 40)
    yield from cut('struct', classes('struct', MEMBERS), 40)
    yield from cut('union', classes('union', UNIONS), 40)
    yield from cut('top', tops(), 40)


def run(r):
    unit = 'c++'
    if r.only_unit and r.only_unit != unit:
        return
    so = r.build.plugin()
    d = r.scratch('cxx')

    def one(job):
        k, (name, text, kids) = job
        f = 'u%d.hpp' % k
        src, out = os.path.join(d, f), os.path.join(d, 'o%d' % k)
        open(src, 'w').write(text)
        s = N('source', f)
        s.kids = kids
        err, blobs = None, []
        for again in range(2 if k % 4 == 0 else 1):
            try:
                x = subprocess.run(plugin_cmd(so, src, out, ['-Wno-everything', '-x', 'c++', '-std=gnu++17'] + (DEBUG if again else [])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=120)
            except subprocess.TimeoutExpired:
                err = 'the compiler does not end'
                break
            if x.returncode or not os.path.exists(out):
                err = 'the compiler fails (%d): %s' % (x.returncode, x.stderr.decode(errors='replace')[:300])
                break
            blobs.append(open(out, 'rb').read())
        if err is None:
            err = 'a second run, with debug output, gives different bytes' if blobs[0] != blobs[-1] else compare(blobs[0], s)
        if err:
            x = subprocess.run(['/opt/llvm/bin/clang', '-fsyntax-only', '-w', '-x', 'c++', '-std=gnu++17', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
            if x.returncode: err = ('unit', x.stderr.decode(errors='replace')[:600])
        os.unlink(src)
        if os.path.exists(out): os.unlink(out)
        return name, len(blobs), len(kids), err

    bad = 0
    jobs = [(k, x) for k, x in enumerate(units(r.thorough)) if not r.only or r.only == x[0]]
    with ThreadPoolExecutor(r.ncpu) as ex:
        for x in ex.map(lambda j: None if bad > 20 else one(j), jobs):
            if x is None: continue
            name, runs, n, err = x
            r.add('traces', runs); r.add('states', n); r.add('transitions', n * runs)
            if isinstance(err, tuple):
                raise RuntimeError('the compiler does not accept %s: %s' % (name, err[1]))
            if err:
                bad += 10 if 'does not end' in err else 1
                if bad <= 40: r.violation(unit, name, err)
    r.units.append(dict(unit=unit, sources=len(jobs)))
