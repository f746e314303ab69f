"""P32: sources that the compiler rejects, or that use what the model has no words for, through the plug-in

Every single-token edit of a pool of units: the plug-in ends without a signal, writes one image that an independent reader and
the tool accept, the same each time, and what stands before the edited unit is described as if the rest were not there."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from refl import Image, Bad, N, TAGS, TAG, FIRST, BUILTIN
from layoutrun import plugin_cmd

UNITS = [
    'struct S { int x ; char y [ 3 ] ; struct S * n ; } ; struct S v ;',
    'enum E { A , B = 5 , C = - 1 } ; enum E e ; enum FE ; enum FE * pe ;',
    'typedef struct { int a : 3 ; unsigned b : 5 ; int : 0 ; } T ; T t , * pt ;',
    'int f ( int a , const char * b , struct P { int q ; struct P * r ; } * p ) ; int g ( void ) { return 1 ; }',
    'union U { int i ; struct { long l ; double d ; } ; } ; union U u [ 2 ] [ 3 ] ;',
    'typedef int ( * F ) ( struct L * , ... ) ; struct L { F f ; } ;',
    'int a [ sizeof ( struct Z { int q ; } ) ] __attribute__ ( ( aligned ( 8 ) , annotate ( "x" ) ) ) ;',
    'extern _Atomic ( int ) at ; __typeof__ ( at ) aq ; __auto_type z = 1 ; static const volatile int * p ;',
    '_Static_assert ( 1 , "x" ) ; __asm__ ( "nop" ) ; ; int k ( a , b ) int a ; char b ; { }',
    'int h ( __builtin_va_list l ) ; struct V { int m ; struct W { struct V * v ; int n ; } w ; int fl [ ] ; } ;',
    'typedef int v4 __attribute__ ( ( vector_size ( 16 ) ) ) ; v4 x , * px ; struct X { v4 m ; v4 a [ 2 ] ; } ; v4 fv ( v4 p ) ;',
    '_Complex int ci ; _BitInt ( 7 ) bi ; unsigned _BitInt ( 100 ) bu ; struct Y { _Complex int c ; _BitInt ( 9 ) b ; } ;',
    'void n ( int k , int m [ k ] [ k + 1 ] ) ; int ( * q ( void ) ) [ 3 ] ; void ( * s ( int , void ( * ) ( int ) ) ) ( int ) ;',
]
# the same in C++, which the plug-in also accepts: classes, references, templates, members
CPP = [
    'class A { public : int x ; A * a ; static int s ; int f ( int ) ; } ; A v ;',
    'namespace N { struct S { int x ; } ; } N :: S v ; using N :: S ; int & r = v . x ;',
    'template < class T > struct P { T x ; P < T > * n ; } ; P < int > v ; template < class T > T f ( T t ) { return t ; }',
    'struct B { virtual ~ B ( ) ; B ( int ) ; operator int ( ) ; int b : 3 ; } ; struct D : B { using B :: b ; } ;',
    'class G { int a ; friend int g ( G * p ) { return 0 ; } struct H { friend void h ( ) ; int b ; } c ; int d ; } ; int z ;',
    'enum class E : short { a , b } ; E e ; typedef int B :: * M ; auto l = [ ] ( int x ) { return x ; } ;',
]
WORDS = ['struct', 'int', '(', '{', '}', '*', 'x', ';', '0', '[', ',', '__auto_type', '99999999999999999999', 'void']
BEFORE = 'struct before { int x; long y[2]; };\nextern struct before *before_v;\n'


def edits(unit, th):
    t = unit.split()
    out = [t]
    for i in range(len(t)):
        out += [t[:i] + t[i + 1:], t[:i], t[:i] + [t[i]] + t[i:]]
        if i + 1 < len(t): out.append(t[:i] + [t[i + 1], t[i]] + t[i + 2:])
        for k, w in enumerate(WORDS):
            if th or (i + k) % 3 == 0: out.append(t[:i] + [w] + t[i + 1:])
            if th: out.append(t[:i] + [w] + t[i:])
        if th:
            for j in range(i + 1, len(t)): out.append(t[:i] + t[i + 1:j] + t[j + 1:])
    seen = set()
    for x in out:
        s = ' '.join(x)
        if s not in seen:
            seen.add(s)
            yield s


def image(blob, fname):
    """reads everything an image holds; what BEFORE declares is there"""
    img = Image(blob)
    if img.n[FIRST][0] != TAG['source'] or img.n[FIRST][2] != fname:
        return 'the root is %s "%s"' % (TAGS[img.n[FIRST][0]], img.n[FIRST][2])
    seen = {}
    for i in img.n:
        tag, pr, nm, nx, lk, at, q = img.n[i]
        if not 0 < tag < len(TAGS): return 'declaration %d has kind %d' % (i, tag)
        if nx:
            if nx < FIRST: return 'declaration %d is followed by a builtin type' % i
            if nx in seen: return 'declaration %d follows %d and %d' % (nx, seen[nx], i)
            seen[nx] = i
        for a in img.chain(at) if at else []:
            if TAGS[img.n[a][0]] != 'attribute': return 'attribute %d is a %s' % (a, TAGS[img.n[a][0]])
        img.chain(i)
    top = img.chain(img.n[FIRST][4])
    def d(i): return img.n[i]
    s, v = d(top[0]), d(top[1])
    kids = img.chain(s[4])
    ok = (TAGS[s[0]], s[2]) == ('struct', 'before') and [d(k)[2] for k in kids] == ['x', 'y'] and d(kids[0])[4] == BUILTIN.index('int') \
        and d(d(kids[1])[4])[:1] + d(d(kids[1])[4])[4:5] + d(d(kids[1])[4])[6:] == (TAG['array'], BUILTIN.index('long'), 2) \
        and (TAGS[v[0]], v[2]) == ('field', 'before_v') and d(v[4])[0] == TAG['pointer'] and d(v[4])[4] == top[0]
    return None if ok else 'what stands before the edit is not described'


def run(r):
    unit = 'broken'
    so = r.build.plugin()
    tool = r.build.tool('crefltool', 'asan')
    d = r.scratch('broken')

    def one(job):
        k, cpp, text = job
        key = '%s%s' % ('c++ ' if cpp else '', text)
        f = 'b%d.%s' % (k, 'cc' if cpp else 'c')
        src, out = os.path.join(d, f), os.path.join(d, 'o%d' % k)
        open(src, 'w').write(BEFORE + text + '\n')
        cmd = plugin_cmd(so, src, out)
        if k % 3 == 1: cmd[-3:-3] = ['-Xclang', '-plugin-arg-crefl', '-Xclang', '-debug']
        if k % 3 == 2: cmd[-3:-3] = ['-Xclang', '-plugin-arg-crefl', '-Xclang', '-dump']
        err, blobs = None, []
        try:
            for again in range(2 if k % 8 == 0 else 1):
                try:
                    x = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env, cwd=d, timeout=40)
                except subprocess.TimeoutExpired:
                    return key, 'the compiler does not end'
                if x.returncode not in (0, 1):
                    return key, 'the compiler stops with %d: %s' % (x.returncode, x.stderr.decode(errors='replace')[-300:])
                if not os.path.exists(out):
                    return key, None if x.returncode else 'success and no output'
                blobs.append(open(out, 'rb').read())
            if blobs[0] != blobs[-1]: return key, 'two runs give different bytes'
            try:
                e = image(blobs[0], f)
            except Exception as x:
                e = 'the image is not sound: %r' % x
            if e: return key, e
            if k % 4 == 0:
                for mode in ('--dump', '--dump-all', '--dump-ext'):
                    x = subprocess.run([tool, mode, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env, cwd=d, timeout=40)
                    if x.returncode: return key, 'crefltool %s fails with %d: %s' % (mode, x.returncode, x.stderr.decode(errors='replace')[-300:])
        finally:
            for z in (src, out):
                if os.path.exists(z): os.unlink(z)
        return key, None

    jobs = [(False, x) for u in UNITS for x in edits(u, r.thorough)] + [(True, x) for u in CPP for x in edits(u, r.thorough)]
    jobs = [(k, c, x) for k, (c, x) in enumerate(jobs) if not r.only or r.only == ('c++ ' if c else '') + x]
    bad = 0
    with ThreadPoolExecutor(r.ncpu) as ex:
        for x in ex.map(lambda j: None if bad > 40 else one(j), jobs):
            if x is None: continue
            key, err = x
            r.add('traces'); r.add('states'); r.add('transitions')
            if len(r.samples) < 8 and len(key) % 17 == 0: r.sample('broken: ' + key[:150])
            if err:
                bad += 10 if 'does not end' in err else 1
                if bad <= 40: r.violation(unit, key, err)
    r.units.append(dict(unit=unit, sources=len(jobs)))
