"""P31: sources through creflcc.py, crefltool --merge and --emit into a program that reads its own reflection at run time.

The program prints what it finds in the embedded data; what the C compiler says of the very same sources is printed by
probes compiled from them, and both must be the same text."""
import resource
import itertools, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

# a source: files it needs, and what it declares, in order
#   ('struct'|'union', tag, [(path, type text, 'i' integer | 'o' other)...])   members with the text of their reflected type
#   ('enum', tag, [names])    ('typedef', name, type text, C type)    ('var', name, type text)    ('fn', name, ret, [(name, type text)...])
COMMON = ('common.h', '''struct point { int x, y; };
enum color { red, green = 7, blue = -3 };
typedef unsigned long big;
int shared(struct point *p);
''')
COMMON_D = [('struct', 'point', [('x', 'intrinsic int', 'i'), ('y', 'intrinsic int', 'i')]),
            ('enum', 'color', ['red', 'green', 'blue']),
            ('typedef', 'big', 'intrinsic ulong', 'big'),
            ('fn', 'shared', 'intrinsic int', [('p', 'pointer *point')])]

SOURCES = [
    dict(file='one.c', inc=['inc'], text='''#include "common.h"
struct line { struct point a, b; char tag; unsigned w:3; int h:7; long double q; };
int area(struct point p, struct line *l) { struct hidden { int z; } h; h.z = p.x; return h.z; }
''', decls=COMMON_D + [('struct', 'line', [('a', 'struct point', 'o'), ('b', 'struct point', 'o'), ('tag', 'intrinsic byte', 'i'), ('w', 'intrinsic uint', 'i'), ('h', 'intrinsic int', 'i'), ('q', 'intrinsic quad', 'o')]),
                       ('fn', 'area', 'intrinsic int', [('p', 'struct point'), ('l', 'pointer *line')])]),
    dict(file='two.c', inc=['inc', 'inc2'], text='''#include "common.h"
#include "more.h"
union u { double d; struct point p; unsigned char raw[24]; };
typedef enum color color_t;
static color_t pick(union u *v, int n, ...) { return red; }
extern const volatile int count;
''', decls=COMMON_D + [('struct', 'node', [('next', 'pointer *node', 'o'), ('val', 'intrinsic long', 'i')]),
                       ('union', 'u', [('d', 'intrinsic double', 'o'), ('p', 'struct point', 'o'), ('raw', 'array [24]ubyte', 'o')]),
                       ('typedef', 'color_t', 'enum color', 'color_t'),
                       ('fn', 'pick', 'enum color', [('v', 'pointer *u'), ('n', 'intrinsic int')]),
                       ('var', 'count', 'qualifier const_volatile_int')]),
    dict(file='three.c', inc=[], text='''struct point { short x, y; };
struct box { struct point c[2][3]; struct box *in; struct { char k; double v; } s; } ;
struct box make(const char *name, const struct box *const b);
float scale = 1;
''', decls=[('struct', 'point', [('x', 'intrinsic short', 'i'), ('y', 'intrinsic short', 'i')]),
            ('struct', 'box', [('c', 'array [2][3]point', 'o'), ('in', 'pointer *box', 'o'), ('s', 'struct ', 'o')]),
            ('fn', 'make', 'struct box', [('name', 'pointer *const_byte'), ('b', 'qualifier const_*const_box')]),
            ('var', 'scale', 'intrinsic float')]),
    dict(file='sub/one.c', inc=['inc2'], text='''#include <more.h>
void visit(struct node *n, void (*f)(struct node *));
''', decls=[('struct', 'node', [('next', 'pointer *node', 'o'), ('val', 'intrinsic long', 'i')]),
            ('fn', 'visit', 'intrinsic void', [('n', 'pointer *node'), ('f', 'pointer *void')])]),
    dict(file='void.c', inc=[], text='\n', decls=[]),
    dict(file='five.c', inc=['inc', 'inc2'], text='''#include "common.h"
#include "more.h"
struct pk { char a; int b; struct point p; short t; };
enum huge { h0 = 1, h1 = 0x100000000 };
struct has { enum huge e; enum color c; big n; };
''', decls=COMMON_D + [('struct', 'node', [('next', 'pointer *node', 'o'), ('val', 'intrinsic long', 'i')]),
                       ('struct', 'pk', [('a', 'intrinsic byte', 'i'), ('b', 'intrinsic int', 'i'), ('p', 'struct point', 'o'), ('t', 'intrinsic short', 'i')]),
                       ('enum', 'huge', ['h0', 'h1']),
                       ('struct', 'has', [('e', 'enum huge', 'i'), ('c', 'enum color', 'i'), ('n', 'intrinsic ulong', 'i')])]),
    # the same header in every directory: their order on the command line decides, in no order of the names, and one named twice
    dict(file='zam.c', order=True, inc=['zinc', 'ainc', 'minc', 'zinc'], text='#include "pri.h"\n#include "last.h"\n',
         decls=[('struct', 'pri', [('z', 'intrinsic byte', 'i'), ('k', 'intrinsic int', 'i')]), ('struct', 'last', [('k', 'intrinsic int', 'i')])]),
    dict(file='maz.c', order=True, inc=['minc', 'ainc', 'zinc'], text='#include "pri.h"\n#include "last.h"\n',
         decls=[('struct', 'pri', [('m', 'intrinsic long', 'i')]), ('struct', 'last', [('k', 'intrinsic int', 'i')])]),
    dict(file='azm.c', order=True, inc=['ainc', 'zinc', 'minc', 'zinc'], text='#include "pri.h"\n',
         decls=[('struct', 'pri', [('a', 'intrinsic short', 'i'), ('d', 'intrinsic double', 'o')])]),
    # types that no list holds: the compiler's own, and one declared in a parameter list
    dict(file='six.c', inc=['inc2'], only_c=True, text='''#include "more.h"
struct va { int k; __builtin_va_list l; char e; _Atomic(short) at; };
int vp(const char *f, __builtin_va_list l);
void par(struct prm { struct node n; char r; } *p, int a[3]);
__typeof__(((struct node *)0)->val) tv;
''', decls=[('struct', 'node', [('next', 'pointer *node', 'o'), ('val', 'intrinsic long', 'i')]),
            ('struct', 'va', [('k', 'intrinsic int', 'i'), ('l', 'array [1]__va_list_tag', 'o'), ('e', 'intrinsic byte', 'i'), ('at', 'intrinsic short', 'o')]),
            ('fn', 'vp', 'intrinsic int', [('f', 'pointer *const_byte'), ('l', 'array [1]__va_list_tag')]),
            ('fn', 'par', 'intrinsic void', [('p', 'pointer *prm'), ('a', 'array [3]int')]),
            ('var', 'tv', 'intrinsic long')]),
]
HEADERS = {'inc/common.h': COMMON[1], 'inc2/more.h': 'struct node { struct node *next; long val; };\n',
           # the same name in a later directory must not be taken
           'inc2/common.h': 'struct point { double wrong; };\n',
           'zinc/pri.h': 'struct pri { char z; int k; };\n', 'ainc/pri.h': 'struct pri { short a; double d; };\n', 'minc/pri.h': 'struct pri { long m; };\n',
           'ainc/last.h': 'struct last { int k; };\n'}

READER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <crefl/model.h>
#include <crefl/db.h>
extern const unsigned char __crefl_main_data[];
extern const size_t __crefl_main_size;

static const char *text(decl_ref r)
{
    static char b[4][256]; static int n; char *s = b[n++ & 3];
    snprintf(s, 256, "%s %s", crefl_tag_name(crefl_decl_tag(r)), crefl_decl_has_name(r) ? crefl_decl_name(r) : "");
    return s;
}
static void decl(decl_ref r)
{
    size_t n = 0;
    if (crefl_is_alias(r)) r = crefl_decl_link(r);
    printf(" %s %s", crefl_tag_name(crefl_decl_tag(r)), crefl_decl_name(r));
    if (crefl_is_struct(r)) {
        printf(" width %zu\n", crefl_type_width(r));
        if (crefl_struct_fields_offsets(r, NULL, NULL, &n)) exit(3);
        decl_ref *f = calloc(n + 1, sizeof *f); size_t *o = calloc(n + 1, sizeof *o), m = 0;
        if (crefl_struct_fields_offsets(r, f, o, &n) || crefl_struct_fields(r, NULL, &m)) exit(3);
        for (size_t i = 0; i < m; i++) {
            decl_ref t = crefl_field_type(f[i]);
            printf("  %s : %s at %zu width %zu\n", crefl_decl_name(f[i]), text(t), o[i], (size_t)(crefl_decl_props(f[i]) & _decl_bitfield ? crefl_decl_qty(f[i]) : crefl_type_width(f[i])));
        }
        free(f); free(o);
    } else if (crefl_is_union(r)) {
        printf(" width %zu\n", crefl_type_width(r));
        if (crefl_union_fields(r, NULL, &n)) exit(3);
        decl_ref *f = calloc(n + 1, sizeof *f);
        if (crefl_union_fields(r, f, &n)) exit(3);
        for (size_t i = 0; i < n; i++) printf("  %s : %s at 0 width %zu\n", crefl_decl_name(f[i]), text(crefl_field_type(f[i])), crefl_type_width(f[i]));
        free(f);
    } else if (crefl_is_enum(r)) {
        printf(" width %zu\n", crefl_type_width(r));
        if (crefl_enum_constants(r, NULL, &n)) exit(3);
        decl_ref *f = calloc(n + 1, sizeof *f);
        if (crefl_enum_constants(r, f, &n)) exit(3);
        for (size_t i = 0; i < n; i++) printf("  %s = %lld\n", crefl_decl_name(f[i]), (long long)crefl_constant_value(f[i]).sx);
        free(f);
    } else if (crefl_is_typedef(r)) {
        printf(" : %s width %zu\n", text(crefl_typedef_type(r)), crefl_type_width(crefl_typedef_type(r)));
    } else if (crefl_is_function(r)) {
        if (crefl_function_params(r, NULL, &n)) exit(3);
        decl_ref *f = calloc(n + 1, sizeof *f);
        if (crefl_function_params(r, f, &n)) exit(3);
        for (size_t i = 0; i < n; i++) printf("%s%s%s%s", i == 0 ? " : " : i == 1 ? " ( " : ", ", text(crefl_param_type(f[i])), i ? " " : "", i ? crefl_decl_name(f[i]) : "");
        printf("\n");
        free(f);
    } else if (crefl_is_field(r)) {
        printf(" : %s\n", text(crefl_field_type(r)));
    } else printf("\n");
}
static void source(decl_ref s)
{
    size_t n = 0;
    printf("source %s\n", crefl_decl_name(s));
    if (crefl_source_decls(s, NULL, &n)) exit(4);
    decl_ref *d = calloc(n + 1, sizeof *d);
    if (crefl_source_decls(s, d, &n)) exit(4);
    for (size_t i = 0; i < n; i++) decl(d[i]);
    free(d);
}
int main()
{
    decl_db *db = crefl_db_new();
    if (crefl_db_read_mem(db, __crefl_main_data, __crefl_main_size)) return 2;
    decl_ref root = crefl_root(db);
    if (crefl_is_source(root)) source(root);
    else {
        size_t n = 0;
        printf("archive %s\n", crefl_decl_name(root));
        if (crefl_archive_sources(root, NULL, &n)) return 5;
        decl_ref *s = calloc(n + 1, sizeof *s);
        if (crefl_archive_sources(root, s, &n)) return 5;
        for (size_t i = 0; i < n; i++) source(s[i]);
        free(s);
    }
    crefl_db_destroy(db);
    return 0;
}
'''


def probe(s):
    """a program that prints what the compiler makes of a source, in the reader's words"""
    o = ['#include "%s"' % s['file'], '#include <stdio.h>', '#include <string.h>', '#include <stddef.h>', 'int main() {', ' printf("source %s\\n");' % os.path.basename(s['file'])]
    for d in s['decls']:
        k, n = d[0], d[1]
        if k in ('struct', 'union'):
            o.append(' { static %s %s v; unsigned char *b = (void*)&v; size_t i, f, w; printf(" %s %s width %%zu\\n", sizeof v * 8);' % (k, n, k, n))
            for m, t, how in d[2]:
                set_ = 'v.%s = -1' % m if how == 'i' else 'memset(&v.%s, 255, sizeof v.%s)' % (m, m)
                o.append('  memset(&v, 0, sizeof v); %s; for (i = f = w = 0; i < sizeof v * 8; i++) if (b[i / 8] >> i %% 8 & 1) { if (!w++) f = i; }' % set_)
                o.append('  printf("  %s : %s at %%zu width %%zu\\n", f, w);' % (m, t))
            o.append(' }')
        elif k == 'enum':
            o.append(' printf(" enum %s width %%zu\\n", sizeof(enum %s) * 8);' % (n, n))
            for c in d[2]:
                o.append(' printf("  %s = %%lld\\n", (long long)(enum %s)%s);' % (c, n, c))
        elif k == 'typedef':
            o.append(' printf(" typedef %s : %s width %%zu\\n", sizeof(%s) * 8);' % (n, d[2], d[3]))
        elif k == 'fn':
            a = ''.join((' ( ' if i == 0 else ', ') + '%s %s' % (t, p) for i, (p, t) in enumerate(d[3]))
            o.append(' printf(" function %s : %s%s\\n");' % (n, d[2], a))
        elif k == 'var':
            o.append(' printf(" field %s : %s\\n");' % (n, d[2]))
    o.append(' return 0; }')
    return '\n'.join(o) + '\n'


def run(r):
    unit = 'pipeline'
    if r.only_unit and r.only_unit != unit:
        return
    from check import CheckError
    d = r.scratch('pipe')
    with ThreadPoolExecutor(3) as ex:
        fp = ex.submit(r.build.plugin)
        ft = ex.submit(r.build.tool, 'crefltool', 'asan')
        fl = ex.submit(r.build.lib, 'opt')
        so, tool, lib = fp.result(), ft.result(), fl.result()
    ccpy = os.path.join(r.repo, 'scripts', 'creflcc.py')
    for h, t in HEADERS.items():
        os.makedirs(os.path.dirname(os.path.join(d, h)), exist_ok=True)
        open(os.path.join(d, h), 'w').write(t)
    os.makedirs(os.path.join(d, 'sub'), exist_ok=True)

    def sh(cmd, cwd=d, timeout=120):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(r.env, PYTHONDONTWRITEBYTECODE='1'), cwd=cwd, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return -99, '', 'no end'
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

    def must(cmd):
        rc, o, e = sh(cmd)
        if rc:
            raise CheckError('%s: %s' % (' '.join(cmd), e[:600]))
        return o

    def bad(key, text):
        if len(r.viol) < 40:
            r.violation(unit, key, text)

    open(os.path.join(d, 'reader.c'), 'w').write(READER)
    must(['gcc', '-w', '-O0', '-c', '-I', os.path.join(r.repo, 'include'), 'reader.c', '-o', 'reader.o'])

    # what the compilers say of each source
    def prepare(i):
        s = SOURCES[i]
        open(os.path.join(d, s['file']), 'w').write(s['text'])
        open(os.path.join(d, 'p%d.c' % i), 'w').write(probe(s))
        outs = []
        for cc in ('gcc', 'clang'):
            must([cc, '-w', '-O0'] + ['-I' + x for x in s['inc']] + ['-I.', 'p%d.c' % i, '-o', 'p%d.%s' % (i, cc), '-Wl,--unresolved-symbols=ignore-all'])
            outs.append(must([os.path.join(d, 'p%d.%s' % (i, cc))]))
        if outs[0] != outs[1]:
            raise CheckError('gcc and clang disagree on %s' % s['file'])
        return outs[0]

    with ThreadPoolExecutor(r.ncpu) as ex:
        truth = list(ex.map(prepare, range(len(SOURCES))))
    r.add('compiler_truths', len(truth))

    # every source through creflcc.py, in every way to give it the same options
    def reflect(i, form, out):
        s = SOURCES[i]
        inc = [x for a in s['inc'] for x in (['-I', a] if form & 1 else ['--include', a])]
        po = ['-p', os.path.dirname(so), '-o', out] if form & 1 else ['--plugin', os.path.dirname(so), '--output', out]
        opt = (['-d'] if form & 1 else ['--debug']) if form & 2 else []
        cpp = ['--cpp'] if form & 4 else []
        cmd = [sys.executable, ccpy] + cpp + opt + (inc + po + [s['file']] if form & 1 else po + inc + [s['file']])
        return cmd

    def refl(job):
        i, form = job
        out = 's%d.%d.refl' % (i, form)
        cmd = reflect(i, form, out)
        key = 'creflcc form %d %s' % (form, SOURCES[i]['file'])
        n = sh(cmd[:2] + ['-n'] + cmd[2:])
        made = os.path.exists(os.path.join(d, out))
        rc, o, e = sh(cmd)
        return i, form, key, n, made, rc, e

    forms = [0, 1, 2, 3, 4, 7] if not r.thorough else list(range(8))
    jobs = [(i, f) for i in range(len(SOURCES)) for f in forms]
    with ThreadPoolExecutor(r.ncpu) as ex:
        for i, form, key, n, made, rc, e in ex.map(refl, jobs):
            r.add('traces', 2); r.add('transitions', 2)
            out = os.path.join(d, 's%d.%d.refl' % (i, form))
            if rc:
                bad(key, 'fails with %d: %s' % (rc, e[-300:])); continue
            if made or n[0]:
                bad(key, '-n %s' % ('writes the output' if made else 'fails'))
            first = open(out, 'rb').read()
            if form & 4 == 0 and form and os.path.exists(os.path.join(d, 's%d.0.refl' % i)) and first != open(os.path.join(d, 's%d.0.refl' % i), 'rb').read():
                bad(key, 'other output than with the options written the other way')
            # the command -n shows does the same
            os.unlink(out)
            rc2, o2, e2 = sh(['sh', '-c', n[1]])
            if rc2 or not os.path.exists(out):
                bad(key, 'the command -n shows fails with %d: %s' % (rc2, e2[-200:]))
                open(out, 'wb').write(first)
            elif open(out, 'rb').read() != first:
                bad(key, 'the command -n shows gives another output')
    # what cannot be done is reported, whatever other options are given
    extras = [('', [])] + [(' with ' + ' '.join(x), x) for k in (1, 2, 3) for y in itertools.combinations((['--cpp'], ['--debug'], ['-I', 'sub']), k) for x in [sum(y, [])]]
    for key, cmd in ((k + xk, c[:2] + x + c[2:]) for xk, x in extras for k, c in (('no input', [sys.executable, ccpy, '-p', os.path.dirname(so), '-o', 'x.refl']),
                     ('missing input', [sys.executable, ccpy, '-p', os.path.dirname(so), '-o', 'x.refl', 'none.c']),
                     ('no output option', [sys.executable, ccpy, '-p', os.path.dirname(so), 'void.c']),
                     ('unwritable output', [sys.executable, ccpy, '-p', os.path.dirname(so), '-o', 'nodir/x.refl', 'void.c']),
                     ('no plugin', [sys.executable, ccpy, '-p', 'sub', '-o', 'x.refl', 'void.c']))):
        rc, o, e = sh(cmd)
        r.add('traces')
        if rc == 0 or os.path.exists(os.path.join(d, 'x.refl')):
            bad('creflcc ' + key, 'exit %d%s' % (rc, ', output written' if os.path.exists(os.path.join(d, 'x.refl')) else ''))

    # the plug-in with every short sequence of arguments
    toks = ['-o', 'P', '-dump', '-debug', '-bogus']
    dumps = {}

    def plugin(job):
        i, seq = job
        out = 'pl%d.%s.refl' % (i, ''.join(str(toks.index(t)) for t in seq))
        args = [out if t == 'P' else t for t in seq]
        cmd = ['/opt/llvm/bin/clang', '-c', '-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'crefl'] + ['-I' + x for x in SOURCES[i]['inc']]
        for t in args:
            cmd += ['-Xclang', '-plugin-arg-crefl', '-Xclang', t]
        # what the arguments mean
        want, k, dump, ok = None, 0, False, bool(seq)
        while k < len(seq):
            if seq[k] == '-o':
                if k + 1 == len(seq): ok = False; break
                want = args[k + 1]; k += 2; continue
            if seq[k] not in ('-dump', '-debug'): ok = False; break
            dump |= seq[k] == '-dump'; k += 1
        w = os.path.join(d, 'pl%d.%s' % (i, ''.join(str(toks.index(t)) for t in seq)))
        os.makedirs(w)
        cmd += [os.path.join(d, SOURCES[i]['file'])]
        cmd = [x if not x.startswith('-Iinc') else '-I' + os.path.join(d, x[2:]) for x in cmd]
        rc, o, e = sh(cmd, cwd=w)
        files = sorted(os.listdir(w))
        data = open(os.path.join(w, want), 'rb').read() if want and os.path.exists(os.path.join(w, want)) else None
        key = 'plug-in arguments %s %s' % (SOURCES[i]['file'], ' '.join(seq))
        shutil.rmtree(w)
        if not ok:
            if rc == 0 or rc == -99: return key, 'exit %d of wrong arguments' % rc
            if files: return key, 'wrong arguments write %s' % files
            return key, None
        if rc: return key, 'fails with %d: %s' % (rc, e[-200:])
        if want and data is None or files != ([want] if want else []): return key, 'files written: %s' % files
        if want and i in truefile and data != truefile[i]: return key, 'the output differs from that of creflcc.py'
        if dump and i in dumps and o != dumps[i]: return key, '-dump prints other text than crefltool --dump'
        if not dump and o: return key, 'prints "%s"' % o[:60]
        return key, None

    if not r.only or r.only.startswith('plug-in'):
        truefile = {i: open(os.path.join(d, 's%d.0.refl' % i), 'rb').read() for i in range(len(SOURCES)) if os.path.exists(os.path.join(d, 's%d.0.refl' % i))}
        for i in truefile:
            dumps[i] = sh([tool, '--dump', 's%d.0.refl' % i])[1]
        seqs = [(i, t) for n in range(4) for t in itertools.product(toks, repeat=n) for i in ([k for k in truefile] if n < 3 and r.thorough else [0])
                if n < 3 or r.thorough or t[0] == '-o' or t[1] == '-o']
        # an argument of -o that is an option names a file of that name
        with ThreadPoolExecutor(r.ncpu) as ex:
            for key, err in ex.map(plugin, seqs):
                r.add('traces'); r.add('transitions')
                if err: bad(key, err)
        r.units.append(dict(unit='plug-in arguments', sequences=len(seqs)))

    # an output that cannot be written whole, at every point (files of limited size), or at all
    def limited(job):
        i, how, k = job
        key = 'plug-in output %d %s %s' % (i, how, k)
        out = os.path.join(d, 'lim.%d.%s.%s' % (i, how, k)) if isinstance(k, int) else k
        if how == 'clang':
            cmd = ['/opt/llvm/bin/clang', '-c', '-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'crefl'] + ['-I' + x for x in SOURCES[i]['inc']] + ['-Xclang', '-plugin-arg-crefl', '-Xclang', '-o', '-Xclang', '-plugin-arg-crefl', '-Xclang', out, SOURCES[i]['file']]
        else: cmd = reflect(i, 1, out)
        size = len(truefile[i])
        if isinstance(k, int) and k % 2: open(out, 'wb').write(b'x' * (size + 100))
        def pre():
            if isinstance(k, int): resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        try:
            x = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(r.env, PYTHONDONTWRITEBYTECODE='1'), cwd=d, timeout=120, stdin=subprocess.DEVNULL, preexec_fn=pre, restore_signals=False)
        except subprocess.TimeoutExpired:
            return key, 'no end'
        data = None
        if isinstance(k, int) and os.path.exists(out): data = open(out, 'rb').read(); os.unlink(out)
        if not isinstance(k, int) or k < size: return key, 'room for %s of %d bytes, and the exit status is 0' % (k, size) if x.returncode == 0 else None
        return key, None if x.returncode == 0 and data == truefile[i] else 'room for %s of %d bytes: exit %d, %s bytes' % (k, size, x.returncode, data and len(data))

    if not r.only or r.only.startswith('plug-in output'):
        os.makedirs(os.path.join(d, 'adir'), exist_ok=True)
        jobs = []
        for i in sorted(truefile):
            n = len(truefile[i])
            ks = {0, 1, 15, 16, 23, 24, 25, n // 2, n - 1, n, n + 1} | (set(range(0, n + 2, 1 if r.thorough else max(1, n // 40))) if i == min(truefile) or r.thorough else set())
            jobs += [(i, how, k) for how in ('clang', 'creflcc') for k in sorted(ks) if k >= 0 and (how == 'clang' or k in (0, n - 1, n))]
            jobs += [(i, how, k) for how in ('clang', 'creflcc') for k in ('/dev/full', 'adir', 'none/x.refl', 'void.c/x.refl')]
        jobs = [j for j in jobs if not r.only or r.only == 'plug-in output %d %s %s' % j]
        with ThreadPoolExecutor(r.ncpu) as ex:
            for key, err in ex.map(limited, jobs):
                r.add('traces'); r.add('transitions')
                if err: bad(key, err)
        r.units.append(dict(unit='plug-in output', limits=len(jobs)))

    # the same through the cmake macro
    def cmake(job):
        seq, gen = job
        key = 'cmake %s %s' % (gen, ' '.join(SOURCES[i]['file'] for i in seq))
        w = os.path.join(d, 'cm' + ''.join(map(str, seq)) + gen[0])
        os.makedirs(w + '/b')
        for x in HEADERS:
            os.makedirs(os.path.dirname(os.path.join(w, x)), exist_ok=True); shutil.copy(os.path.join(d, x), os.path.join(w, x))
        inc = []
        for i in seq:
            f = os.path.join(w, SOURCES[i]['file']); os.makedirs(os.path.dirname(f), exist_ok=True); shutil.copy(os.path.join(d, SOURCES[i]['file']), f)
            inc += [x for x in SOURCES[i]['inc'] if x not in inc]
        if len(seq) > 1: inc.sort()
        shutil.copy(os.path.join(d, 'reader.c'), w)
        os.symlink(os.path.join(r.repo, 'scripts'), w + '/scripts')
        os.symlink(so, w + '/b/libcrefl.so'); os.symlink(tool, w + '/b/crefltool')
        open(w + '/CMakeLists.txt', 'w').write('''cmake_minimum_required(VERSION 3.10)
project(t C CXX)
include(%s/cmake/crefl_macro.cmake)
add_custom_target(crefl)
add_custom_target(crefltool)
add_library(pool STATIC %s)
%s
crefl_target_reflect(pool pool_refl)
add_executable(prog reader.c)
target_include_directories(prog PRIVATE %s/include)
target_link_libraries(prog pool_refl %s)
set_target_properties(prog PROPERTIES LINKER_LANGUAGE CXX)
''' % (r.repo, ' '.join(SOURCES[i]['file'] for i in seq), 'target_include_directories(pool PRIVATE %s)' % ' '.join(inc) if inc else '', r.repo, lib))
        try:
            rc, o, e = sh(['cmake', '-G', gen, '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_C_FLAGS=-w', '..'], cwd=w + '/b')
            if rc: return key, 'cmake fails: ' + (o + e)[-400:]
            rc, o, e = sh(['cmake', '--build', '.'], cwd=w + '/b')
            if rc: return key, 'the build fails: ' + (o + e)[-600:]
            rc, o, e = sh([w + '/b/prog'])
            if rc: return key, 'the program fails with %d: %s' % (rc, e[-200:])
            exp = 'archive pool.refl\n' + ''.join(truth[i] for i in seq)
            if o != exp:
                a, b = o.splitlines() + ['(end)'], exp.splitlines() + ['(end)']
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
                return key, 'line %d: the program finds "%s", the compiler says "%s"' % (k + 1, a[k], b[k])
        finally:
            shutil.rmtree(w)
        return key, None

    if not r.only or r.only.startswith('cmake'):
        n = len(SOURCES)
        jobs = [((i,), 'Ninja') for i in range(n)] + [((i, (i + k) % n), 'Ninja') for i in range(n) for k in ((1, 2, 3, 4, 5) if r.thorough else (1,))]
        if r.thorough:
            jobs += [(t, 'Ninja') for t in itertools.combinations(range(n), 3)] + [(tuple(range(n)), 'Ninja')]
        # the sources of a project share their directories
        jobs = [j for j in jobs if len(j[0]) == 1 or not any(SOURCES[i].get('order') for i in j[0])]
        with ThreadPoolExecutor(r.ncpu) as ex:
            for key, err in ex.map(cmake, jobs):
                r.add('traces'); r.add('transitions', 3); r.add('states')
                if err: bad(key, err)
        r.units.append(dict(unit='cmake', projects=len(jobs)))

    # every sequence of sources into a program
    def program(seq):
        key = ' '.join('%s%s' % (SOURCES[i]['file'], '' if f == 0 else ':%d' % f) for i, f in seq)
        tag = 'q' + '_'.join('%d.%d' % x for x in seq)
        ins = ['s%d.%d.refl' % x for x in seq]
        exp = ''.join(truth[i] for i, f in seq)
        try:
            if len(seq) == 1 and seq[0][1] == 0:
                ref = ins[0]
            else:
                ref = tag + '.refl'
                rc, o, e = sh([tool, '--merge', ref] + ins)
                if rc: return key, '--merge fails with %d: %s' % (rc, e[-300:])
                exp = 'archive %s\n' % ref + exp
            rc, o, e = sh([tool, '--emit', tag + '.c', ref])
            if rc: return key, '--emit fails with %d: %s' % (rc, e[-300:])
            rc, o, e = sh(['gcc', '-w', '-O0', '-c', tag + '.c', '-o', tag + '.o'])
            if rc: return key, 'what --emit writes does not compile: ' + e[:300]
            rc, o, e = sh(['g++', 'reader.o', tag + '.o', lib, '-o', tag + '.exe'])
            if rc: return key, 'what --emit writes does not link: ' + e[:300]
            rc, o, e = sh([os.path.join(d, tag + '.exe')])
            if rc: return key, 'the program fails with %d: %s' % (rc, e[-200:])
            if o != exp:
                a, b = o.splitlines(), exp.splitlines()
                for k in range(max(len(a), len(b))):
                    x, y = (a[k] if k < len(a) else '(end)'), (b[k] if k < len(b) else '(end)')
                    if x != y: return key, 'line %d: the program finds "%s", the compiler says "%s"' % (k + 1, x, y)
        finally:
            for x in ('.c', '.o', '.exe', '.refl'):
                if os.path.exists(os.path.join(d, tag + x)): os.unlink(os.path.join(d, tag + x))
        return key, None

    n = len(SOURCES)
    od = [i for i in range(n) if SOURCES[i].get('order')]
    seqs = [((i, 0),) for i in range(n)] + [((i, 3), ) for i in range(n)] + [((i, 4),) for i in range(n)]
    seqs += [((i, 0), (j, f)) for i in range(n) for j in range(n) for f in (0, 4) if not {i, j} & set(od) or {i, j} <= set(od) | {0}]
    tri = [tuple((i, 0) for i in t) for t in itertools.product([i for i in range(n) if i not in od], repeat=3)]
    seqs += tri if r.thorough else [t for t in tri if (t[0][0] * 5 + t[1][0] * 3 + t[2][0]) % 4 == 0]
    if r.thorough:
        seqs += [tuple((i, 0) for i in t) for t in itertools.permutations([i for i in range(n) if i not in od], 4)]
    seqs += [tuple((i, 0) for i in t) for t in itertools.permutations(od)]
    seqs = [s for s in seqs if not any(f & 4 and SOURCES[i].get('only_c') for i, f in s)]
    if r.only:
        seqs = [s for s in seqs if ' '.join('%s%s' % (SOURCES[i]['file'], '' if f == 0 else ':%d' % f) for i, f in s) == r.only]
    with ThreadPoolExecutor(r.ncpu) as ex:
        for key, err in ex.map(program, seqs):
            r.add('traces'); r.add('transitions', 4); r.add('states')
            if err: bad(key, err)
    r.sample('pipeline: ' + ' '.join(SOURCES[i]['file'] for i in (0, 1, 3)) + ' -> ' + (truth[0] + truth[1]).replace('\n', ' ; ')[:400])
    r.units.append(dict(unit=unit, programs=len(seqs)))
