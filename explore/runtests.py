"""P34: scripts/run_tests.py shows, header by header, the text of the header and what crefltool prints of its reflection"""
import itertools, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

FILES = {
    'one.h': ('struct one { int a; char b[3]; };\nint f(struct one *p, ...);\n', [], False),
    'sub/one.h': ('union one { long q; double d; };\n\n', [], False),
    'in c.h': ('enum e { a, b = 7 };', [], False),
    'usesinc.h': ('#include "deep.h"\n#include <far.h>\nstruct uses { struct deep d; struct far *f; };\n', ['inc', 'inc2'], False),
    'void.h': ('', [], False),
    'both.h': ('typedef struct { unsigned x:3, y:7; } bits;\nextern const bits table[4][2];\n/* %s 100% \\n */\n', [], False),
    'plus.h': ('namespace n { struct s { bool b; }; }\nclass k { int m; };\n', [], True),
    'long.h': ''.join('struct t%d { int m%d; struct t%d *n; };\n' % (i, i, i) for i in range(600)),
}
FILES['long.h'] = (FILES['long.h'], [], False)
OTHER = {'inc/deep.h': 'struct deep { int z; };\n', 'inc2/far.h': 'struct far { char c; };\n', 'inc2/deep.h': 'struct deep { double wrong; };\n'}
DUMPS = [None, '--dump', '--dump-fqn', '--dump-sum', '--dump-all', '--dump-ext', '--dump-ext-fqn', '--dump-ext-sum', '--dump-ext-all']
HEAD = '===== %-6s test-case: %s =====\n\n'


def run(r):
    unit = 'runtests'
    if r.only_unit and r.only_unit != unit:
        return
    from check import CheckError
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(r.build.plugin); ft = ex.submit(r.build.tool, 'crefltool', 'opt')
        so, tool = fp.result(), ft.result()
    script = os.path.join(r.repo, 'scripts', 'run_tests.py')
    top = r.scratch('rt')
    names = list(FILES)

    def lay(w):
        os.makedirs(w + '/build')
        os.symlink(so, w + '/build/libcrefl.so'); os.symlink(tool, w + '/build/crefltool')
        for n, t in [(n, f[0]) for n, f in FILES.items()] + list(OTHER.items()):
            p = os.path.join(w, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(t)
        return w

    env = dict(r.env, PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1')
    buffered = {k: v for k, v in env.items() if k != 'PYTHONUNBUFFERED'}       # a recorded finding: headings come at the end

    def sh(cmd, cwd, out=subprocess.PIPE, env=env):
        try:
            p = subprocess.run(cmd, stdout=out, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=120, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return -99, '', 'no end'
        return p.returncode, (p.stdout or b'').decode(errors='replace'), p.stderr.decode(errors='replace')

    base = lay(os.path.join(top, 'truth'))

    def cc(n, cpp=None):
        cpp = FILES[n][2] if cpp is None else cpp
        return (['/opt/llvm/bin/clang++', '-c', '-xc++'] if cpp else ['/opt/llvm/bin/clang', '-c']) + \
            [y for x in (['-load', so, '-plugin', 'crefl']) for y in ('-Xclang', x)] + ['-I' + x for x in FILES[n][1]]

    # what crefltool says of each header, compiled by hand
    def prepare(n):
        o = 't%d.refl' % names.index(n)
        rc, _, e = sh(cc(n) + [y for x in ('-o', o) for y in ('-Xclang', '-plugin-arg-crefl', '-Xclang', x)] + [n], base)
        if rc:
            raise CheckError('%s: %s' % (n, e[:400]))
        t = {'image': open(os.path.join(base, o), 'rb').read()}
        for m in DUMPS[1:] + ['--stats']:
            rc, t[m], e = sh([tool, m, o], base)
            if rc:
                raise CheckError('crefltool %s of %s: %s' % (m, n, e[:400]))
        t[None] = t['--dump']
        return t
    with ThreadPoolExecutor(r.ncpu) as ex:
        truth = dict(zip(names, ex.map(prepare, names)))

    def options(seq, dump, stats, debug, form):
        inc = []
        for n in seq:
            inc += [i for i in FILES[n][1] if i not in inc]
        o = [x for i in inc for x in (('-I', i) if form & 1 else ('--include', i))]
        if any(FILES[n][2] for n in seq): o += ['--cpp']
        if dump: o += [dump]
        if stats: o += ['--stats']
        if debug: o += ['-d' if form & 1 else '--debug']
        if form & 2: o += ['-p' if form & 1 else '--plugin', 'build']
        return o

    def one(job):
        num, seq, args, dump, stats, debug, form, tofile = job
        buf = tofile > 1
        key = ('buffered ' if buf else '') + 'run %s %s %s%s%s form %d' % (' '.join(args), dump, 'stats ' if stats else '', 'debug ' if debug else '', '' if tofile == 0 else 'to a file ' if tofile & 1 else '', form)
        if r.only and r.only != key:
            return None
        w = lay(os.path.join(top, 'w%d' % num))
        cmd = [sys.executable, script] + options(seq, dump, stats, debug, form) + args
        e_ = buffered if buf else env
        if tofile & 1:
            with open(w + '/out.txt', 'wb') as f:
                rc, _, e = sh(cmd, w, f, e_)
            o = open(w + '/out.txt', errors='replace').read()
        else:
            rc, o, e = sh(cmd, w, env=e_)
        want = '\n'
        for n in seq:
            want += HEAD % ('INPUT', n) + FILES[n][0] + '\n' + HEAD % ('OUTPUT', n) + truth[n][dump]
            if stats:
                want += HEAD % ('STATS', n) + truth[n]['--stats']
        want += '\n'
        err = None
        if rc:
            err = 'exits with %d: %s' % (rc, e[-300:])
        elif o != want:
            i = next((k for k, (x, y) in enumerate(zip(o, want)) if x != y), min(len(o), len(want)))
            err = 'prints %r where %r is due (at %d of %d)' % (o[i:i + 60], want[i:i + 60], i, len(want))
        else:
            last = {}
            for n in seq:
                last[os.path.basename(n)] = n
            for b, n in last.items():
                if open(w + '/build/tmp/' + b + '.refl', 'rb').read() != truth[n]['image']:
                    err = 'leaves another image for %s' % n
        shutil.rmtree(w)
        return key, err, len(seq)

    jobs, num = [], itertools.count()

    def add(seq, dump, stats=False, debug=False, form=0, args=None, tofile=0):
        jobs.append((next(num), list(seq), args or list(seq), dump, stats, debug, form, tofile))
    c = [n for n in names if not FILES[n][2]]
    k = 0
    for dump in DUMPS:
        for stats in (False, True):
            for debug in (False, True):
                add([c[k % len(c)]], dump, stats, debug, k % 4, tofile=k & 1); k += 1
    for n in names:
        for dump in DUMPS if r.thorough else (None, '--dump-all'):
            add([n], dump, True, False, k % 4); k += 1
    for s in itertools.product(c, repeat=2):
        add(s, DUMPS[k % 9], bool(k % 2), False, k % 4, tofile=k % 3 == 0); k += 1
    if r.thorough:
        for s in itertools.product(c, repeat=3):
            add(s, DUMPS[k % 9], bool(k % 2), bool(k % 5 == 0), k % 4, tofile=k % 3 == 0); k += 1
    for s in (['one.h'], ['one.h', 'both.h']):
        for t in (2, 3): add(s, '--dump', form=k % 4, tofile=t); k += 1
    add(['one.h'], None, args=['o*.h']); add(['one.h', 'one.h'], '--dump', args=['o*e.h', 'one.h']); add(['sub/one.h', 'void.h'], None, True, args=['s*/*.h', 'v?id.h'])
    add([], None, args=['nothing*.h']); add(['one.h'], None, args=['nothing*.h', 'one.h', 'missing.h'])
    n = 0
    with ThreadPoolExecutor(r.ncpu) as ex:
        for x in ex.map(one, jobs):
            if x is None:
                continue
            n += 1
            r.add('states'); r.add('transitions', x[2]); r.add('traces')
            if x[1] and len(r.viol) < 30:
                r.violation(unit, x[0], x[1])
            elif n % 60 == 1:
                r.sample('runtests: ' + x[0])

    # what -n shows is a command that makes the same image, and nothing is made
    def shown(job):
        i, n, form = job
        key = 'show %s form %d' % (n, form)
        if r.only and r.only != key:
            return None
        w = lay(os.path.join(top, 'n%d' % i))
        rc, o, e = sh([sys.executable, script, '-n' if form & 1 else '--no-exec'] + options([n], None, False, form & 4, form) + [n], w)
        pre = '\n' + HEAD % ('INPUT', n) + FILES[n][0] + '\n' + HEAD % ('OUTPUT', n)
        refl = w + '/build/tmp/' + os.path.basename(n) + '.refl'
        err = None
        if rc or not o.startswith(pre):
            err = 'exits with %d and prints %r' % (rc, o[:200])
        elif os.path.exists(refl):
            err = 'runs the command'
        else:
            rc, _, e = sh(['sh', '-c', o[len(pre):]], w)
            if rc or not os.path.exists(refl) or open(refl, 'rb').read() != truth[n]['image']:
                err = 'shows a command that does not make the image: %r' % o[len(pre):][:200]
        shutil.rmtree(w)
        return key, err
    with ThreadPoolExecutor(r.ncpu) as ex:
        for x in ex.map(shown, [(i, n, form) for i, (n, form) in enumerate(itertools.product([n for n in names if ' ' not in n], range(8)))]):
            if x:
                r.add('states'); r.add('traces')
                if x[1]: r.violation(unit, *x)

    # include directories in every order, with repetition: the first that has a header decides
    tree = {'d2/who.h': 'struct two { int a; };\n', 'd1/who.h': 'struct one { long a; };\n', 'c 3/who.h': 'union three { char c; };\n',
            'd1/other.h': 'int other_1;\n', 'c 3/other.h': 'char other_3[3];\n', 'asks.h': '#include "who.h"\n#include <other.h>\nint asks;\n'}

    def ordered(job):
        i, dirs = job
        key = 'include ' + ' '.join(d.replace(' ', '_') for d in dirs)
        if r.only and r.only != key:
            return None
        w = lay(os.path.join(top, 'i%d' % i))
        for n, t in tree.items():
            os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
            open(os.path.join(w, n), 'w').write(t)
        rc, o, e = sh([sys.executable, script] + [x for d in dirs for x in ('-I', d)] + ['asks.h'], w)
        err, other = None, next((d for d in dirs if d + '/other.h' in tree), None)
        if not other:
            if 'other_' in o.split('OUTPUT', 1)[-1]: err = 'describes a header of a directory that was not given'
        elif rc:
            err = 'exits with %d: %s' % (rc, e[-300:])
        else:
            t, out = ''.join(tree[x] for x in (dirs[0] + '/who.h', other + '/other.h')) + 'int asks;\n', o.split('OUTPUT', 1)[1]
            for a in ('two', 'three', 'other_1', 'other_3', 'asks'):
                if (a in t) != ('"%s"' % a in out or ' %s ' % a in out):
                    err = '%s is %sdescribed' % (a, '' if a in out else 'not ')
            rc, o2, e2 = sh([sys.executable, script, '-n'] + [x for d in dirs for x in ('-I', d)] + ['asks.h'], w)
            img = open(w + '/build/tmp/asks.h.refl', 'rb').read()
            os.unlink(w + '/build/tmp/asks.h.refl')
            if not err and not any(' ' in d for d in dirs):
                rc, _, e = sh(['sh', '-c', o2.split('=====\n\n')[-1]], w)
                if rc or open(w + '/build/tmp/asks.h.refl', 'rb').read() != img:
                    err = 'what -n shows does not make the same image'
        shutil.rmtree(w)
        return key, err
    orders = [q for k in range(5 if r.thorough else 4) for q in itertools.product(('d1', 'd2', 'c 3'), repeat=k)]
    with ThreadPoolExecutor(r.ncpu) as ex:
        for x in ex.map(ordered, enumerate(orders)):
            if x:
                r.add('states'); r.add('traces')
                if x[1] and len(r.viol) < 30: r.violation(unit, *x)

    # a header that cannot be compiled ends the run
    w = lay(os.path.join(top, 'bad'))
    for key, args in (('no plug-in', ['-p', 'sub', 'one.h']), ('unreadable output', ['one.h']), ('unknown option', ['--nonsense', 'one.h'])):
        if r.only and r.only != key:
            continue
        if key == 'unreadable output':
            shutil.rmtree(w + '/build/tmp', ignore_errors=True); os.makedirs(w + '/build/tmp/one.h.refl')
        rc, o, e = sh([sys.executable, script] + args, w)
        r.add('states')
        if rc == 0:
            r.violation(unit, key, 'exits with 0')
        elif 'id ' in o.split('OUTPUT', 1)[-1]:
            r.violation(unit, key, 'goes on')
    r.units.append(dict(unit=unit, runs=len(jobs)))
