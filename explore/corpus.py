"""reflection images that the compiler plug-in makes of enumerated C units, for the checks of what reads them"""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import plug
from layoutrun import plugin_cmd

# group: every n-th unit (quick, thorough)
STEP = dict(types=(4, 1), members=(6, 1), enums=(4, 1), attributes=(5, 1), functions=(3, 1), order=(29, 5), scopes=(4, 1), va_list=(5, 1), odd=(11, 2), size=(3, 1), name=(3, 2), depth=(2, 1), nesting=(6, 1), count=(9, 1))


def names(th):
    k = {}
    for name, u in plug.units(False):
        g = name.split()[0]
        n = k[g] = k.get(g, -1) + 1
        if n % STEP.get(g, (4, 1))[th] == 0 and sum(map(len, u.c)) < 30000:
            yield name, u


def build(r):
    """-> directory with 0.refl, 1.refl, ... and a list of what they are"""
    from check import CheckError
    d = r.scratch('corpus')
    so = r.build.plugin()

    def one(x):
        k, (name, u) = x
        w = os.path.join(d, 'w%d' % k)
        os.mkdir(w)
        src = os.path.join(w, 'u%d.h' % (k % 7))
        open(src, 'w').write('\n'.join(u.c) + '\n')
        out = os.path.join(d, '%d.refl' % k)
        try:
            p = subprocess.run(plugin_cmd(so, src, out, ['-mavx512fp16', '-Wno-everything', '-x', 'c', '-std=gnu11']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return name, 'the compiler does not end'
        os.unlink(src)
        os.rmdir(w)
        if p.returncode or not os.path.exists(out):
            return name, 'the plug-in fails: %s' % p.stderr.decode(errors='replace')[-300:]
        return name, None

    todo = list(names(r.thorough))
    with ThreadPoolExecutor(r.ncpu) as ex:
        done = list(ex.map(one, enumerate(todo)))
    bad = [x for x in done if x[1]]
    if bad:
        raise CheckError('no image of %s: %s' % bad[0])
    open(os.path.join(d, 'list'), 'w').write(''.join(n + '\n' for n, e in done))
    r.add('plugin_images', len(done))
    return d
