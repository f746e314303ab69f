"""P07: the C compiler's layout and the plug-in's graph of the whole space, then the comparison"""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor


def run(r):
    from check import CheckError
    work = r.scratch('layout')
    gen = os.path.join(work, 'gen')
    so = ThreadPoolExecutor(1).submit(r.build.plugin)
    r.build.run(['g++', '-O1', '-std=c++17', '-I', os.path.join(r.verif, 'harness'), os.path.join(r.verif, 'harness', 'layoutgen.cc'), '-o', gen])
    n = int(subprocess.check_output([gen, work] + (['--thorough'] if r.thorough else []), text=True))
    chunks = (n + 399) // 400
    so = so.result()

    def sh(cmd, **k):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
        return p.returncode, p.stdout, p.stderr

    def one(c):
        b = os.path.join(work, 'p%d' % c)
        outs = []
        for cc in ('gcc', 'clang'):
            rc, o, e = sh([cc, '-w', b + '.c', '-o', b + cc])
            if rc:
                raise CheckError('%s: %s' % (cc, e.decode()[:400]))
            outs.append(subprocess.check_output([b + cc]))
            os.unlink(b + cc)
        if outs[0] != outs[1]:
            raise CheckError('gcc and clang disagree on piece %d' % c)
        open(os.path.join(work, 'r%d' % c), 'wb').write(outs[0])
        os.unlink(b + '.c')
        h = os.path.join(work, 'h%d.h' % c)
        try:
            rc, o, e = sh(plugin_cmd(so, h, h[:-2] + '.refl', ['-mavx512fp16']), timeout=120)
        except subprocess.TimeoutExpired:
            rc, e = -1, b'no end'
        return c, rc, e

    with ThreadPoolExecutor(r.ncpu) as ex:
        for c, rc, e in ex.map(one, range(chunks)):
            r.add('compiler_layouts_compared', 1)
            if rc:
                r.violation('layout', 'extracted %d..' % (c * 400), 'plug-in fails (%d): %s' % (rc, e.decode(errors='replace')[-300:]))
    r.native('layout', 'layout', 'asan', args=['--data', work])


def plugin_cmd(so, src, out, extra=()):
    x = ['-load', so, '-plugin', 'crefl', '-plugin-arg-crefl', '-o', '-plugin-arg-crefl', out]
    cc = '/opt/llvm/bin/clang' if os.path.exists('/opt/llvm/bin/clang') else 'clang-14'
    return [cc, '-c', '-w'] + list(extra) + sum([['-Xclang', a] for a in x], []) + [src, '-o', '/dev/null']
