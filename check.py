#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--keep]

Decides one property of crefl by bounded-exhaustive exploration of the real
code in /repo's working tree.  Exit 0: held on everything explored; exit 1 and
a VIOLATION line: broken; exit 2: the check itself could not run.
"""
import argparse, fnmatch, glob, importlib, json, os, shutil, subprocess, sys
import tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CREFL_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'explore'))
sys.dont_write_bytecode = True
from registry import PROPS

NCPU = max(1, min(8, os.cpu_count() or 1))
FLAVORS = {
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNDEBUG'],
    'ub': ['-O1', '-g', '-fsanitize=address', '-fsanitize=shift-exponent,signed-integer-overflow,bounds,bool,integer-divide-by-zero,float-cast-overflow',
           '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DNDEBUG'],
    'tsan': ['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer', '-DNDEBUG'],
    'opt': ['-O2', '-g', '-DNDEBUG'],
}
ENV = dict(os.environ, LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                        'detect_stack_use_after_return=0:symbolize=0:handle_abort=1:max_allocation_size_mb=4200',
           TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=7:atexit_sleep_ms=0',
           UBSAN_OPTIONS='print_stacktrace=0')


class CheckError(Exception):
    pass


class Build:
    """builds what a check needs from /repo's working tree, into a scratch directory"""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.libs = {}
        self.procs = []

    def run(self, cmd, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
        if r.returncode != 0:
            raise CheckError('build failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
        return r.stdout.decode(errors='replace')

    def cxxflags(self, flavor):
        return ['-std=c++17', '-include', 'cstdint', '-w', '-fPIC', '-I', os.path.join(REPO, 'include')] + FLAVORS[flavor]

    def sources(self):
        model, plugin = [], []
        for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))):
            with open(f, errors='replace') as h:
                t = h.read()
            (plugin if ('clang/' in t and '#include' in t and 'llvm' in t.lower()) else model).append(f)
        return model, plugin

    def lib(self, flavor):
        with self.lock:
            if flavor in self.libs:
                return self.libs[flavor]
            d = os.path.join(self.work, 'lib-' + flavor)
            os.makedirs(d, exist_ok=True)
            objs, jobs = [], []
            for f in self.sources()[0]:
                o = os.path.join(d, os.path.basename(f) + '.o')
                objs.append(o)
                jobs.append(['g++'] + self.cxxflags(flavor) + ['-c', f, '-o', o])
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(self.run, jobs))
            a = os.path.join(d, 'libcmodel.a')
            self.run(['ar', 'rcs', a] + objs)
            self.libs[flavor] = a
            return a

    def harness(self, name, flavor='asan', extra=(), csrc=(), sources=None, more=()):
        src = sources or [os.path.join(VERIF, 'harness', name + '.cc')]
        exe = os.path.join(self.work, '%s-%s' % (name, flavor))
        with ThreadPoolExecutor(NCPU) as ex:
            lib = ex.submit(self.lib, flavor)
            jobs = []
            objs = []
            for s in src:
                o = exe + '-' + os.path.basename(s) + '.o'
                objs.append(o)
                jobs.append(ex.submit(self.run, ['g++'] + self.cxxflags(flavor) + ['-I', os.path.join(VERIF, 'harness')] + list(extra) + ['-c', s, '-o', o]))
            for c in csrc:
                s = os.path.join(VERIF, 'harness', c)
                o = exe + '-' + c + '.o'
                objs.append(o)
                jobs.append(ex.submit(self.run, ['gcc', '-std=gnu11', '-w', '-I', os.path.join(REPO, 'include')] + FLAVORS[flavor] + ['-c', s, '-o', o]))
            for j in jobs:
                j.result()
            a = lib.result()
        self.run(['g++'] + FLAVORS[flavor] + objs + list(more) + [a, '-lpthread', '-o', exe])
        return exe

    def tool(self, name, flavor='asan'):
        exe = os.path.join(self.work, 'tool-%s-%s' % (name, flavor))
        if os.path.exists(exe):
            return exe
        a = self.lib(flavor)
        self.run(['g++'] + self.cxxflags(flavor) + [os.path.join(REPO, 'tool', name + '.cc'), a, '-o', exe])
        return exe

    def plugin(self):
        so = os.path.join(self.work, 'libcrefl.so')
        if os.path.exists(so):
            return so
        llc = next((p for p in ('/opt/llvm/bin/llvm-config', '/usr/bin/llvm-config-14', '/usr/bin/llvm-config') if os.path.exists(p)), None)
        if not llc:
            raise CheckError('no llvm-config')
        def cfg(o):
            return subprocess.check_output([llc, o], text=True).split()
        model, plug = self.sources()
        objs, jobs = [], []
        for f in plug:
            o = os.path.join(self.work, os.path.basename(f) + '.plugin.o')
            objs.append(o)
            jobs.append(['g++', '-std=c++17', '-include', 'cstdint', '-w', '-O1', '-fPIC', '-DNDEBUG', '-I', os.path.join(REPO, 'include')]
                        + [x for x in cfg('--cxxflags') if not x.startswith('-std')] + ['-c', f, '-o', o])
        with ThreadPoolExecutor(NCPU) as ex:
            fl = ex.submit(self.lib, 'opt')
            list(ex.map(self.run, jobs))
            a = fl.result()
        self.run(['g++', '-shared', '-o', so] + objs + [a] + cfg('--ldflags') + ['-lclang-cpp'] + cfg('--libs'))
        return so


class Run:
    """one check of one property"""

    def __init__(self, prop, tier, only=None, only_unit=None):
        self.prop, self.tier, self.only, self.only_unit = prop, tier, only, only_unit
        self.thorough = tier == 'thorough'
        self.work = tempfile.mkdtemp(prefix='crefl-%s-' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
        os.chmod(self.work, 0o755)
        self.build = Build(self.work)
        self.viol = []          # (unit, key, detail)
        self.count = {}
        self.samples = []
        self.units = []
        self.notes = []
        self.late = False
        self.began = time.time()
        self.repo = REPO
        self.verif = VERIF
        self.env = ENV
        self.ncpu = NCPU

    # --- used by units
    def violation(self, unit, key, detail):
        self.viol.append((unit, key, detail))

    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def scratch(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def native(self, unit, name, flavor='asan', shards=None, extra=(), csrc=(), args=(), timeout=None, sources=None, objs=()):
        """build and run one mc.h harness over all its shards"""
        if self.only_unit and self.only_unit != unit:
            return
        t0 = time.time()
        exe = self.build.harness(name, flavor, extra, csrc, sources, objs)
        tb = time.time() - t0
        n = 1 if self.only else (shards or NCPU)
        timeout = timeout or (840 if not self.thorough else 4 * 3600)
        procs = []
        for i in range(n):
            wd = self.scratch('%s-%s-%d' % (unit, flavor, i))
            out = os.path.join(wd, 'out')
            cmd = [exe, '--out', out, '--work', wd, '--repo', REPO, '--shard', '%d/%d' % (i, n)]
            if self.thorough:
                cmd.append('--thorough')
            if self.only:
                cmd += ['--only', self.only]
            cmd += list(args)
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + '.log', 'wb'),
                                 env=self.env, start_new_session=True, cwd=wd)
            procs.append((p, out))
        end = self.began + timeout if not self.thorough else time.time() + timeout
        late = False
        try:
            for p, out in procs:
                try:
                    p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    late = True
                    continue
                if p.returncode != 0:
                    raise CheckError('%s failed: %s' % (unit, open(out + '.log', errors='replace').read()[-2000:]))
        finally:
            for p, out in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
        c = {}
        for p, out in procs:
            done = False
            for l in open(out, errors='replace'):
                f = l.rstrip('\n').split('\t')
                if f[0] == 'V':
                    self.violation(unit, f[1], f[2] if len(f) > 2 else '')
                elif f[0] == 'S':
                    if len([1 for s in self.samples if s.startswith(unit + ':')]) < 3:
                        self.sample(unit + ': ' + f[1])
                elif f[0] == 'C':
                    c[f[1]] = c.get(f[1], 0) + int(f[2])
                elif f[0] == 'D':
                    done = True
            if not done and not late:
                raise CheckError('%s: a shard did not finish' % unit)
        if late and not self.viol:
            raise CheckError('%s ran out of time' % unit)
        if late:
            self.late = True
        for k, v in c.items():
            self.add(k, v)
        self.units.append(dict(unit=unit, flavor=flavor, build_s=round(tb, 1), wall_s=round(time.time() - t0, 1), **c))


def load_known(prop):
    found, fixed = [], []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                body = l.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                assert key.startswith('key=')
                found.append((key[4:], text))
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.property not in PROPS:
        print('unknown property', a.property)
        return 2
    only = only_unit = None
    if a.replay:
        r = json.load(open(a.replay))
        only, only_unit, a.tier = r['case'], r['unit'], r.get('tier', a.tier)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    run = Run(a.property, a.tier, only, only_unit)
    spec = PROPS[a.property]
    try:
        try:
            spec['run'](run)
        except CheckError as e:
            if not run.viol:
                print('CHECK-ERROR property=%s %s' % (a.property, e))
                return 2
            run.late = True
            print('note: exploration cut short: %s' % e)
        known = load_known(a.property)
        seen = {}
        fresh = []
        for unit, key, detail in run.viol:
            for pat, text in known:
                full = unit + ': ' + key
                if full == pat or (pat.endswith('*') and full.startswith(pat[:-1])):
                    seen.setdefault((pat, text), 0)
                    seen[(pat, text)] += 1
                    break
            else:
                fresh.append((unit, key, detail))
        for pat, text in known:
            if (pat, text) in seen or only:
                if (pat, text) in seen:
                    print('KNOWN-FINDING: property=%s %s [%s]' % (a.property, text, pat))
        for l in run.notes:
            print('note:', l)
        cov = dict(states=run.count.get('states', 0), transitions=run.count.get('transitions', 0),
                   traces_validated_against_impl=run.count.get('traces', 0), samples=run.samples[:12],
                   exhaustive=not run.late and not any(k == '(stopped)' for _, k, _ in run.viol),
                   bounds=spec.get('bounds', {}).get(a.tier, spec.get('bounds', {}).get('quick', '')), units=run.units,
                   known_findings_seen=len(seen))
        for k, v in run.count.items():
            if k not in ('states', 'transitions', 'traces'):
                cov[k] = v
        ev = dict(property=a.property, tier=a.tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=cov,
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        if not a.replay:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % a.property)
            json.dump(ev, open(tmp, 'w'), indent=1)
            os.replace(tmp, os.path.join(VERIF, 'evidence', a.property + '.json'))
        if fresh:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            for n, (unit, key, detail) in enumerate(fresh[:10]):
                case = key.split(' [0x')[0] if ' [0x' in key else key
                rp = os.path.join(rd, '%s-%d.json' % (a.property, n))
                json.dump(dict(property=a.property, unit=unit, case=case, key=key, detail=detail, tier=a.tier), open(rp, 'w'), indent=1)
                print('  %s: %s -- %s' % (unit, key, detail[:700]))
                print('VIOLATION property=%s replay=%s' % (a.property, os.path.relpath(rp, VERIF)))
            if len(fresh) > 10:
                print('  ... and %d more' % (len(fresh) - 10))
            return 1
        c = run.count
        print('OK property=%s tier=%s traces=%d transitions=%d states=%d wall=%.1fs' % (
            a.property, a.tier, c.get('traces', 0), c.get('transitions', 0), c.get('states', 0), time.time() - t0))
        return 0
    finally:
        if a.keep:
            print('kept', run.work)
        else:
            shutil.rmtree(run.work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
