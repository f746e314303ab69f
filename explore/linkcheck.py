"""P21: every function and object the public headers declare can be used from C and from C++."""
import glob, os, re, subprocess

ORDER = ['model.h', 'bits.h', 'endian.h', 'buf.h', 'asn1.h', 'oid.h', 'sha256.h', 'types.h', 'db.h', 'link.h', 'dump.h']


def c_headers(repo):
    have = {os.path.basename(p) for p in glob.glob(os.path.join(repo, 'include/crefl/*.h'))}
    hs = [h for h in ORDER if h in have]
    for h in sorted(have - set(ORDER)):
        t = open(os.path.join(repo, 'include/crefl', h), errors='replace').read()
        if not re.search(r'#include\s*<(c[a-z]+|string|vector|map|memory|utility|type_traits)>', t):
            hs.append(h)
    return hs


def declared(repo, lang, cc, pre):
    """names of non-static functions and extern objects declared by the public headers, in this language"""
    out = subprocess.run([cc, '-x', lang, '-E', '-I', os.path.join(repo, 'include'), '-'], input=pre, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if out.returncode:
        return None, out.stderr
    text, keep = [], False
    inc = os.path.join(repo, 'include') + os.sep
    for l in out.stdout.splitlines():
        m = re.match(r'# \d+ "(.*?)"', l)
        if m:
            keep = m.group(1).startswith(inc)
            continue
        if keep:
            text.append(l)
    t = re.sub(r'"(\\.|[^"\\])*"', '""', ' '.join(text))
    t = re.sub(r"'(\\.|[^'\\])*'", '0', t)
    t = re.sub(r'extern\s+""\s*\{', ' @ ', t)       # linkage blocks do not nest declarations
    names, depth, stmt = set(), 0, ''
    body = False
    for ch in t:
        if ch == '{':
            if depth == 0:
                body = bool(re.search(r'\)\s*(const)?\s*$', stmt))
            depth += 1
        elif ch == '}':
            if depth == 0:                           # end of a linkage block
                stmt = ''
                continue
            depth -= 1
            if depth == 0:
                stmt = '' if body else stmt + ' {} '
                body = False
        elif depth == 0:
            if ch == ';':
                s = stmt.replace('@', ' ').strip()
                stmt = ''
                if re.match(r'(typedef|static|template|using)\b', s) or 'static' in s.split():
                    continue
                m = re.match(r'^[\w\s\*{}]*?\b(\w+)\s*\([^()]*\)\s*$', s)
                if m:
                    names.add(m.group(1))
                    continue
                m = re.match(r'^extern\b[\w\s\*]*?\b(\w+)\s*(\[\s*\w*\s*\])?\s*$', s)
                if m:
                    names.add(m.group(1))
            else:
                stmt += ch
    return names, ''


def run(r):
    unit = 'link'
    if r.only_unit and r.only_unit != unit:
        return
    hs = c_headers(r.repo)
    d = r.scratch('link')
    pre = ''.join('#include <crefl/%s>\n' % h for h in hs)
    lib = r.build.lib('opt')
    total = 0
    for lang, ext, ccs in (('c', 'c', (['gcc', '-std=gnu11'], ['clang', '-std=gnu17'])), ('c++', 'cc', (['g++', '-std=c++17'], ['clang++', '-std=c++17']))):
        for cc in ccs:
            key0 = '%s headers' % cc[0]
            names, err = declared(r.repo, lang, cc[0], pre)
            r.add('traces')
            if names is None:
                r.violation(unit, key0, 'headers do not preprocess: ' + err[-300:].replace('\n', ' '))
                continue
            if len(names) < 100 and not r.only:
                r.violation(unit, key0, 'only %d declarations found' % len(names))
            main = os.path.join(d, 'main.' + ext)
            other = os.path.join(d, 'other.' + ext)
            order = sorted(names)
            with open(main, 'w') as f:
                f.write(pre + '#include <stdio.h>\nint other(void);\n' + 'int main(void) { int n = 0;\n'
                        + ''.join('    { const void *volatile p = (const void*)&%s; if (p) n++; }\n' % n for n in order)
                        + '    printf("%d\\n", n + other()); return 0; }\n')
            with open(other, 'w') as f:
                f.write(pre + 'int other(void) { return 0; }\n')
            exe = os.path.join(d, 'exe')

            def build(files):
                objs = []
                for s in files:
                    o = s + '.o'
                    p = subprocess.run(cc + ['-w', '-O0', '-I', os.path.join(r.repo, 'include'), '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode:
                        return 'compile: ' + p.stdout
                    objs.append(o)
                p = subprocess.run(['g++'] + objs + [lib, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return 'link: ' + p.stdout if p.returncode else ''
            err = build([main, other])
            r.add('transitions', len(order))
            r.add('states', len(order))
            if err:
                bad = sorted(set(re.findall(r"undefined reference to `(\w+)", err)))
                dup = sorted(set(re.findall(r"multiple definition of `(\w+)", err)))
                for n in bad:
                    r.violation(unit, '%s uses %s' % (cc[0], n), 'declared but not defined with this linkage')
                for n in dup:
                    r.violation(unit, '%s twice %s' % (cc[0], n), 'defined again in every file that includes the headers')
                if not bad and not dup:
                    r.violation(unit, key0, err[:400].replace('\n', ' '))
                continue
            n = subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.strip()
            if n != str(len(order)):
                r.violation(unit, key0, 'program over %d declarations printed %s' % (len(order), n))
            total += len(order)
    r.add('declarations_linked', total)
    r.sample('link: %d headers from C and C++ with gcc and clang' % len(hs))
    r.units.append(dict(unit=unit, declarations=total))
