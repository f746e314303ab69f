"""an independent reader of reflection images, and an abstract graph to compare one with"""
import struct

TAGS = ['none', 'intrinsic', 'typedef', 'set', 'enum', 'struct', 'union', 'field', 'array', 'pointer', 'constant', 'function',
        'param', 'qualifier', 'attribute', 'value', 'archive', 'source', 'alias']
TAG = {n: i for i, n in enumerate(TAGS)}
BUILTIN = ['-', 'void', 'bool', 'bit', 'sign', 'ubyte', 'byte', 'ushort', 'short', 'uint', 'int', 'ulong', 'long', 'ucent', 'cent', 'half',
           'float', 'double', 'quad', 'chalf', 'cfloat', 'cdouble', 'cquad']
PROPS = dict(bitfield=1 << 9, const=1 << 10, volatile=1 << 11, restrict=1 << 12, static=1 << 13, extern_c=1 << 14, inline=1 << 15,
             noreturn=1 << 16, **{'global': 1 << 18}, out=1 << 23, vla=1 << 24)
FIRST = len(BUILTIN)


class Bad(Exception):
    pass


def props(s):
    return sum(PROPS[x] for x in s.split())


class Image:
    """nodes[i] = (tag, props, name, next, link, attr, quantity) for i >= FIRST"""

    def __init__(self, b):
        if len(b) < 20 or b[:8] != b'crefl000':
            raise Bad('not an image')
        cnt, nsz, self.root = struct.unpack_from('<III', b, 8)
        if 20 + cnt * 32 + nsz != len(b):
            raise Bad('%d octets for %d declarations and %d octets of names' % (len(b), cnt, nsz))
        names = b[20 + cnt * 32:]
        # names continue the table of builtin names
        base = 1 + sum(len(x) + 1 for x in BUILTIN[1:])
        self.n = {}
        for i in range(cnt):
            tag, pr, nm, nx, lk, at, q = struct.unpack_from('<IIIIIIQ', b, 20 + i * 32)
            if max(nx, lk, at) >= FIRST + cnt or (nm and not base <= nm < base + nsz):
                raise Bad('declaration %d refers outside the image' % (FIRST + i))
            s = names[nm - base:names.index(b'\0', nm - base)].decode('latin-1') if nm else ''
            self.n[FIRST + i] = (tag, pr, s, nx, lk, at, q)
        if cnt and self.root != FIRST:
            raise Bad('root is %d' % self.root)

    def chain(self, i):
        out, seen = [], set()
        while i:
            if i < FIRST or i in seen or len(out) > 1000000:
                raise Bad('list through %d' % i)
            out.append(i)
            seen.add(i)
            i = self.n[i][3]
        return out


class N:
    """expected declaration; link: None, builtin number, N (a type of its own) or Ref; kids/attrs: lists of N"""

    def __init__(self, tag, name='', pr='', qty=0, link=None, kids=None, attrs=None, text=''):
        self.tag, self.name, self.pr, self.qty, self.link, self.text = tag, name, props(pr), qty, link, text
        self.kids = kids if kids is not None else []
        self.attrs = attrs or []


class Ref:
    """any one of these declarations"""

    def __init__(self, to):
        self.to = to


class Own:
    """a declaration in no list, reached only through types: the same one wherever it is named"""

    def __init__(self, n):
        self.n = n


class Matcher:
    def __init__(self, img):
        self.i, self.map, self.back = img, {}, {}
        self.err = None

    def bad(self, path, s):
        if self.err is None:
            self.err = '%s: %s' % ('/'.join(path), s)
        return False

    def lists(self, a, e, path):
        """pair the declarations of lists, before references are followed"""
        try:
            al = self.i.chain(a)
        except Bad as x:
            return self.bad(path, str(x))
        def show(l): return ' '.join('%s:%s' % (TAGS[self.i.n[x][0]] if self.i.n[x][0] < len(TAGS) else '?', self.i.n[x][2] or '-') for x in l)
        if len(al) != len(e):
            k = next((k for k, (x, y) in enumerate(zip(al, e)) if TAGS[self.i.n[x][0]] != y.tag or self.i.n[x][2] != y.name), min(len(al), len(e)))
            return self.bad(path, '%d declarations, expected %d: from number %d on has [%s], expected [%s]' % (len(al), len(e), k, show(al[max(k - 1, 0):])[:200], ' '.join('%s:%s' % (x.tag, x.name or '-') for x in e[max(k - 1, 0):])[:200]) + (' -- ' + e[k].text[:200] if k < len(e) else ''))
        for x, y in zip(al, e):
            t, pr, nm, nx, lk, at, q = self.i.n[x]
            p = path + ['%s:%s' % (y.tag, y.name or '-')]
            if TAGS[t] != y.tag or nm != y.name:
                return self.bad(path, 'has [%s], expected [%s]' % (show(al)[:300], ' '.join('%s:%s' % (x.tag, x.name or '-') for x in e)[:300]))
            if x in self.back:
                return self.bad(p, 'declaration %d is in two lists' % x)
            self.map[id(y)] = x
            self.back[x] = y
            if y.tag in ('struct', 'union', 'enum', 'function', 'source'):
                if not self.lists(lk, y.kids, p):
                    return False
        return True

    def node(self, x, y, path):
        t, pr, nm, nx, lk, at, q = self.i.n[x]
        if TAGS[t] != y.tag:
            return self.bad(path, 'is %s, expected %s' % (TAGS[t], y.tag))
        if nm != y.name:
            return self.bad(path, 'is named "%s", expected "%s"' % (nm, y.name))
        if pr != y.pr:
            return self.bad(path, 'has properties %#x, expected %#x (%s)' % (pr, y.pr, ' '.join(k for k, v in PROPS.items() if (pr ^ y.pr) & v)))
        if q != y.qty:
            return self.bad(path, 'has quantity %d, expected %d' % (q, y.qty))
        al = self.i.chain(at)
        if len(al) != len(y.attrs):
            return self.bad(path, 'has attributes [%s], expected [%s]' % (' '.join(self.i.n[a][2] for a in al), ' '.join(a.name for a in y.attrs)))
        for a, b in zip(al, y.attrs):
            if not self.node(a, b, path + ['attribute ' + b.name]):
                return False
        if y.tag in ('struct', 'union', 'enum', 'function', 'source'):
            for a, b in zip(self.i.chain(lk), y.kids):
                if not self.node(a, b, path + ['%s:%s' % (b.tag, b.name or '-')]):
                    return False
            return True
        return self.link(lk, y.link, path)

    def link(self, lk, want, path):
        def show(i): return 'nothing' if not i else BUILTIN[i] if i < FIRST else '%s "%s"' % (TAGS[self.i.n[i][0]], self.i.n[i][2])
        if want is None:
            return True if lk == 0 else self.bad(path, 'refers to %s' % show(lk))
        if isinstance(want, int):
            return True if lk == want else self.bad(path, 'refers to %s, expected %s' % (show(lk), BUILTIN[want]))
        if isinstance(want, Ref):
            ok = [self.map.get(id(w)) for w in want.to]
            if lk in ok:
                return True
            return self.bad(path, 'refers to %s (%d), expected %s %s (%s)' % (show(lk), lk, want.to[0].tag, want.to[0].name, ok))
        if isinstance(want, Own):
            n = want.n
            if id(n) in self.map:
                return True if lk == self.map[id(n)] else self.bad(path, 'refers to %s (%d), expected the %s %s it had before' % (show(lk), lk, n.tag, n.name))
            if lk < FIRST or lk in self.back:
                return self.bad(path, 'refers to %s, expected a %s "%s" of its own' % (show(lk), n.tag, n.name))
            self.map[id(n)] = lk
            self.back[lk] = n
            if n.tag in ('struct', 'union', 'enum') and not self.lists(self.i.n[lk][4], n.kids, path + ['%s:%s' % (n.tag, n.name)]):
                return False
            return self.node(lk, n, path + ['->'])
        if lk < FIRST:
            return self.bad(path, 'refers to %s, expected %s "%s"' % (show(lk), want.tag, want.name))
        if lk in self.back:
            return self.bad(path, 'refers to the declaration %s, expected %s "%s"' % (show(lk), want.tag, want.name))
        return self.node(lk, want, path + ['->'])


def compare(blob, source):
    """None when the image is the expected source declaration, or what differs"""
    try:
        img = Image(blob)
        if img.n[FIRST][0] != TAG['source'] or img.n[FIRST][2] != source.name:
            return 'the root is %s "%s"' % (TAGS[img.n[FIRST][0]], img.n[FIRST][2])
        m = Matcher(img)
        m.map[id(source)] = FIRST
        m.back[FIRST] = source
        if m.lists(img.n[FIRST][4], source.kids, ['source']):
            m.node(FIRST, source, ['source'])
        return m.err
    except (Bad, ValueError, KeyError, IndexError, struct.error) as x:
        return 'bad image: %s' % x
