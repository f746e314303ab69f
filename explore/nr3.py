"""P33: scripts/ISO-6093-NR3.pl accepts exactly the documented languages and prints the parts of what it accepts"""
import itertools, os, subprocess

DIGITS = '0123456789'


def strip_digits(s, i):
    j = i
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return s[i:j], j


def model(mode, s):
    """what is printed for s: a hand-written recognizer of the two languages"""
    intg, i = strip_digits(s, 0)
    if i >= len(s) or s[i] != '.':
        return ''
    frac, i = strip_digits(s, i + 1)
    exp = ''
    if i < len(s):
        if s[i] not in 'eE':
            return ''
        sign = ''
        if i + 1 < len(s) and s[i + 1] in ('+-' if mode == 'relaxed' else '-'):
            sign = s[i + 1]
            i += 1
        num, i = strip_digits(s, i + 1)
        if not num or i != len(s):
            return ''
        exp = sign + num
        if mode == 'strict' and num != '0' and num[0] == '0':
            return ''
    if mode == 'strict':
        if not intg or not frac:
            return ''
        if intg != '0' and intg[0] == '0' or frac != '0' and frac[-1] == '0':
            return ''
    return '{ integer:%s fraction:%s exponent:%s }\n' % (intg, frac, exp)


DRIVER = r'''
use strict;
BEGIN { *CORE::GLOBAL::exit = sub { die "exit " . ($_[0] // 0) . "\n" }; }
my $script = shift @ARGV;
my @in = <STDIN>;
for my $l (@in) {
    chomp $l;
    my ($mode, $hex) = split / /, $l, 2;
    @ARGV = ($mode, pack('H*', $hex));
    my $out = '';
    {
        open(my $save, '>&', \*STDOUT); close(STDOUT);
        open(STDOUT, '>', \$out);
        undef $@;
        do $script;
        close(STDOUT);
        open(STDOUT, '>&', $save); close($save);
    }
    my $err = $@ && $@ !~ /^exit 0$/ ? 1 : 0;
    print "$err ", unpack('H*', $out), "\n";
}
'''


def run(r):
    unit = 'nr3'
    if r.only_unit and r.only_unit != unit:
        return
    script = os.path.join(r.repo, 'scripts', 'ISO-6093-NR3.pl')
    d = r.scratch('nr3')
    drv = os.path.join(d, 'driver.pl')
    open(drv, 'w').write(DRIVER)

    def spaces():
        n = 6 if r.thorough else 5
        for k in range(n + 1):
            for t in itertools.product('01.eE+-\n', repeat=k):
                yield ''.join(t)
        for k in range(n + 1, n + 3):
            for t in itertools.product('01.e-', repeat=k):
                yield ''.join(t)
        # every octet, alone and in every place of a number
        for c in range(1, 256):
            c = bytes([c]).decode('latin-1')
            base = '10.25e-30'
            yield c
            for i in range(len(base) + 1):
                yield base[:i] + c + base[i:]
                yield base[:i] + c + base[i + 1:]
        # every digit in every place, and long ones
        for dg in DIGITS:
            for shape in ('%s.0', '0.%s', '1.5e%s', '1.5e-%s', '%s1.2', '1.2%s', '1%s.%s3e%s'):
                yield shape.replace('%s', dg)
        for n in (1, 9, 10, 11, 100, 255, 256, 1000, 5000):
            for a, b, c in itertools.product(('1', '0', '9'), repeat=3):
                yield a * n + '.5'
                yield '5.' + b * n
                yield '5.5e' + c * n
                yield a * n + '.' + b * n + 'e' + c * n

    cases = [(m, s) for s in spaces() for m in ('relaxed', 'strict')]
    if r.only:
        cases = [c for c in cases if repr(c) == r.only]
    jobs = max(1, min(8, len(cases) // 500))
    procs = []
    for j in range(jobs):
        part = cases[j::jobs]
        f = os.path.join(d, 'in%d' % j)
        with open(f, 'w') as o:
            for m, s in part:
                o.write('%s %s\n' % (m, s.encode('latin-1').hex()))
        out = open(os.path.join(d, 'out%d' % j), 'w')
        procs.append((part, out.name, subprocess.Popen(['perl', drv, script], stdin=open(f), stdout=out, stderr=subprocess.DEVNULL, env=r.env, cwd=d)))
    bad = 0
    accepted = 0
    for part, out, p in procs:
        p.wait()
        rows = open(out).read().splitlines()
        for (m, s), row in itertools.zip_longest(part, rows, fillvalue='? ') if len(rows) <= len(part) else zip(part, rows):
            r.add('transitions')
            err, _, hx = row.partition(' ')
            want = model(m, s)
            accepted += bool(want)
            got = bytes.fromhex(hx).decode('latin-1') if err != '?' else '(no answer)'
            if err != '0' or got != want:
                bad += 1
                if bad <= 20:
                    r.violation(unit, repr((m, s)), '%s %r prints %r, expected %r' % (m, s[:60], got[:80] if err == '0' else 'an error', want[:80]))
    r.add('states', len(cases)); r.add('accepted', accepted)

    # the driver stands for the command line: the same as processes of their own
    for i, (m, s) in enumerate([(m, s) for s in ['', '1', '.', '1.', '.5', '1.0', '0.0', '01.5', '1.50', '1.5e5', '1.5E-5', '1.5e+5', '1.5e05', '1.5e', 'x', ' 1.5', '1.5 ', '1.5\n', '-1.5', '1.5e-0', '10.01e10'] for m in ('relaxed', 'strict')]):
        key = 'process %r' % ((m, s),)
        if r.only and r.only != key:
            continue
        p = subprocess.run(['perl', script, m, s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env, cwd=d)
        r.add('traces')
        if p.returncode or p.stdout.decode('latin-1') != model(m, s):
            r.violation(unit, key, 'exit %d, prints %r, expected %r' % (p.returncode, p.stdout[:80], model(m, s)))
    for args in ([], ['loose', '1.0'], ['Strict', '1.0'], ['', '1.0'], ['1.0'], ['strictly', '1.0'], ['relaxed ', '1.0']):
        key = 'refused %r' % (args,)
        if r.only and r.only != key:
            continue
        p = subprocess.run(['perl', script] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env, cwd=d)
        r.add('traces')
        if p.returncode == 0 or p.stdout or b'usage' not in p.stderr:
            r.violation(unit, key, 'exit %d, prints %r' % (p.returncode, p.stdout[:80]))
    r.sample('nr3: strict 10.01e10 -> ' + model('strict', '10.01e10').strip())
    r.units.append(dict(unit=unit))
