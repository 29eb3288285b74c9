"""C03: conversions on stores, initialisers, parameters, returns and casts."""
import itertools, os, struct, sys
from decimal import Decimal, getcontext
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from cint import *

getcontext().prec = 200

NT = list(TYPES)
FL = ['float', 'double', 'long double']
LD = 'long double'    # its values are Fractions: 64 bits of significand hold all of them
ALL = NT + FL


def f32(v):
    return struct.unpack('f', struct.pack('f', v))[0]


def convert(d, v):
    """v (int, or float) converted to d; None if C doesn't define it."""
    if d == LD:
        return Fraction(v)
    if d == 'double':
        return float(v)
    if d == 'float':
        if not isinstance(v, float):
            # correctly rounded once, not through double
            x = Fraction(v)
            best = f32(float(v))
            for c in (nextf(best, -1), best, nextf(best, 1)):
                da, db = abs(Fraction(c) - x), abs(Fraction(best) - x)
                if da < db or (da == db and even(c) and not even(best)):
                    best = c
            return best
        return f32(v)
    if not isinstance(v, int):
        t = int(v)
        return t if fits(d, t) else None
    return conv(d, v)


def even(f):
    return struct.unpack('I', struct.pack('f', f))[0] % 2 == 0


def nextf(f, s):
    i = struct.unpack('i', struct.pack('f', abs(f)))[0]
    s = s if f >= 0 else -s
    i = max(0, i + s)
    r = struct.unpack('f', struct.pack('i', i))[0]
    return -r if f < 0 else r


def ffmt(t):
    return {'float': '%.9g', 'double': '%.17g', LD: '%.60Lf'}.get(t) or fmt(t)


def show(t, v):
    if t == LD:
        return format((Decimal(v.numerator) / v.denominator).quantize(Decimal(1).scaleb(-60)), 'f')
    return ffmt(t) % v if t in FL else str(v)


FVALS = [0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 1.9, -1.9, 2.25, 100.75, -100.75, 127.9, -128.0, 128.5, 255.99, 256.5,
         32767.5, -32768.75, 65535.5, 2147483647.0, -2147483648.0, 2147483648.5, 4294967295.75,
         10000000000.0, -10000000000.5, 9007199254740991.0, 0.1, 0.3, -0.7, 3.14159265358979,
         123456789.125, 16777217.0, 9007199254740993.0, 1152921504606846976.0,
         4611686018427387904.0, 9223372036854775808.0, 13835058055282163712.0, 18446742974197923840.0, -9223372036854775808.0,
         6917529027641081856.0, 12682136550675316736.0]


# near the middle between two floats (where rounding to double first gives
# another float) and between two doubles
TIES = sorted({s * ((1 << p) + h * (1 << p - n) + e) for n in (24, 53) for p in range(n + 1, 64) for h in (1, 3) for e in (-1, 0, 1) for s in (-1, 1)})
TIES = [v for v in TIES if v >= -1 << 63]


def values(t, deep):
    if t in FL:
        x = {convert(t, v) for v in FVALS}
        if t != 'float':
            x |= {convert(t, v) for v in TIES if deep or abs(v) >> 53}
        return sorted(x)
    n = bits(t)
    if n == 8:
        return list(range(lo(t), hi(t) + 1))
    if n == 16 and deep:
        return list(range(lo(t), hi(t) + 1))
    v = set()
    for p in (0, 7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 47, 53, 54, 62, 63, 64):
        for x in (-1, 0, 1):
            v |= {(1 << p) + x, -(1 << p) + x}
    v |= {0x55, 0xaa, 0x5555, 0xaaaa, 0x55555555, 0xaaaaaaaa, 0x0102030405060708, -0x0102030405060708,
          0x80818283, 0x8081828384858687, 0xfffefdfcfbfaf9f8, 100, 200, 300, 1000, 40000, 70000, 16777217, 16777219}
    v |= {x for x in TIES if deep or (x if x > 0 else ~x).bit_length() in (32, 54, 55, 56, 61, 63, 64)}
    if deep:
        for p in range(3, 64):
            v |= {(1 << p) + (1 << p - 2), -(1 << p) - 5, (1 << p) + 3}
    return sorted(x for x in v if fits(t, x))


def const(v):
    if v == int(v) and (isinstance(v, int) or isinstance(v, Fraction)):
        return lit(int(v))
    v = float(v)
    s = format(__import__('decimal').Decimal(v), 'f')
    return s if '.' in s else s + '.0'


def wide(t):
    return t if t in FL else 'unsigned long' if t.startswith('unsigned l') else 'long'


def ident(t):
    return t.replace(' ', '_')


POINTERS = ['char *', 'int *', 'void *', 'struct q *', 'long **', 'double *']


class C03(engine.Check):
    pid = 'C03'
    level = 'exploration'
    space = ('all ordered pairs of the 14 arithmetic types x all values of 8-bit types and boundary '
             'values of the others, those next to the middle between two floats or doubles among them (thorough: all values of 16-bit types) x 14 places a conversion happens; 6 types of pointer x the values of unsigned long x casts to all integer types and to the other pointers, and back')
    rule = 'a case is (source type, destination type, value); each place prints the object received'
    assumptions = ['conversions of floating values out of range are undefined and left out',
                   'IEEE-754, round to nearest']

    def groups(self):
        for s in ALL:
            for d in ALL:
                vs = [v for v in values(s, self.deep) if convert(d, v) is not None]
                for i in range(0, len(vs), 16):
                    yield [(s, d, v) for v in vs[i:i + 16]]
        # addresses of every value
        vs = values('unsigned long', self.deep)
        for s in POINTERS:
            for i in range(0, len(vs), 16):
                yield [(s, '', v) for v in vs[i:i + 16]]

    def key(self, c):
        return '%s <- %s %s' % (c[1], c[0], const(c[2]))

    def stats(self, cases):
        return len(cases) * 17, len(cases) * 17

    def pointer(self, s, v):
        """The address v of type s: cast to all integers, in several places, and through all pointers."""
        out, want = ['l = %s; p = (%s) l; g = p; *pp = (%s)%s;' % (const(v), s, s, const(v))], []

        def p(f, e, w):
            out.append('printf("%s\\n", %s);' % (f, e))
            want.append(w)
        for d in NT:
            r = show(d, conv(d, v))
            p(fmt(d), '(%s)p' % d, r)
            n = 'v_' + ident(d)
            out.append('%s = (%s)g; a_%s[1] = (%s) *pp;' % (n, d, ident(d), d))
            p(fmt(d), n, r)
            p(fmt(d), 'a_%s[1]' % ident(d), r)
            p('%%d %s' % fmt(d), 'f_%s(p) == (%s)p, f_%s(q)' % (ident(d), d, ident(d)), '1 ' + r)
        for d in POINTERS:
            p('%lu', '(unsigned long)(%s)p' % d, str(v))
            p('%d', '(%s)(%s)p == g' % (s, d), '1')
            p('%d', '(%s)(%s)g == 0' % (s, d), str(int(v == 0)))
        p('%d %d %d', '!p, p ? 1 : 2, p == q', '%d %d 1' % (v == 0, 1 if v else 2))
        return '\n'.join(out), ''.join(x + '\n' for x in want)

    def pointers(self, cases):
        s = cases[0][0]
        t = 'int printf(const char *f, ...);\nstruct q { int l; int x; };\n%s g;\n' % s
        for d in NT:
            t += '%s f_%s(%s p) { return (%s)p; }\n%s v_%s; %s a_%s[3];\n' % (d, ident(d), s, d, d, ident(d), d, ident(d))
        t += 'int main()\n{\nunsigned long l; %s p; %s q; %s *pp; pp = &q;\n' % (s, s, s)
        return t + '\n'.join(self.one(c)[0] for c in cases) + '\nreturn 0;\n}\n'

    def one(self, c):
        s, d, v = c
        if s in POINTERS:
            return self.pointer(s, v)
        r = convert(d, v)
        k = const(v)
        F = ffmt(d)
        R = show(d, r)
        w = wide(d)
        W = show(w, convert(w, r))
        out, want = [], []

        def p(stmt, *items):
            out.append('%s printf("%s\\n",%s);' % (stmt, ' '.join(i[0] for i in items), ','.join(i[1] for i in items)))
            want.append(' '.join(i[2] for i in items))
        p('s=%s; d=s; g=s; *p=s; w=(d2=s);' % k, (ffmt(s), 's', show(s, v)), (F, 'd', R), (F, 'g', R), (F, 'd3', R), (F, 'd2', R), (ffmt(w), 'w', W))
        p('a[0]=fill; a[2]=fill; a[1]=s; m.l=-1; m.r=-1; m.x=s;', (F, 'a[1]', R), (F, 'm.x', R), ('%d', 'm.l', '-1'), ('%d', 'm.r', '-1'),
          (F, 'a[0]', show(d, convert(d, 85))), (F, 'a[2]', show(d, convert(d, 85))))
        p('m.l=0; m.r=0; a[0]=0; a[2]=0; u.b[0]=-1; u.b[1]=-1; u.x=s;', (F, 'a[1]', R), (F, 'm.x', R), (F, 'u.x', R))
        p('{ D e = s; D e2 = %s; static D e3; e3 = s;'.replace('D', d) % k, (F, 'e', R), (F, 'e2', R), (F, 'e3', R))
        out[-1] += '}'
        p('d=pass(s); d2=ret(s); d3=pass(%s); w=pass(s);' % k, (F, 'd', R), (F, 'd2', R), (F, 'd3', R), (ffmt(w), 'w', W))
        p('', (F, '(%s)s' % d, R), (F, '(%s)%s' % (d, k if k[0] != '-' else '(' + k + ')'), R))
        p('d=(%s)s; w=(%s)s; d2=%s; d3=d4=s;' % (d, d, k), (F, 'd', R), (ffmt(w), 'w', W), (F, 'd2', R), (F, 'd3', R), (F, 'd4', R))
        p('d=fp(s); ap[1]=&d2; *ap[1]=s; pm=&m; pm->x=s;', (F, 'd', R), (F, 'd2', R), (F, 'm.x', R))
        return '\n'.join(out), ''.join(x + '\n' for x in want)

    def request(self, cases):
        s, d, _ = cases[0]
        if s in POINTERS:
            return 'script', dict(text=self.pointers(cases))
        w = wide(d)
        t = ('int printf(const char *f, ...);\nD g;\nD pass(D x) { return x; }\nD ret(S x) { return x; }\n'
             'struct q { int l; D x; int r; };\nunion un { long b[2]; D x; };\n'
             'int main()\n{\nS s; D d; D d2; D d3; D d4; W w; D *p; D a[3]; D fill; D *ap[2]; struct q m; struct q *pm; union un u;\n'
             'D (*fp)(D);\nfp = pass; fill=85; p=&d3;\n')
        t = t.replace('D ', d + ' ').replace('S s', s + ' s').replace('(S x', '(' + s + ' x').replace('W w', w + ' w').replace('(D)', '(' + d + ')')
        return 'script', dict(text=t + '\n'.join(self.one(c)[0] for c in cases) + '\nreturn 0;\n}\n')

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = ''.join(self.one(c)[1] for c in cases)
        if res.out == want:
            return None
        for i, (x, y) in enumerate(zip(want.split('\n'), res.out.split('\n'))):
            if x != y:
                return 'line %d: expected %r, got %r' % (i + 1, x, y)
        return 'expected %r, got %r' % (want, res.out)


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C03)))
