"""C01: integer operators against a model of C's integer semantics."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from cint import *

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^']
SHIFT = ['<<', '>>']
RELS = ['<', '>', '<=', '>=', '==', '!=', '&&', '||']
COMPOUND = ['+=', '-=', '/=', '<<=', '>>=', '^=']
NT = list(TYPES)


def values(t, deep):
    n = bits(t)
    v = {0, 1, 2, 3, -1, -2, -7, 7, 10, lo(t), lo(t) + 1, hi(t), hi(t) - 1,
         hi(t) // 2 + 1, 1 << n // 2, 100}
    if deep:
        v |= {5, -5, 13, -13, 31, 32, 63, 64, -128, 127, 128, 255, 256, -129, 32767,
              32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1,
              2**32, -2**31 - 1, hi(t) // 3, lo(t) // 3, lo(t) // 2, hi(t) - 7}
    return sorted(x for x in v if fits(t, x))


def chained(t, deep):
    v = {0, 1, -1, 7, -100, lo(t), hi(t), hi(t) // 2 + 1, 3000000000, 5000000000}
    if deep:
        v |= {2, -7, 40000, lo(t) + 1, hi(t) // 3, -3000000000, 1 << 32, 65537}
    return sorted(x for x in v if fits(t, x))


class C01(engine.Check):
    pid = 'C01'
    level = 'exploration'
    space = ('all ordered pairs of the 11 integer types x all pairs of boundary values of each '
             'type x every binary, unary, increment and compound operator bic has, and the result of each '
             'operator as an operand of every other kind of use; thorough adds '
             'every one of the 65536 operand pairs of each pair of 8-bit types and larger grids')
    rule = ('a case is (type, type, value, value); all operators defined by C for it are applied, '
            'their results stored to an object of the result type and printed')
    assumptions = ['LP64 platform, arithmetic right shift, modular narrowing (as gcc)',
                   'operators whose result C leaves undefined are not applied']

    def groups(self):
        for ta in NT:
            for tb in NT:
                vals = [(a, b) for a in values(ta, True) for b in values(tb, True)]
                for i in range(0, len(vals), 32):
                    yield [(ta, tb, a, b) for a, b in vals[i:i + 32]]
        for ta in NT:
            for tb in NT:
                vals = [('chain', ta, tb, a, b) for a in chained(ta, self.deep) for b in chained(tb, self.deep)]
                for i in range(0, len(vals), 16):
                    yield vals[i:i + 16]
        if self.deep:
            for ta in NT[:3]:
                for tb in NT[:3]:
                    for a in range(lo(ta), hi(ta) + 1):
                        for b0 in range(lo(tb), hi(tb) + 1, 64):
                            yield [(ta, tb, a, b) for b in range(b0, b0 + 64)]

    def key(self, c):
        if c[0] == 'chain':
            return 'results used further, ' + self.key(c[1:])
        return '%s a = %d, %s b = %d' % (c[0], c[2], c[1], c[3])

    def one(self, c):
        """(statements, expected line) of a case."""
        if c[0] == 'chain':
            return self.chain(*c[1:])
        ta, tb, a, b = c
        ct, pt = usual(ta, tb), promote(ta)
        s, names, want = [], [], []
        s.append('a=%s; b=%s;' % (lit(a), lit(b)))

        def put(var, t, text, r, need_exact):
            if r is None or (need_exact and not r[2]):
                return
            s.append('%s=%s;' % (var, text))
            names.append((fmt(t), var))
            want.append(str(r[1]))
        for i, op in enumerate(ARITH):
            put('k%d' % i, ct, 'a%sb' % op, binary(op, ta, a, tb, b), op in '/%')
        for i, op in enumerate(SHIFT):
            put('p%d' % i, pt, 'a%sb' % op, binary(op, ta, a, tb, b), False)
        for i, op in enumerate(RELS):
            put('i%d' % i, 'int', 'a%sb' % op, binary(op, ta, a, tb, b), True)
        put('p2', pt, '-a', unary('-', ta, a), False)
        put('p3', pt, '~a', unary('~', ta, a), False)
        put('i8', 'int', '!a', unary('!', ta, a), False)
        n = 0

        def mod(text, newval, result):
            nonlocal n
            s.append('x%d=a; y%d=%s;' % (n, n, text % ('x%d' % n)))
            names.append((fmt(ta), 'x%d' % n))
            names.append((fmt(ta), 'y%d' % n))
            want.append(str(newval))
            want.append(str(result))
            n += 1
        small = TYPES[ta][2] < 3
        if not signed(ta) or a < hi(ta) or small:
            v = conv(ta, a + 1)
            mod('++%s', v, v)
            mod('%s++', v, a)
        if not signed(ta) or a > lo(ta) or small:
            v = conv(ta, a - 1)
            mod('--%s', v, v)
            mod('%s--', v, a)
        for op in COMPOUND:
            r = binary(op[:-1], ta, a, tb, b)
            if r is None or (op == '/=' and not r[2]):
                continue
            v = conv(ta, r[1])
            mod('(%s' + op + 'b)', v, v)
        out = []
        for i in range(0, len(names), 7):
            part = names[i:i + 7]
            out.append('printf("%s ",%s);' % (' '.join(f for f, _ in part), ','.join(v for _, v in part)))
        return '\n'.join(s + out + ['printf("\\n");']), ' '.join(want) + ' '

    def chain(self, ta, tb, a, b):
        """Every operator's result as an operand of every other kind of use."""
        s, names, want = ['a=%s; b=%s;' % (lit(a), lit(b))], [], []
        n = {'k': 0, 'p': 0, 'i': 0, 'd': 0}

        def flush():
            if names:
                s.append('printf("%s ",%s);' % (' '.join(f for f, _ in names), ','.join(v for _, v in names)))
                del names[:]
                n.update(k=0, p=0, i=0, d=0)

        def put(cls, t, text, v):
            if len(names) == 7:
                flush()
            var = '%s%d' % (cls, n[cls])
            n[cls] += 1
            s.append('%s=%s;' % (var, text))
            names.append((fmt(t) if cls != 'd' else '%.0f', var))
            want.append(str(v) if cls != 'd' else '%.0f' % v)
        for op in ARITH + SHIFT + ['-u', '~u']:
            if op[1:] == 'u':
                r, text, cls = unary(op[0], ta, a), '(%sa)' % op[0], 'p'
            else:
                r, text = binary(op, ta, a, tb, b), '(a%sb)' % op
                cls = 'p' if op in SHIFT else 'k'
            if r is None or not r[2]:
                continue
            t, v = r[0], r[1]
            for q, u, flip in (('/', 7, 0), ('%', 5, 0), ('>>', 1, 0), ('<', 3, 0), ('>', -1, 0), ('>=', 9, 1), ('/', 9, 1), ('==', 0, 0),
                               ('&&', 1, 0), ('||', 0, 1), ('&', 6, 0), ('-', 1, 0)):
                x = binary(q, 'int', u, t, v) if flip else binary(q, t, v, 'int', u)
                if x is None or not x[2]:
                    continue
                e = '(%d)%s%s' % (u, q, text) if flip else '%s%s(%d)' % (text, q, u)
                put(cls if x[0] == t and x[0] != 'int' else 'i' if x[0] == 'int' else cls, x[0], e, x[1])
            x = unary('-', t, v)
            if x and x[2]:
                put(cls, t, '-' + text, x[1])
            put('i', 'int', '!' + text, int(not v))
            put('i', 'int', text + '?4:9', 4 if v else 9)
            put('d', 'double', text, float(v))
            put(cls, t, 'f%s%s' % (cls, text), v)
        flush()
        return '\n'.join(s + ['printf("\\n");']), ''.join(w + ' ' for w in want)

    def request(self, cases):
        if cases[0][0] == 'chain':
            ta, tb = cases[0][1:3]
            k, p = usual(ta, tb), promote(ta)
            t = 'int printf(const char *f, ...);\n%s fk(%s x) { return x; }\n%s fp(%s x) { return x; }\nint main()\n{\n' % (k, k, p, p)
            t += '%s a; %s b;\n' % (ta, tb) + ''.join('%s %s;\n' % (y, ','.join('%s%d' % (x, i) for i in range(7)))
                                                     for x, y in (('k', k), ('p', p), ('i', 'int'), ('d', 'double')))
            return 'script', dict(text=t + '\n'.join(self.one(c)[0] for c in cases) + '\nreturn 0;\n}\n')
        ta, tb = cases[0][:2]
        t = 'int printf(const char *f, ...);\nint main()\n{\n'
        t += '%s a; %s b;\n%s %s;\n%s %s;\nint %s;\n%s %s;\n' % (
            ta, tb, usual(ta, tb), ','.join('k%d' % i for i in range(8)),
            promote(ta), ','.join('p%d' % i for i in range(4)),
            ','.join('i%d' % i for i in range(9)),
            ta, ','.join('x%d,y%d' % (i, i) for i in range(10)))
        return 'script', dict(text=t + '\n'.join(self.one(c)[0] for c in cases) + '\nreturn 0;\n}\n')

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = ''.join(self.one(c)[1] + '\n' for c in cases)
        if res.out == want:
            return None
        for c, g in zip(cases, res.out.split('\n')):
            w = self.one(c)[1]
            if g != w:
                return '%s: expected %r, got %r' % (self.key(c), w, g)
        return 'expected %r, got %r' % (want, res.out)


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C01)))
