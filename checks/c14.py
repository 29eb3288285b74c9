"""C14: enumeration constants have the values C assigns.

All lists of up to 4 enumerators over 16 kinds of initialiser, in every place an
enumeration can be declared. Every constant is then used in expressions,
conditions, array sizes, calls, returns, comparisons and objects of the type,
also after the scope was left, shadowed and entered again.
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

# initialisers: text (@p: the previous constant, @0: the first, @x: a constant from outside)
INIT = {
    'n': None, '0': '0', '1': '1', '7': '7', 'm': '-3', 'h': '0x1f', 's': '1 << 4', 'p': '@p', 'a': '@p + 2', 'z': '-@0',
    'c': "'a'", 'e': '(2 + 3) * 4 - 1', 't': '~@p', 'o': 'OUT', 'b': '1000000', 'd': '-17 / 5', 'l': '@p > 2', 'r': '-9 % 4',
    'x': '@p | 64', 'y': '(@p & 6) ^ 1', 'u': '-9 >> 1', 'q': '!@p', 'B': '2147483646', 'M': '-2147483647', 'O': '010',
    'w': '@p == @0', 'k': '@0 * @p', 'v': '@p && @0', 'i': '(int) 300', 'j': '(char) 300', 'S': 'sizeof(int)', 'P': '@p ? 3 : 4'}
FEW = '07mnpoa'
MID = '017nmhpaztobelxd'
PLACES = ['file', 'block', 'typedef', 'static', 'member', 'ptypedef', 'inner', 'for', 'loop', 'recursive', 'nested', 'shadow', 'comma',
          'global', 'union', 'fnret', 'array']


def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def values(kinds, out):
    """The values of a list of initialisers; None if C doesn't define them."""
    vs = []
    for i, k in enumerate(kinds):
        p = vs[-1] if vs else out
        z = vs[0] if vs else out
        v = {'n': (vs[-1] + 1) if vs else 0, '0': 0, '1': 1, '7': 7, 'm': -3, 'h': 31, 's': 16, 'p': p, 'a': p + 2, 'z': -z, 'c': 97,
             'e': 19, 't': ~p, 'o': out, 'b': 1000000, 'd': -3, 'l': int(p > 2), 'r': -1, 'x': p | 64, 'y': (p & 6) ^ 1, 'u': -5,
             'q': int(not p), 'B': 2147483646, 'M': -2147483647, 'O': 8, 'w': int(p == z), 'k': z * p, 'v': int(bool(p) and bool(z)),
             'i': 300, 'j': 44, 'S': 4, 'P': 3 if p else 4}[k]
        if not -2 ** 31 <= v < 2 ** 31:
            return None
        vs.append(v)
    return vs


PRE = '''int printf(const char *f, ...);
enum { OUT = 41 };
int id(int x) { return x; }
int g;
int arr[64];
'''


class C14(engine.Check):
    pid = 'C14'
    rule = ('a case is a list of enumerators (by kind of initialiser) and a place; the program declares it, prints every constant, '
            'and uses them in every kind of expression and statement; the model computes what C prints')
    space = ('16 kinds of place x all lists of length 1..2 of 32 initialiser kinds, 3 of 7, and 4 of 4 (thorough: 3 of 16, 4 of 7); all lists of length 3 of 16 '
             'at file scope')
    assumptions = ['an enumeration without negative constants has an unsigned type (as gcc)']

    def groups(self):
        g = []

        def lists(place):
            for k in (1, 2):
                yield from itertools.product(INIT, repeat=k)
            yield from itertools.product(INIT if self.deep and place == 'file' else MID if self.deep or place == 'file' else FEW, repeat=3)
            yield from itertools.product(FEW if self.deep else FEW[:4], repeat=4)
        for pl in PLACES:
            for tag in (0, 1):
                for l in lists(pl):
                    if tag and len(l) > 2 and l[2] not in FEW:
                        continue
                    if values(l, 41) is None or l[0] in 'paztlxyqwkvP':
                        continue
                    g.append((pl, tag, ''.join(l)))
                    if len(g) == 40:
                        yield g
                        g = []
            if g:
                yield g
            g = []

    def key(self, c):
        return '%s enum%s { %s } at %s' % ('', ' e' if c[1] else '', ', '.join(
            'A%d%s' % (i, ' = ' + INIT[k] if INIT[k] else '') for i, k in enumerate(c[2])), c[0])

    def spec(self, j, c, base='A'):
        """Text of the enum specifier."""
        pl, tag, ks = c
        ns = ['%s%d_%d' % (base, j, i) for i in range(len(ks))]
        es = []
        for i, k in enumerate(ks):
            t = INIT[k]
            if t:
                t = t.replace('@p', ns[i - 1]).replace('@0', ns[0])
            es.append(ns[i] + (' = ' + t if t else ''))
        return 'enum %s{ %s%s }' % ('e%d ' % j if tag else '', ', '.join(es), ',' if pl == 'comma' else ''), ns

    def uses(self, ns, vs, ty):
        """Statements that use the constants, and what they print."""
        s, o = '', []
        s += 'printf("%s\\n", %s);\n' % (' '.join('%d' for _ in ns), ', '.join(ns))
        o.append(' '.join(map(str, vs)))
        a, b = ns[-1], ns[0]
        va, vb = vs[-1], vs[0]
        fit = abs(va) < 10 ** 6 + 1 and abs(vb) < 10 ** 6 + 1
        if fit:
            s += 'printf("%%d %%d %%d %%d\\n", %s * 2 + %s - 7, -%s, %s - %s - 100 < 0, %s + id(%s));\n' % (a, b, a, a, b, a, b)
            o.append('%d %d %d %d' % (va * 2 + vb - 7, -va, va - vb - 100 < 0, va + vb))
            s += 'printf("%%d %%d\\n", (%s - 50) / 3, %s < %s - 1);\n' % (a, a, b)
            o.append('%d %d' % (cdiv(va - 50, 3), va < vb - 1))
        s += 'if (%s) printf("y%%d", %s > 3 ? 1 : 2); else printf("n%%d", %s && 1);\n' % (a, a, a)
        s += 'if (%s == %s) printf("e"); printf(" %%d %%d\\n", !%s, ~%s);\n' % (a, b, a, a)
        o.append(('y%d' % (1 if va > 3 else 2) if va else 'n0') + ('e' if va == vb else '') + ' %d %d' % (not va, ~va))
        s += 'printf("%%d %%d\\n", (int) sizeof(%s), id(%s));\n' % (ty, a)
        o.append('4 %d' % va)
        neg = min(vs) < 0
        s += '{ %s v; %s w = %s; v = %s; printf("%%d %%d %%d %%d %%d", v, w, v == %s, (int) sizeof(v), v >> 1);\n' % (ty, ty, b, a, a)
        o.append('%d %d 1 4 %d' % (va, vb, va >> 1))
        if abs(va) < 10 ** 6:
            s += 'v++; printf(" %d", v); v = v - 1;'
            o[-1] += ' %d' % (va + 1)
        s += ' g = v; printf(" %%d %%d %%d\\n", g, id(v), (long) v == %s); }\n' % a
        o[-1] += ' %d %d 1' % (va, va)
        if 0 <= va < 60:
            s += '{ int q[%s + 1]; q[%s] = 5; arr[%s] = 9; printf("%%d %%d %%d ", (int) sizeof(q), q[%s], arr[%s]); arr[%s] = 0;\n' % (
                a, a, a, a, a, a)
            s += 'int i; int n = 0; for (i = 0; i < %s; i++) n += i; while (n > %s) n--; printf("%%d\\n", n); }\n' % (a, a)
            n = va * (va - 1) // 2
            o.append('%d 5 9 %d' % (4 * (va + 1), min(n, va)))
        return s, '\n'.join(o) + '\n'

    def fragment(self, j, c):
        """(file-scope text, calls in main, output)"""
        pl, tag, ks = c
        sp, ns = self.spec(j, c)
        vs = values(ks, 41)
        ty = 'enum e%d' % j if tag else 'int'
        u, o = self.uses(ns, vs, ty)
        f = 'int f%d() {\n%s\nreturn %s; }\n'
        one = 'printf("r%%d\\n", f%d());\n' % j
        r = 'r%d\n' % vs[-1]
        if pl in ('file', 'comma'):
            return sp + ';\n' + f % (j, u, ns[-1]), one, o + r
        if pl == 'block':
            return f % (j, sp + ';\n' + u, ns[-1]), one * 2, (o + r) * 2
        if pl == 'typedef':
            u, o = self.uses(ns, vs, 't%d' % j)
            return 'typedef %s t%d;\n' % (sp, j) + f % (j, u, ns[-1]), one, o + r
        if pl == 'static':
            return (f % (j, 'static %s s;\n s++; printf("s%%d ", s);\n' % sp + u, ns[-1]), one * 2,
                    's1 ' + o + r + 's2 ' + o + r)
        if pl == 'member':
            return ('struct s%d { char c; %s m; } x%d;\n' % (j, sp, j) +
                    f % (j, 'struct s%d y; y.m = %s; x%d.m = y.m; printf("%%d %%d ", x%d.m, (int) sizeof(y));\n' % (j, ns[-1], j, j) + u,
                         'x%d.m' % j), one, '%d 8 ' % vs[-1] + o + r)
        if pl == 'union':
            return (f % (j, 'union { %s m; char c[4]; } y; y.m = %s; printf("%%d %%d ", y.c[0] & 255, (int) sizeof(y));\n' % (sp, ns[-1])
                         + u, ns[-1]), one, '%d 4 ' % (vs[-1] & 255) + o + r)
        if pl == 'ptypedef':
            u, o = self.uses(ns, vs, ty)
            return ('typedef %s *t%d;\n' % (sp, j) +
                    f % (j, '%s v; t%d p; p = &v; *p = %s; printf("%%d ", v);\n' % (ty, j, ns[-1]) + u, ns[-1]), one,
                    '%d ' % vs[-1] + o + r)
        if pl == 'inner':
            return f % (j, 'int k = 3;\nif (k) {\n%s;\n{\n%s\ng = %s; } }\n' % (sp, u, ns[-1]), 'g'), one * 2, (o + r) * 2
        if pl == 'for':
            return (f % (j, 'int k;\nfor (k = 0; k < 2; k++) {\n%s v = %s;\n%sg = v; }\n' % (sp, ns[0], u), 'g'), one,
                    o * 2 + 'r%d\n' % vs[0])
        if pl == 'loop':
            return f % (j, 'int k = 3;\nwhile (k--)\n{\n%s;\n%sif (k == 1) break;\ng = %s; }\n' % (sp, u, ns[-1]), 'g'), one, o * 2 + r
        if pl == 'recursive':
            return ('int f%d(int n) {\n%s;\nif (n) printf("r%%d\\n", f%d(n - 1));\n%sreturn %s - n; }\n' % (j, sp, j, u, ns[-1]),
                    'printf("r%%d\\n", f%d(2));\n' % j,
                    ''.join(o + 'r%d\n' % (vs[-1] - n) for n in range(3))) if abs(vs[-1]) < 10 ** 7 else ('', '', '')
        if pl == 'nested':
            # the constants are hidden by others for the duration of a block
            hid = '{ enum { %s }; printf("%s ", %s); }\n' % (', '.join('%s = %d' % (n, 500 - i) for i, n in enumerate(ns)),
                                                             ' '.join('%d' for _ in ns), ', '.join(ns))
            ho = ' '.join(str(500 - i) for i in range(len(ns))) + ' '
            return (sp + ';\n' + f % (j, hid + u + '{ int %s = 4; printf("%%d ", %s + 1); }\n' % (ns[-1], ns[-1]) + hid, ns[-1]), one,
                    ho + o + '5 ' + ho + r)
        if pl == 'shadow':
            # declared over a list of the same names at file scope, whose constants are visible until they are declared
            out = 'enum { %s };\n' % ', '.join('%s = %d' % (n, 10 + i) for i, n in enumerate(ns))
            es, cur, v2 = [], {n: 10 + i for i, n in enumerate(ns)}, []
            for i, n in enumerate(ns):
                m = ns[(i + 1) % len(ns)]
                if ks[i] in '0n':
                    es.append('%s = %s + %s' % (n, m, n))
                    v = cur[m] + cur[n]
                elif ks[i] == '7':
                    es.append('%s = 7' % n)
                    v = 7
                elif i:
                    es.append(n)
                    v = v2[-1] + 1
                else:
                    es.append('%s = -%s' % (n, n))
                    v = -cur[n]
                cur[n] = v
                v2.append(v)
            u2, o2 = self.uses(ns, v2, 'int')
            pr = 'printf("%s\\n", %s);\n' % (' '.join('%d' for _ in ns), ', '.join(ns))
            po = ' '.join(str(10 + i) for i in range(len(ns))) + '\n'
            return (out + f % (j, pr + '{ enum { %s };\n%s }\n' % (', '.join(es), u2) + pr, ns[-1]), one * 2,
                    (po + o2 + po + 'r%d\n' % (9 + len(ns))) * 2)
        if pl == 'global':
            return (sp + ' x%d, *y%d, z%d[3];\n' % (j, j, j) +
                    f % (j, 'y%d = &x%d; *y%d = %s; z%d[2] = x%d; printf("%%d %%d %%d ", x%d, z%d[2], (int) sizeof(z%d));\n' % (
                        j, j, j, ns[-1], j, j, j, j, j) + u, '*y%d' % j), one, '%d %d 12 ' % (vs[-1], vs[-1]) + o + r)
        if pl == 'fnret':
            return ('%s%s;\n%s h%d(%s x) { if (x == %s) return %s; return x; }\n' % ('', sp, ty, j, ty, ns[0], ns[-1]) +
                    f % (j, u, 'h%d(%s)' % (j, ns[0])), one, o + r)
        if pl == 'array':
            # sizes of arrays at file scope and of members
            k = [n for n, v in zip(ns, vs) if 0 < v < 100]
            if not k:
                return '', '', ''
            k, v = k[-1], [v for v in vs if 0 < v < 100][-1]
            return (sp + ';\nint x%d[%s]; struct s%d { char c[%s]; char d; } y%d;\n' % (j, k, j, k, j) +
                    f % (j, 'x%d[%s - 1] = 3; char z[%s * 2]; printf("%%d %%d %%d %%d ", (int) sizeof(x%d), (int) sizeof(y%d), (int) sizeof(z), x%d[%d]);\n' % (
                        j, k, k, j, j, j, v - 1) + u, ns[-1]), one, '%d %d %d 3 ' % (4 * v, v + 1, 2 * v) + o + r)
        raise ValueError(pl)

    def request(self, cases):
        t, m = PRE, ''
        self.want = ''
        for j, c in enumerate(cases):
            a, b, o = self.fragment(j, c)
            t += a
            m += b
            self.want += o
        return 'script', dict(text=t + 'int main()\n{\n%sreturn 0;\n}\n' % m)

    def stats(self, cases):
        n = sum(len(c[2]) * 12 for c in cases)
        return n, n

    def judge(self, cases, r):
        self.request(cases)
        if r.ended != 'exit 0':
            return 'ended with %s: %r' % (r.ended, r.err[:300])
        if r.out != self.want:
            a, b = r.out.split('\n'), self.want.split('\n')
            for i in range(max(len(a), len(b))):
                x, y = a[i] if i < len(a) else '(end)', b[i] if i < len(b) else '(end)'
                if x != y:
                    return 'line %d of the output is %r, must be %r' % (i + 1, x, y)
        return None


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C14)))
