"""Programs with a size: the same guarantees at every order of magnitude.

A check decorated with @scaled explores, besides its own space, the programs of
KINDS[its property] at all sizes of SIZES up to a limit. A kind maps a size to
(text, what it prints); the limit is far below what the program as it stands
can take, and above what anybody writes.
"""
import engine

P = 'int printf(const char *f, ...);\n'
SIZES = [1, 2, 3, 5, 7, 8, 9, 11, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025,
         1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 100000]
KINDS = {}


def kind(pid, quick, deep=None):
    def f(g):
        KINDS.setdefault(pid, {})[g.__name__.strip('_')] = (g, quick, deep or quick)
        return g
    return f


def main(body, before=''):
    return P + before + 'int main()\n{\n' + body + '\nreturn 0;\n}\n'


def wrap(v, bits, signed=True):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


# -- C01
@kind('C01', 2049, 4097)
def sums(n):
    return main('int a, b, c; a = 3; b = -5; c = 7; printf("%%d\\n", %s);' % ' '.join('%s %s' % ('+-'[i % 3 == 1] if i else '', 'abc'[i * 7 % 3]) for i in range(n))), \
        '%d\n' % sum((-1 if i and i % 3 == 1 else 1) * (3, -5, 7)[i * 7 % 3] for i in range(n))


@kind('C01', 2049, 4097)
def constants(n):
    return main('printf("%%d\\n", %s);' % '+'.join(str(i) for i in range(n))), '%d\n' % (n * (n - 1) // 2)


@kind('C01', 513, 1025)
def unaries(n):
    x = 1234
    for i in range(n):
        x = ~x if i % 3 else -x
    y = 5
    for i in range(n):
        y = int(not y)
    return main('int x, y; x = 1234; y = 5; printf("%%d %%d\\n", %s x, %s y);' % (' '.join('~' if i % 3 else '-' for i in reversed(range(n))), '!' * n)), '%d %d\n' % (x, y)


@kind('C01', 2049, 4097)
def bits(n):
    ops, x = '', 0x1234
    for i in range(n):
        v = i * 37 % 1000
        x = [x ^ v, x | v, x & ~(v & 7), x + v, x - v][i % 5]
        ops += ['x = x ^ %d;\n', 'x = x | %d;\n', 'x = x & ~(%d & 7);\n', 'x += %d;\n', 'x -= %d;\n'][i % 5] % v
    return main('long x; x = 4660;\n' + ops + 'printf("%ld\\n", x);'), '%d\n' % x


@kind('C01', 20000, 100000)
def counting(n):
    return main('unsigned char a; char b; unsigned short c; short d; int e, i; long f; a = 0; b = 0; c = 0; d = 0; e = 2147483647; e = -e; f = 0;\n'
                'for (i = 0; i < %d; i++) { a++; b--; ++c; --d; e += 3; f = f + i; }\nprintf("%%d %%d %%d %%d %%d %%ld\\n", a, b, c, d, e, f);' % n), \
        '%d %d %d %d %d %d\n' % (wrap(n, 8, False), wrap(-n, 8), wrap(n, 16, False), wrap(-n, 16), -2147483647 + 3 * n, n * (n - 1) // 2)


# -- C02
@kind('C02', 1025, 2049)
def conjunction(n):
    k = n * 2 // 3
    return main('int c; c = 0; printf("%%d ", %s); printf("%%d\\n", c);' % ' && '.join('t(&c, %d)' % (i != k) for i in range(n)), 'int t(int *c, int v) { *c = *c + 1; return v; }\n'), \
        '%d %d\n' % (k >= n, min(k + 1, n))


@kind('C02', 1025, 2049)
def disjunction(n):
    k = n * 2 // 3
    return main('int c; c = 0; printf("%%d ", %s); printf("%%d\\n", c);' % ' || '.join('t(&c, %d)' % (i == k) for i in range(n)), 'int t(int *c, int v) { *c = *c + 1; return v; }\n'), \
        '%d %d\n' % (k < n, min(k + 1, n))


@kind('C02', 513, 1025)
def conditions(n):
    e = ''.join('x == %d ? %d : ' % (i, i * i % 1009) for i in range(n)) + '-1'
    xs = sorted({0, n // 2, n - 1, n})
    return main('int x;\n' + ''.join('x = %d; printf("%%d ", %s);\n' % (x, e) for x in xs)), ''.join('%d ' % (x * x % 1009 if x < n else -1) for x in xs)


@kind('C02', 513, 1025)
def parentheses(n):
    return main('int x; x = 4; printf("%%d %%d\\n", %sx%s, %s1%s);' % ('(' * n, ')' * n, '(x - ' * n, ')' * n)), '4 %d\n' % (1 if n % 2 == 0 else 3)


@kind('C02', 2049, 4097)
def commas(n):
    return main('int x, y; x = 0; y = (%s);\nprintf("%%d %%d\\n", x, y);' % ', '.join('x = x + %d' % i for i in range(n))), '%d %d\n' % (n * (n - 1) // 2, n * (n - 1) // 2)


@kind('C02', 257, 513)
def indices(n):
    return main('int a[4]; a[0] = 2; a[1] = 3; a[2] = 1; a[3] = 0; printf("%%d\\n", %s0%s);' % ('a[' * n, ']' * n)), '%d\n' % eval_index(n)


def eval_index(n):
    x = 0
    for _ in range(n):
        x = (2, 3, 1, 0)[x]
    return x


@kind('C02', 513, 1025)
def assignments(n):
    return main('int %s;\n%s = 42;\nprintf("%%d %%d %%d\\n", v0, v%d, v%d);' % (', '.join('v%d' % i for i in range(n)), ' = '.join('v%d' % i for i in range(n)), n // 2, n - 1)), '42 42 42\n'


# -- C03
@kind('C03', 257, 513)
def casts(n):
    ts = [('char', 8, True), ('int', 32, True), ('unsigned char', 8, False), ('long', 64, True), ('unsigned short', 16, False), ('short', 16, True), ('unsigned int', 32, False)]
    seq = [ts[i * i % 7 if i % 2 else i % 7] for i in range(n)]
    v = 0x123456789
    w = v
    for t, b, s in seq:
        w = wrap(w, b, s)
    return main('long v, r; v = 4886718345; r = %sv; printf("%%ld\\n", r);' % ' '.join('(%s)' % t for t, _, _ in reversed(seq))), '%d\n' % w


@kind('C03', 1025, 4097)
def conversions(n):
    out = ''
    b = 'unsigned char a; short b; unsigned int c; long d; double e; float f; d = 77777;\n'
    d, c, f = 77777, 0, 0
    for i in range(n):
        k = i % 5
        b += ['a = d; d = a * 300 + 70000;\n', 'b = d; d = b - 40000;\n', 'c = d; d = c / 3;\n', 'e = d; d = e; d += 65537;\n', 'f = %d; d += (long) f;\n' % (i % 1000)][k]
        if k == 0:
            d = wrap(d, 8, False) * 300 + 70000
        elif k == 1:
            d = wrap(d, 16) - 40000
        elif k == 2:
            d = wrap(d, 32, False) // 3
        elif k == 3:
            d += 65537
        else:
            d += i % 1000
    return main(b + 'printf("%ld\\n", d);'), '%d\n' % d


# -- C04
@kind('C04', 129, 257)
def nested_blocks(n):
    return main('int c; c = 0;\n' + '{ c++;\n' * n + 'c += 1000;\n' + '}\n' * n + 'printf("%d\\n", c);'), '%d\n' % (n + 1000)


@kind('C04', 129, 257)
def nested_ifs(n):
    b, c = 'int c; c = 0;\n', 0
    b += ''.join('if (c == %d) { c++;\n' % i for i in range(n)) + ''.join('} else { c = -1; } c += 10;\n' for _ in range(n))
    return main(b + 'printf("%d\\n", c);'), '%d\n' % (n * 11)


@kind('C04', 257, 513)
def else_ifs(n):
    xs = sorted({0, n // 2, n - 1, n})
    t = 'if (x == 0) r = 100;\n' + ''.join('else if (x == %d) r = %d;\n' % (i, 100 + i) for i in range(1, n)) + 'else r = -1;\n'
    return main('int x, r;\nfor (x = 0; x <= %d; x++) {\nr = 0;\n%sif (%s) printf("%%d ", r);\n}' % (n, t, ' || '.join('x == %d' % x for x in xs))), ''.join('%d ' % (100 + x if x < n else -1) for x in xs)


@kind('C04', 33, 65)
def nested_loops(n):
    b = 'int c; c = 0;\n' + ''.join(('int i%d; for (i%d = 0; i%d < 1; i%d++) { c++;\n' if i % 2 else 'int i%d; i%d = 0; while (i%d < 1) { i%d++; c++;\n') % ((i,) * 4) for i in range(n)) + 'c += 100; break;\n' + '}\n' * n
    return main(b + 'printf("%d\\n", c);'), '%d\n' % (n + 100)


@kind('C04', 4097, 10000)
def statements(n):
    return main('int c; c = 1;\n' + ''.join('c = c * 3 + %d; if (c > 10000) c = c - 9973 * (c / 9973);\n' % i if i % 2 else 'c++;\n' for i in range(n)) + 'printf("%d\\n", c);'), '%d\n' % run_statements(n)


def run_statements(n):
    c = 1
    for i in range(n):
        if i % 2:
            c = c * 3 + i
            if c > 10000:
                c %= 9973
        else:
            c += 1
    return c


@kind('C04', 4097, 10000)
def top_level(n):
    return P + 'int c;\nc = 1;\n' + ''.join('c += %d;\n' % i if i % 3 else 'if (c) { c++; }\n' for i in range(n)) + 'printf("%d\\n", c);\n', '%d\n' % (1 + sum(i if i % 3 else 1 for i in range(n)))


@kind('C04', 20000, 100000)
def iterations(n):
    return main('int i, c, d; c = 0; d = 0;\nfor (i = 0; i < %d; i++) c = c + 1;\nwhile (c > 0) { c--; d++; if (d == %d) break; }\nprintf("%%d %%d %%d\\n", i, c, d);' % (n, n * 3 // 4 + 1)), \
        '%d %d %d\n' % (n, n - min(n, n * 3 // 4 + 1), min(n, n * 3 // 4 + 1))


# -- C05
@kind('C05', 129, 257)
def parameters(n):
    return main('printf("%%ld\\n", f(%s));' % ', '.join(str(i * 3 + 1) for i in range(n)), 'long f(%s) { long r; r = 0; %s return r; }\n' % (
        ', '.join('%s p%d' % (('int', 'long', 'short')[i % 3], i) for i in range(n)), ' '.join('r = r * 2 + p%d - r;' % i for i in range(n)))), '%d\n' % sum(i * 3 + 1 for i in range(n))


@kind('C05', 4097, 8193)
def recursion(n):
    return main('printf("%%d %%d\\n", f(%d), g(%d));' % (n, n), 'int f(int n) { int l; l = n * 2; if (n == 0) return 0; return f(n - 1) + (l == n * 2); }\nint h(int n);\n'
                'int g(int n) { int a; a = n; if (n > 0) { int b; b = h(n - 1); return b + a; } return 0; }\nint h(int n) { int a; a = -n; if (n > 0) { int b; b = g(n - 1); return b + a; } return 0; }\n'), \
        '%d %d\n' % (n, sum((n - i) * (1 if i % 2 == 0 else -1) for i in range(n)))


@kind('C05', 10000, 50000)
def calls(n):
    return main('int i; long r; r = 0; for (i = 0; i < %d; i++) r = r + f(i, i + 1); printf("%%ld\\n", r);' % n, 'int f(int a, int b) { int c; c = a; if (a > 5) return b - c; return c - b; }\n'), \
        '%d\n' % sum(1 if i > 5 else -1 for i in range(n))


@kind('C05', 1025, 2049)
def functions(n):
    return main('int r; r = 0;\n' + ''.join('r = r * 2 + f%d(%d) - r;\n' % (i, i) for i in range(n)) + 'printf("%d\\n", r);', ''.join('int f%d(int a) { int b; b = a + %d; return b; }\n' % (i, i % 7) for i in range(n))), \
        '%d\n' % sum(i + i % 7 for i in range(n))


@kind('C05', 129, 257)
def arguments_calls(n):
    return main('printf("%%d\\n", %s0%s);' % ('f(' * n, ', 1)' * n), 'int f(int a, int b) { return a + b; }\n'), '%d\n' % n


# -- C06
@kind('C06', 129, 257)
def nest(n):
    b = 'int x; x = 0;\n' + ''.join('{ int x; x = %d;\n' % (i + 1) for i in range(n)) + 'printf("%d ", x);\n' + ''.join('} printf("%d ", x);\n' if i in (n, n - 1, n // 2, 1) else '}\n' for i in range(n, 0, -1))
    return main(b), ''.join('%d ' % v for v in [n] + [i - 1 for i in range(n, 0, -1) if i in (n, n - 1, n // 2, 1)])


@kind('C06', 1025, 4097)
def names(n):
    return main('int %s;\n%sprintf("%%d %%d %%d\\n", v0, v%d, v%d);' % (', '.join('v%d' % i for i in range(n)), ''.join('v%d = %d + %s;\n' % (i, i, 'v%d' % (i - 1) if i else 0) for i in range(n)), n // 2, n - 1)), \
        '0 %d %d\n' % (n // 2 * (n // 2 + 1) // 2, n * (n - 1) // 2)


@kind('C06', 1025, 4097)
def file_names(n):
    return main(''.join('{ int v%d; v%d = -1; }\n' % (i, i) for i in range(0, n, max(1, n // 50))) + 'printf("%%d %%d %%d\\n", v0, v%d, v%d);' % (n // 2, n - 1), ''.join('int v%d = %d;\n' % (i, i) for i in range(n))), \
        '0 %d %d\n' % (n // 2, n - 1)


@kind('C06', 257, 513)
def callers(n):
    return main('int x; x = -1; f%d();' % (n - 1), 'int x = 5;\nvoid g() { printf("%d ", x); }\n' + ''.join('void f%d() { int x; x = %d; %s(); %s}\n' % (i, i + 10, 'f%d' % (i - 1) if i else 'g', 'printf("%d ", x); ' if i in (0, n - 1) else '') for i in range(n))), \
        '5 ' + ''.join('%d ' % (i + 10) for i in sorted({0, n - 1}))


@kind('C06', 513, 1025)
def tags(n):
    return main(''.join('struct s%d v%d; v%d.m = %d;\n' % (i, i, i, i) for i in range(n)) + 'printf("%%d %%d %%d\\n", (int)sizeof(struct s0), (int)sizeof(struct s%d), v%d.m);' % (n - 1, n - 1), ''.join('struct s%d { int m; char c[%d]; };\n' % (i, 4 * (i % 50) + 4) for i in range(n))), \
        '8 %d %d\n' % (8 + 4 * ((n - 1) % 50), n - 1)


# -- C07
@kind('C07', 257, 1025)
def statics(n):
    return main('f(); f(); g(); f(); printf("%d %d\\n", f(), g());', 'int f() { %s %s return s0 + s%d; }\nint g() { static int s0 = 50; s0++; return s0; }\n' % (
        ' '.join('static int s%d = %d;' % (i, i) for i in range(n)), ' '.join('s%d += 2;' % i for i in range(n)), n - 1)), '%d 52\n' % (16 + n - 1 if n > 1 else 16)


@kind('C07', 257, 1025)
def static_functions(n):
    return main(''.join('f%d(); ' % i for i in range(n)) * 2 + 'printf("%%d %%d %%d\\n", f0(), f%d(), f%d());' % (n // 2, n - 1) if n > 3 else 'f0(); printf("%d\\n", f0());', ''.join('int f%d() { static int s = %d; s++; return s; }\n' % (i, i * 10) for i in range(n))), \
        '3 %d %d\n' % (n // 2 * 10 + 3, (n - 1) * 10 + 3) if n > 3 else '2\n'


@kind('C07', 10000, 100000)
def static_calls(n):
    return main('int i; for (i = 1; i < %d; i++) f(); i = f(); printf("%%d %%d %%d\\n", i, g, h[2]);' % n, 'int g; int h[3];\nint f() { static int s; static char c; s++; c++; g = g + 2; h[2] = h[2] + c; if (c == 9) c = 0; return s; }\n'), \
        '%d %d %d\n' % (n, 2 * n, sum(i % 9 + 1 for i in range(n)))


@kind('C07', 4097, 20000)
def static_array(n):
    return main('int i; long t; t = 0; for (i = 0; i < %d; i++) f(i); for (i = 0; i < %d; i++) { t = t + f(i); t = t + g[i]; } printf("%%ld\\n", t);' % (n, n), 'int g[%d];\nint f(int i) { static int a[%d]; a[i] = a[i] + i + 1; g[i] = g[i] + 1; return a[i]; }\n' % (n, n)), \
        '%d\n' % (sum(2 * (i + 1) for i in range(n)) + 2 * n)


# -- C08
CT = [('char', 1), ('int', 4), ('short', 2), ('long', 8), ('float', 4), ('char *', 8), ('double', 8)]


@kind('C08', 513, 1025)
def members(n):
    o, off, al = 0, [], 1
    for i in range(n):
        z = CT[i * i % 7 if i % 3 else i % 7][1]
        o = -(-o // z) * z
        off.append(o)
        o += z
        al = max(al, z)
    o = -(-o // al) * al
    i = sorted({0, n // 2, n - 1})
    return main('struct s v;\nprintf("%%d", (int)sizeof(struct s));\n%s' % ''.join('printf(" %%d", (int)((char *)&v.m%d - (char *)&v));\n' % k for k in i),
                'struct s { %s };\n' % ' '.join('%s m%d;' % (CT[i * i % 7 if i % 3 else i % 7][0], i) for i in range(n))), ' '.join(map(str, [o] + [off[k] for k in i]))


@kind('C08', 33, 65)
def nested_structures(n):
    t = 'struct s0 { char c; };\n' + ''.join('struct s%d { struct s%d a; %s b; };\n' % (i, i - 1, ('short', 'char', 'int', 'char', 'long')[i % 5]) for i in range(1, n))
    z, al = 1, 1
    for i in range(1, n):
        m = (2, 1, 4, 1, 8)[i % 5]
        z = -(-z // m) * m + m
        al = max(al, m)
        z = -(-z // al) * al
    return main('printf("%%d\\n", (int)sizeof(struct s%d));' % (n - 1), t), '%d\n' % z


@kind('C08', 65537, 100000)
def array_sizes(n):
    return main('struct t { char c[%d]; short d[%d]; } v; int a[%d]; printf("%%d %%d %%d %%d\\n", (int)sizeof(a), (int)sizeof(v), (int)sizeof(struct t[3]), (int)sizeof(v.d));' % (n, n, n)), \
        '%d %d %d %d\n' % (4 * n, n + n % 2 + 2 * n, 3 * (n + n % 2 + 2 * n), 2 * n)


# -- C09
@kind('C09', 10000, 65537)
def elements(n):
    return main('int a[%d], i, *p; long t; t = 0;\nfor (i = 0; i < %d; i++) a[i] = i * 3;\np = a + %d; *p = 7; p = &a[%d]; *p = *p + 1;\nfor (i = 0; i < %d; i++) t = t + a[i];\nprintf("%%ld %%d\\n", t, (int)(&a[%d] - a));' % (n, n, n // 2, n - 1, n, n - 1)), \
        '%d %d\n' % (sum(7 if i == n // 2 else i * 3 for i in range(n)) + 1, n - 1)


@kind('C09', 1025, 4097)
def linked(n):
    return main('struct l *p, *q; int i; long t; p = 0; t = 0;\nfor (i = 0; i < %d; i++) { q = malloc(sizeof(struct l)); q->v = i; q->next = p; p = q; }\nfor (q = p; q; q = q->next) t = t * 2 + q->v - t; printf("%%ld %%d\\n", t, p->v);' % n,
                'void *malloc(unsigned long);\nstruct l { int v; struct l *next; };\n'), '%d %d\n' % (n * (n - 1) // 2, n - 1)


@kind('C09', 65537, 100000)
def strings(n):
    return main('char *p; p = malloc(%d); memset(p, 120, %d); p[%d] = 0; p[0] = 65; *(p + %d) = 66; printf("%%d %%d %%d %%d\\n", (int)strlen(p), p[0], p[%d], p[%d]);' % (n + 3, n + 2, n + 1, n, n // 2 + (n == 1), n),
                'void *malloc(unsigned long);\nvoid *memset(void *, int, unsigned long);\nunsigned long strlen(const char *);\n'), '%d 65 %d 66\n' % (n + 1, 66 if n == 1 else 120)


@kind('C09', 257, 513)
def structure(n):
    return main('struct s v, *p; int i; long t; p = &v; t = 0;\n' + ''.join(('v.m%d = %d;\n' if i % 2 else 'p->m%d = %d;\n') % (i, i % 100) for i in range(n)) + ''.join(('t += p->m%d;\n' if i % 2 else 't += v.m%d;\n') % i for i in range(n)) + 'printf("%ld\\n", t);',
                'struct s { %s };\n' % ' '.join('%s m%d;' % (('char', 'long', 'short')[i % 3], i) for i in range(n))), '%d\n' % sum(i % 100 for i in range(n))


@kind('C09', 17, 33)
def indirections(n):
    return main('int x; int *p1; p1 = &x; x = 5;\n' + ''.join('int %sp%d; p%d = &p%d;\n' % ('*' * i, i, i, i - 1) for i in range(2, n + 1)) + '%sp%d = 9; printf("%%d %%d\\n", x, %sp%d + 1);' % ('*' * n, n, '*' * n, n)), '9 10\n'


# -- C10
@kind('C10', 65537, 100000)
def long_string(n):
    s = ''.join('abcdefghij'[i * i % 10] for i in range(n))
    return main('printf("%%s|%%d|%%d\\n", "%s", (int)strlen("%s"), strcmp("%s", "%s!") < 0);' % (s, s, s, s), 'unsigned long strlen(const char *);\nint strcmp(const char *, const char *);\n'), '%s|%d|1\n' % (s, n)


@kind('C10', 10000, 50000)
def native_calls(n):
    return main('int i; long t; t = 0; for (i = 0; i < %d; i++) t = t + abs(i - %d) + labs(-1); printf("%%ld\\n", t);' % (n, n // 2), 'int abs(int);\nlong labs(long);\n'), '%d\n' % (sum(abs(i - n // 2) for i in range(n)) + n)


@kind('C10', 31)
def variable_arguments(n):
    return main('printf("%s\\n", %s);' % (' '.join(('%d', '%s', '%c')[i % 3] for i in range(n)), ', '.join((str(i), '"s%d"' % i, str(65 + i))[i % 3] for i in range(n)))), \
        ' '.join((str(i), 's%d' % i, chr(65 + i))[i % 3] for i in range(n)) + '\n'


# -- C11
@kind('C11', 1025, 4097)
def sorting(n):
    v = [i * 7919 % 10007 for i in range(n)]
    w = sorted(v)
    return main('int a[%d], i, c; for (i = 0; i < %d; i++) { a[i] = i * 7919; a[i] = a[i] - a[i] / 10007 * 10007; }\nqsort(a, %d, 4, cmp);\nc = 0; for (i = 1; i < %d; i++) if (a[i - 1] > a[i]) c++; printf("%%d %%d %%d %%d\\n", c, a[0], a[%d], a[%d]);' % (n, n, n, n, n // 2, n - 1),
                'void qsort(void *, unsigned long, unsigned long, int (*)(void *, void *));\nint cmp(int *a, int *b) { int r; r = *a - *b; return r; }\n'), '0 %d %d %d\n' % (w[0], w[n // 2], w[-1])


@kind('C11', 513, 1025)
def many_callbacks(n):
    return main('int (*p[%d])(int); int i; long t; t = 0;\n%sfor (i = 0; i < %d; i++) t = t + p[i](i);\nprintf("%%ld %%d %%d\\n", t, p[0](1), p[%d](1));' % (n, ''.join('p[%d] = %sf%d;\n' % (i, '&' if i % 2 else '', i) for i in range(n)), n, n - 1),
                ''.join('int f%d(int a) { return a * 2 + %d; }\n' % (i, i) for i in range(n))), '%d 2 %d\n' % (sum(3 * i for i in range(n)), 2 + n - 1)


@kind('C11', 129, 257)
def nested_callbacks(n):
    return main('int a[2]; d = 0; a[0] = 2; a[1] = 1; qsort(a, 2, 4, cmp); printf("%d %d %d\\n", d, a[0], a[1]);',
                'void qsort(void *, unsigned long, unsigned long, int (*)(void *, void *));\nint d;\nint cmp(int *a, int *b) { d = d + 1; if (d < %d) { int c[2]; int m; m = d; c[0] = m; c[1] = m - 1; qsort(c, 2, 4, cmp); if (c[0] != m - 1 || c[1] != m) printf("wrong "); } return *a - *b; }\n' % n), '%d 1 2\n' % n


# -- C12
@kind('C12', 513, 2049)
def alloca_memory(n):
    return main('printf("%%d ", fill(%d));\nprintf("%%d\\n", deep(%d));' % (n, min(n, 129)), 'void *alloca(unsigned long n);\nint *kept[4];\n'
                'int fill(int n) { int *p[8]; int i, j, bad; bad = 0; for (i = 0; i < n; i++) { int k; k = i - i / 8 * 8; if (i > 7 && (p[k][0] != i - 8 || p[k][3] != i + 5)) bad = bad + 1; p[k] = alloca(16); '
                'for (j = 0; j < 4; j++) p[k][j] = i + j; p[k][3] = i + 13; } return bad; }\n'
                'int deep(int n) { char *s; s = alloca(n + 1); int i, r; for (i = 0; i < n; i++) s[i] = i; if (n == 0) return 0; r = deep(n - 1); for (i = 0; i < n; i++) if (s[i] != (char)i) return -1000; return r + 1; }\n'), \
        '0 %d\n' % min(n, 129)


@kind('C12', 20000, 100000)
def garbage(n):
    return main('int i; long t; struct s *p; char *q; p = &g; t = 0; q = "kept"; for (i = 0; i < %d; i++) { t = t + f(i) - (i * 2 + 1); p->a = p->a + 1; if (i == %d) q = "last"; } printf("%%ld %%d %%s %%s\\n", t, g.a, q, g.s);' % (n, n - 1),
                'struct s { int a; char *s; } g;\nint f(int x) { struct s l; l.a = x * 2; l.s = "str"; g.s = l.s; return l.a + 1; }\n'), '0 %d last str\n' % n


# -- C13
@kind('C13', 65, 129)
def qualifiers(n):
    q = ' '.join(('const', 'volatile')[i % 2] for i in range(n))
    return main('unsigned %s char a = 255; %s short int b = 70000; long %s int c = 4; %s long long unsigned d = 1; printf("%%d %%d %%d %%d %%d %%d\\n", a, b, (int)sizeof(a), (int)sizeof(b), (int)sizeof(c), (int)sizeof(d));' % (q, q, q, q)), '255 4464 1 2 8 8\n'


# -- C14
@kind('C14', 2049, 10000)
def enumerators(n):
    i = sorted({0, n // 2, n - 1})
    return main('enum e v; v = A%d; printf("%%d %s\\n", v == %d, %s);' % (n - 1, ' '.join('%d' for _ in i), n - 1, ', '.join('A%d' % k for k in i)), 'enum e { %s };\n' % ', '.join('A%d' % k for k in range(n))), '1 %s\n' % ' '.join(map(str, i))


@kind('C14', 513, 2049)
def enumerators_chain(n):
    i = sorted({0, n // 2, n - 1})
    return main('printf("%s\\n", %s);' % (' '.join('%d' for _ in i), ', '.join('A%d' % k for k in i)), 'enum e { A0 = 5%s };\n' % ''.join(', A%d%s' % (k, ' = A%d + 3' % (k - 1) if k % 2 else '') for k in range(1, n))), '%s\n' % ' '.join(str(5 + sum(3 if j % 2 else 1 for j in range(1, k + 1))) for k in i)


@kind('C14', 257, 1025)
def enumerations(n):
    return main('printf("%%d %%d %%d\\n", A0, B%d, A%d);' % (n - 1, n - 1), ''.join('enum e%d { A%d = %d, B%d };\n' % (i, i, i * 1000, i) for i in range(n))), '0 %d %d\n' % ((n - 1) * 1000 + 1, (n - 1) * 1000)


# -- C15
@kind('C15', 16384, 65537)
def string_length(n):
    s = ''.join(('a', '\\n', 'b', '\\x41', '\\101', '\\\\', '\\"', 'c')[i * i % 8] for i in range(n))
    v = [(97, 10, 98, 65, 65, 92, 34, 99)[i * i % 8] for i in range(n)]
    return main('char *p; p = "%s"; printf("%%d %%d %%d %%d\\n", (int)strlen(p), p[0], p[%d], p[%d]);' % (s.replace('\\x41b', '\\x41\\142').replace('\\x41a', '\\x41\\141').replace('\\x41c', '\\x41\\143'), n // 2, n - 1), 'unsigned long strlen(const char *);\n'), '%d %d %d %d\n' % (n, v[0], v[n // 2], v[-1])


@kind('C15', 1025, 4097)
def leading_zeros(n):
    z = '0' * n
    return main('printf("%%d %%d %%d %%.3f\\n", %s17, 0x%sfF, 0X%s1a, 2.5%s);' % (z, z, z, z)), '15 255 26 2.500\n'


@kind('C15', 2049, 4097)
def many_literals(n):
    return main('long t; t = 0;\n' + ''.join(('t += %d;\n', 't += 0x%x;\n', 't += 0%o;\n', 't += %dL;\n')[i % 4] % i if i % 5 else "t += 'a';\n" for i in range(n)) + 'printf("%ld\\n", t);'), '%d\n' % sum(i if i % 5 else 97 for i in range(n))


@kind('C15', 2049, 4097)
def many_strings(n):
    return main('int c; c = 0;\n' + ''.join('c += !strcmp("%s", "%s");\n' % ('s%d' % i, 's%d' % (i if i % 3 else i + 1)) for i in range(n)) + 'printf("%d\\n", c);', 'int strcmp(const char *, const char *);\n'), '%d\n' % sum(1 for i in range(n) if i % 3)


# -- C20 (the diagnostic is judged by the check)
# -- C21
@kind('C21', 65, 129)
def stars(n):
    z = '*' * n
    return main('typedef int %sT; T p; int %sq; int %sa[2]; char c; q = 0; p = q; printf("%%d %%d %%d %%d %%d\\n", (int)sizeof(p), (int)sizeof(q), (int)sizeof(a), (int)sizeof(T[3]), p == 0);' % (z, z, z)), '8 8 16 24 1\n'


@kind('C21', 257, 1025)
def typedef_chain(n):
    return main('T%d *v, w[3]; w[1] = 3; v = w; v[1] = v[1] + 1; printf("%%d %%d %%d\\n", (int)sizeof(T%d), (int)sizeof(w), w[1]);' % (n, n), 'typedef unsigned short T0;\n' + ''.join('typedef T%d T%d;\n' % (i, i + 1) for i in range(n))), '2 6 4\n'


@kind('C21', 513, 2049)
def typedef_names(n):
    return main('T%d a; T%d b; T0 c; a = 70000; b = 3; c = 1; printf("%%d %%d %%d\\n", (int)sizeof(a), (int)sizeof(b), (int)sizeof(c));' % (n - 1, n // 2), ''.join('typedef %s T%d;\n' % (('int', 'char', 'short', 'long', 'struct s')[i % 5 if i % 5 < 4 else 0], i) for i in range(n))), \
        '%d %d 4\n' % tuple((4, 1, 2, 8, 4)[i % 5] for i in (n - 1, n // 2))


@kind('C21', 129, 257)
def parenthesised(n):
    return main('int %sx%s; int *%sp%s; int (*%sf%s)(int); x = 3; p = &x; f = inc; printf("%%d %%d %%d\\n", x, *p, f(4));' % ('(' * n, ')' * n, '(' * n, ')' * n, '(' * (n - 1), ')' * (n - 1)), 'int inc(int x) { return x + 1; }\n'), '3 3 5\n'


@kind('C21', 513, 2049)
def declarators(n):
    return main('int %s; %s printf("%%d %%d\\n", (int)sizeof(v%d), v0);' % (', '.join(('v%d', '*v%d', 'v%d[3]', '(*v%d)(int)')[i % 4] % i for i in range(n)), 'v0 = 5;', n - 1)), '%d 5\n' % (4, 8, 12, 8)[(n - 1) % 4]


# -- C16, C22..C24 have their own


def scaled(cls):
    kinds = KINDS[cls.pid]

    def cases(self):
        for k, (f, q, d) in kinds.items():
            for n in SIZES:
                if n <= (d if self.deep else q):
                    yield ('#size', k, n)

    class Scaled(cls):
        space = cls.space + '; %d kinds of program with a size (%s), at all sizes of a list around the powers of two and ten up to a limit' % (len(kinds), ', '.join(k.replace('_', ' ') for k in kinds))

        def groups(self):
            yield from ([c] for c in cases(self))
            yield from super().groups()

        def key(self, c):
            return '%s, size %d' % c[1:] if c[0] == '#size' else super().key(c)

        def stats(self, cs):
            return (1, cs[0][2]) if cs[0][0] == '#size' else super().stats(cs)

        def request(self, cs):
            if cs[0][0] != '#size':
                return super().request(cs)
            return 'script', dict(text=kinds[cs[0][1]][0](cs[0][2])[0], timeout=120000)

        def execute(self, h, cs):
            return engine.Check.execute(self, h, cs) if cs[0][0] == '#size' else super().execute(h, cs)

        def execute_real(self, h, cs):
            return engine.Check.execute_real(self, h, cs) if cs[0][0] == '#size' else super().execute_real(h, cs)

        def judge(self, cs, r):
            if cs[0][0] != '#size':
                return super().judge(cs, r)
            want = kinds[cs[0][1]][0](cs[0][2])[1]
            if (r.ended, r.out) != ('exit 0', want):
                return 'must print %r, printed %r; %s, %s' % (want[-300:], r.out[-300:], r.ended, r.err[-200:])

    Scaled.__name__ = cls.__name__
    Scaled.__qualname__ = cls.__qualname__
    return Scaled
