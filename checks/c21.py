"""C21: declarators and typedef names mean the type C gives them.

Every type built with up to three constructors (pointer, array, pointer to
function) over a set of base types x every choice of the levels that are
spelled with a typedef name x every place where an object of the type can be
declared, each used through every operation its type has, down to the base;
lists of declarators in every order; casts, sizeof and parameters. gcc runs the
same programs.
"""
import hashlib, itertools, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

PRE = '''int printf(const char *f, ...);
struct s { int a; char b; };
union u { int a; char b; };
enum e { E0, E1 = 6 };
typedef struct s TS;
typedef unsigned short us;
typedef us us2;
typedef struct { short a; us b; } TA;
int f_int(int a) { return a + 1; }
char f_char(int a) { return a + 200; }
unsigned char f_unsigned_char(int a) { return a + 300; }
long f_long(int a) { return a + 5000000000; }
us f_us(int a) { return a + 65536; }
us2 f_us2(int a) { return a + 65537; }
double f_double(int a) { double d; d = a; return d; }
enum e f_enum_e(int a) { return a ? E1 : E0; }
unsigned long f_unsigned_long(int a) { return a - 9; }
'''
BASES = {'int': '%d', 'char': '%d', 'unsigned char': '%d', 'long': '%ld', 'us': '%d', 'us2': '%d', 'double': '%f', 'enum e': '%d', 'unsigned long': '%lu',
         'struct s': None, 'TS': None, 'TA': None, 'union u': None}
VALS = {'double': '2.25', 'enum e': 'E1', 'long': '6000000000', 'unsigned long': '6000000001'}
PLACES = 'LGSMQPBV'


LENGTHS = (6, 7, 8, 9, 12, 15, 16, 17, 24, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048)


def build(base, cons):
    """cons from the outside: 'paf' is a pointer to an array ..."""
    t = ('b', base)
    for c in reversed(cons):
        t = (c, t)
    return t


def valid(cons, base):
    if base in ('struct s', 'TS', 'TA', 'union u') and 'f' in cons:
        return False
    for a, b in zip(cons, cons[1:]):
        if b == 'a' or (a, b) == ('f', 'f'):
            return False
    # functions return a pointer to the base, or the base
    if 'f' in cons:
        r = cons[cons.index('f') + 1:]
        if r not in ('', 'p'):
            return False
    return True


def decl(t, inner=''):
    k = t[0]
    if k == 'b' or k == 't':
        return t[1] + (' ' + inner if inner else '')
    if k == 'p':
        return decl(t[1], '*' + inner)
    if k == 'a':
        return decl(t[1], inner + '[3]')
    return decl(t[1], '(*' + inner + ')(int)')


def real(t):
    return t[2] if t[0] == 't' else t


def plain(t):
    """Without typedef names."""
    t = real(t)
    return t if t[0] == 'b' else (t[0], plain(t[1]))


class Gen:
    def __init__(self):
        self.n = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def use(self, x, t, out, d=0):
        t = real(t)
        k = t[0]
        out.append('printf("%%d ", (int)sizeof(%s));' % x)
        if k == 'b':
            b = t[1]
            f = BASES[b]
            if f is None:
                o = self.name('o')
                out.append('%s.a = 70; %s.b = 2; printf("%%d %%d ", %s.a, %s.b);' % (x, x, x, x))
                out.append('%s *%s = &%s; %s->b = 9; printf("%%d ", %s.b);' % (b, o, x, o, x))
            else:
                v = VALS.get(b, '77')
                out.append('%s = %s; printf("%s ", %s);' % (x, v, f, x))
                if b != 'double':
                    out.append('%s = %s + 250; printf("%s ", %s);' % (x, x, f, x))
                out.append('%s *q%d = &%s; *q%d = 3; printf("%s ", %s);' % (b, self.n, x, self.n, f, x))
                self.n += 1
        elif k == 'p':
            o = self.name('o')
            e = plain(t[1])
            out.append('%s; %s = &%s;' % (decl(e, o), x, o))
            out.append('printf("%%d ", %s == &%s);' % (x, o))
            self.use('(*%s)' % x, t[1], out, d + 1)
            self.peek(o, e, out)
            if e[0] == 'b' and BASES[e[1]] is None:
                out.append('%s->a = 4; printf("%%d %%d ", %s.a, %s[0].a);' % (x, o, x))
            out.append('%s = 0; printf("%%d ", !%s);' % (x, x))
        elif k == 'a':
            p = self.name('p')
            e = plain(t[1])
            self.use('%s[1]' % x, t[1], out, d + 1)
            out.append('%s = &%s[2]; printf("%%d ", (int)(%s - %s));' % (decl(('p', e), p), x, p, x))
            out.append('%s = %s; printf("%%d ", %s + 1 == &%s[1]);' % (p, x, p, x))
        else:
            r = plain(t[1])
            fn = 'f_' + (r[1] if r[0] == 'b' else 'p_' + r[1][1]).replace(' ', '_')
            f = BASES[r[1] if r[0] == 'b' else r[1][1]]
            out.append('%s = %s;' % (x, fn))
            star = '' if r[0] == 'b' else '*'
            out.append('printf("%s ", %s%s(3)); printf("%s ", %s(*%s)(4)); printf("%%d ", %s == %s);' % (f, star, x, f, star, x, x, fn))

    def peek(self, x, e, out):
        if e[0] == 'b':
            if BASES[e[1]] is None:
                out.append('printf("%%d %%d ", %s.a, %s.b);' % (x, x))
            else:
                out.append('printf("%s ", %s);' % (BASES[e[1]], x))


for b_ in ('int', 'char', 'unsigned char', 'long', 'us', 'us2', 'enum e', 'unsigned long'):
    n_ = b_.replace(' ', '_')
    PRE += '%s *f_p_%s(int a) { static %s v; v = f_%s(a); return &v; }\n' % (b_, n_, b_, n_)
PRE += 'double *f_p_double(int a) { static double v; v = f_double(a); return &v; }\n'

SHAPES = {'v': '@', 'p': '*@', 'a': '@[3]', 'f': '(*@)(int)', 'pp': '**@', 'pa': '*@[3]', 'i': '@ = 5', '(v)': '(@)', '(p)': '*(@)', 'fa': '(*@[2])(int)'}
SHAPE_T = {'v': '', 'p': 'p', 'a': 'a', 'f': 'f', 'pp': 'pp', 'pa': 'ap', 'i': '', '(v)': '', '(p)': 'p', 'fa': 'af'}


# what other libraries define: the typedefs each level may be spelled with, the declaration and its use
EXTERN = [
    (['int @'], '@ optopt', 'optopt = 7; int *p = &optopt; *p = *p + 1; printf("%d ", optopt);'),
    (['char *@'], '@ optarg', 'optarg = "arg"; printf("%s %c ", optarg, optarg[1]);'),
    (['char *@', '@0 *@'], '@ environ', 'printf("%d %d ", environ != 0, (int)sizeof(environ));'),
    (['char *@', '@0 @[2]'], '@ tzname', 'tzname[1] = "T"; char **p = tzname; printf("%s %s %d ", p[1], tzname[1], (int)sizeof(tzname));'),
    (['int @(int)'], '@ abs', 'printf("%d ", abs(-4)); int (*p)(int) = abs; printf("%d %d ", p(-5), (*p)(6));'),
    (['int @', '@0 @(@0)'], '@ abs', 'printf("%d ", abs(-4));'),
    (['char *@', '@0 @(const char *, int)'], '@ strchr', 'printf("%s ", strchr("abc", 98));'),
    (['unsigned long @', '@0 @(const char *)'], '@ strlen', 'printf("%lu ", strlen("abc"));'),
    (['long @', 'long @(long)'], '@ labs', 'printf("%ld ", labs(-5000000000));'),
]


class C21(engine.Check):
    pid = 'C21'
    rule = 'a case is a declaration with the uses of what it declares; bic must print what the program compiled by gcc prints; a transition is one printed value'
    space = ('base types %s x all valid sequences of <= 3 constructors out of pointer, array and pointer to function (depth 3: 4 bases) x all subsets of the levels spelled as typedef names x 8 places (local, file scope, '
             'static, member, member through a pointer, parameter, nested block with typedefs of its own, initialised from another object); all lists of <= 3 (thorough 4) out of 10 declarator shapes, in variables, '
             'members and typedefs; 29 lengths of a name x 5 ways to differ from it x 5 things with the other name' % ', '.join(BASES))
    assumptions = ['gcc on this machine is the reference']

    def cases(self):
        for n in range(4):
            for cons in itertools.product('paf', repeat=n):
                cons = ''.join(cons)
                for base in BASES:
                    if not valid(cons, base) or n == 3 and base not in ('int', 'us2', 'TA', 'unsigned char') and not self.deep:
                        continue
                    for tds in itertools.product((0, 1), repeat=n + 1):
                        # what a typedef stands for mustn't be an array where a pointer to it is built
                        for pl in PLACES:
                            if n == 3 and not self.deep and sum(tds) not in (0, 1, 4) and pl not in 'LM':
                                continue
                            yield 'T', base, cons, tds, pl
        for k in (1, 2, 3, 4) if self.deep else (1, 2, 3):
            for sh in itertools.product(SHAPES, repeat=k):
                for base in ('int', 'us') if k < 3 else ('int',):
                    for pl in 'LMDG' if k < 3 else 'LMD' if len(set(sh)) == k else 'L':
                        if pl in 'MD' and 'i' in sh:
                            continue
                        if pl == 'D' and any(s[0] == '(' for s in sh):
                            continue
                        if k == 4 and len(set(sh)) < 4:
                            continue
                        yield 'D', base, sh, pl
        for base in BASES:
            for i in range(6):
                yield 'C', base, i
        for n in LENGTHS:
            for r in range(5):
                for i in range(5):
                    yield 'N', n, r, i
        for i, c in enumerate(EXTERN):
            for n in range(1 << len(c[0])):
                for pl in 'LG':
                    yield 'X', i, n, pl

    def groups(self):
        g = []
        for c in self.cases():
            g.append(c)
            if len(g) == 60:
                yield g
                g = []
        if g:
            yield g

    def key(self, c):
        return 'x'.join(map(str, c)) if c[0] != 'T' else '%s, %s, typedefs %s, %s' % (decl(build(c[1], c[2]), 'x'), c[2], c[3], c[4])

    def stats(self, cases):
        n = sum(self.text(c, 0)[0].count('printf') + self.text(c, 0)[1].count('printf') for c in cases)
        return n, n

    def text(self, c, j):
        """(file-scope text, body)."""
        g = Gen()
        if c[0] == 'T':
            _, base, cons, tds, pl = c
            tdefs = ''
            t = ('b', base)
            if tds[-1]:
                tdefs += 'typedef %s;\n' % decl(t, 'T%d_0' % j)
                t = ('t', 'T%d_0' % j, t)
            for i, k in enumerate(reversed(cons)):
                t = (k, t)
                if tds[len(cons) - 1 - i]:
                    n = 'T%d_%d' % (j, i + 1)
                    tdefs += 'typedef %s;\n' % decl(t, n)
                    t = ('t', n, t)
            out = []
            if pl in 'LBGSM':
                out.append('printf("%%d %%d ", (int)sizeof(%s), (int)sizeof(%s));' % (decl(t), decl(plain(t))))
            if pl == 'L':
                out.append(decl(t, 'x') + ';')
                g.use('x', t, out)
            elif pl == 'B':
                out[:0] = ['int x = 1; { if (x) {\n' + tdefs]
                out.append(decl(t, 'x') + ';')
                tdefs = ''
                g.use('x', t, out)
                out.append('} }')
            elif pl == 'G':
                tdefs += decl(t, 'g%d' % j) + ';\n'
                g.use('g%d' % j, t, out)
            elif pl == 'S':
                out.append('static ' + decl(t, 'x') + ';')
                g.use('x', t, out)
            elif pl in 'MQ':
                tdefs += 'struct m%d { char c; %s; char d; };\n' % (j, decl(t, 'x'))
                out.append('struct m%d m; m.c = 1; m.d = 2;' % j)
                if pl == 'Q':
                    out.append('struct m%d *q = &m;' % j)
                g.use('m.x' if pl == 'M' else 'q->x', t, out)
                out.append('printf("%d %d %d ", m.c, m.d, (int)sizeof(m));')
            elif pl == 'P':
                r = real(t)
                if r[0] == 'a':
                    # a parameter of array type is a pointer
                    out2 = []
                    g.use('x[1]', r[1], out2)
                    out2.append('printf("%d ", (int)sizeof(x)); x = x + 1;')
                    g.use('x[0]', r[1], out2)
                    arg = 'y'
                    out.append(decl(plain(t), 'y') + ';')
                elif r[0] == 'b' and BASES[r[1]] is None:
                    return '', ''       # structs by value aren't supported
                else:
                    out2 = []
                    g.use('x', t, out2)
                    arg = '0'
                tdefs += 'void h%d(int n, %s, char *z)\n{\n%s\nprintf("%%d %%s ", n, z);\n}\n' % (j, decl(t, 'x'), '\n'.join(out2))
                out.append('h%d(5, %s, "z");' % (j, arg))
            elif pl == 'V':
                # initialised from an object of the spelled-out type
                r = plain(t)
                if r[0] == 'a' or r[0] == 'b' and BASES[r[1]] is None:
                    return '', ''
                if r[0] == 'p':
                    if r[1][0] == 'a':
                        return '', ''
                    out.append('%s; %s = &w; %s = y; printf("%%d ", x == y);' % (decl(r[1], 'w'), decl(r, 'y'), decl(t, 'x')))
                    out.append('printf("%%d ", (%s)y == x); %s = (%s)0; printf("%%d ", z == 0);' % (decl(t) if t[0] != 'f' else decl(r), decl(r, 'z'), decl(r)))
                elif r[0] == 'f':
                    fn = 'f_' + (plain(r[1])[1] if r[1][0] == 'b' else 'p_' + r[1][1][1]).replace(' ', '_')
                    out.append('%s = %s; %s = y; printf("%%d ", x == y);' % (decl(r, 'y'), fn, decl(t, 'x')))
                else:
                    v = VALS.get(base, '70000')
                    same = 'printf("%d ", x == y);' if base != 'double' else 'printf("%f %f ", x, y);'
                    out.append('%s = %s; %s = y; %s printf("%s ", (%s)%s);' % (decl(r, 'y'), v, decl(t, 'x'), same, BASES[base], decl(t), v))
                out.append('printf("%%d %%d ", (int)sizeof(%s), (int)sizeof(x));' % (t[1] if t[0] == 't' else 'x'))
                g.use('x', t, out)
            return tdefs, '\n'.join(out)
        if c[0] == 'D':
            _, base, sh, pl = c
            ts = [build(base, SHAPE_T[s]) for s in sh]
            out = []
            tdefs = ''
            if pl in 'LG':
                ns = ['%s%d' % ('ghij'[i], j) for i in range(len(sh))]
                d = '%s %s;\n' % (base, ', '.join(SHAPES[s].replace('@', n) for s, n in zip(sh, ns)))
                if pl == 'G':
                    tdefs = d
                else:
                    out.append(d)
            elif pl == 'M':
                ns = ['m.%s' % 'abcd'[i] for i in range(len(sh))]
                tdefs = 'struct d%d { %s %s; };\n' % (j, base, ', '.join(SHAPES[s].replace('@', 'abcd'[i]) for i, s in enumerate(sh)))
                out.append('struct d%d m; printf("%%d ", (int)sizeof(m));' % j)
            else:
                tdefs = 'typedef %s %s;\n' % (base, ', '.join(SHAPES[s].replace('@', 'D%d_%d' % (j, i)) for i, s in enumerate(sh)))
                ns = ['%s%d' % ('ghij'[i], j) for i in range(len(sh))]
                for i, n in enumerate(ns):
                    out.append('D%d_%d %s;' % (j, i, n))
            for s, n, t in zip(sh, ns, ts):
                if s == 'i':
                    out.append('printf("%%d ", %s);' % n)
                g.use(n, t, out)
            return tdefs, '\n'.join(out)
        if c[0] == 'X':
            _, i, n, pl = c
            tds, d, use = EXTERN[i]
            # a level that isn't spelled with a typedef name is written out
            tdefs, names = '', []
            for k, td in enumerate(tds):
                for m, x in enumerate(names):
                    td = td.replace('@%d ' % m, x + ' ').replace('@%d)' % m, x + ')')
                if n >> k & 1 or k == 0:
                    tdefs += 'typedef %s;\n' % td.replace('@', 'X%d_%d' % (j, k), 1)
                    names.append('X%d_%d' % (j, k))
                    d1 = '%s %s' % (names[-1], d[2:])
                else:
                    d1 = td.replace('@', d[2:], 1)
            e = 'extern ' if not n & 1 else ''
            if d[2:] in ('optopt', 'optarg', 'environ', 'tzname'):
                e = 'extern '
            d1 = e + d1 + ';\n'
            return (tdefs + d1, use) if pl == 'G' else (tdefs, d1 + use)
        if c[0] == 'N':
            # another name that is similar to that of a type
            _, n, r, i = c
            t = ('T%d_' % j).ljust(n, 't')
            o = [t[:-1] + 'u', t + 'u', t[:-1], t[:-1] + 'T', 'U' + t[1:]][r]
            if o == t:
                o += '_'
            tdefs = 'typedef short %s;\n' % t
            if i == 0:
                return tdefs, '%s x; int %s, y; x = 3; y = 2; %s = 70000; printf("%%d %%d %%d ", (int)sizeof(x), %s * y, (%s)+(x));' % (t, o, o, o, o)
            if i == 1:
                return tdefs + 'int %s(%s a) { return a + 1; }\nint g%d(%s %s) { return %s * 3; }\n' % (o, t, j, t, o, o), '%s x; x = 5; printf("%%d %%d %%d ", (int)sizeof(x), %s(x), g%d(x));' % (t, o, j)
            if i == 2:
                return tdefs + 'struct s%d { %s %s; char c; } v%d;\nenum { %s = 9 };\n' % (j, t, o, j, o), 'v%d.%s = 4; printf("%%d %%d %%d ", (int)sizeof(v%d), v%d.%s, %s * 2);' % (j, o, j, j, o, o)
            if i == 3:
                return tdefs + 'typedef long %s;\n' % o, '%s x; %s y; x = 1; y = 2; printf("%%d %%d %%d ", (int)sizeof(x), (int)sizeof(y), (int)sizeof(%s *));' % (t, o, o)
            return 'long %s;\n' % o + tdefs, '%s x; %s = 5; %s = %s * 2; x = 3; printf("%%ld %%d ", %s, (int)sizeof(x));' % (t, o, o, o, o)
        # names that are used twice, in different name spaces
        _, base, i = c
        f = BASES[base]
        v = VALS.get(base, '77')
        w = lambda x: '%s = %s; printf("%s ", %s);' % (x, v, f, x) if f else '%s.a = 7; printf("%%d ", %s.a);' % (x, x)
        n = 'N%d' % j
        if i == 0:
            return 'typedef %s %s;\nstruct %s { %s a; int b; };\n' % (base, n, n, n), '%s x; struct %s y; %s %s printf("%%d %%d ", (int)sizeof(%s), (int)sizeof(struct %s));' % (n, n, w('x'), w('y.a'), n, n)
        if i == 1:
            return 'typedef %s %s;\nstruct t%d { %s %s; int b; };\n' % (base, n, j, n, 'x'), 'struct t%d y; %s *p = &y.x; %s printf("%%d ", p == &y.x);' % (j, n, w('y.x'))
        if i == 2:
            return 'typedef %s *%s;\ntypedef const %s c%s;\n' % (base, n, base, n), '%s x; %s p = &x; const %s q = p; %s r = &x; %s printf("%%d %%d ", q == p, r == q);' % (base, n, n, 'c%s *' % n, w('(*p)'))
        if i == 3:
            return 'typedef %s %s, *p%s, **pp%s;\n' % (base, n, n, n), '%s x; p%s p = &x; pp%s pp = &p; %s %s printf("%%d %%d %%d ", (int)sizeof(%s), (int)sizeof(p%s), (int)sizeof(pp%s));' % (n, n, n, w('(*p)'), w('(**pp)'), n, n, n)
        if i == 4:
            if not f:
                return '', ''
            return 'typedef %s %s(int);\n%s d%d;\n%s d%d(int a) { return a; }\n' % (base, n, n, j, base, j), '%s *p = d%d; printf("%s ", p(4)); p = f_%s; printf("%s ", (*p)(5));' % (n, j, f, base.replace(' ', '_'), f)
        return 'typedef %s %s[4];\nstruct q%d { %s r; char e; };\n' % (base, n, j, n), 'struct q%d y; %s x; %s *p = x; %s %s printf("%%d %%d %%d ", (int)sizeof(%s), (int)sizeof(x), (int)sizeof(y)); p = p + 2; printf("%%d ", p == &x[2]);' % (j, n, base, w('x[2]'), w('y.r[3]'), n)

    def request(self, cases):
        t, calls = PRE, ''
        for j, c in enumerate(cases):
            a, b = self.text(c, j)
            t += '%sint k%d()\n{\n%s\nprintf("\\n"); return 0;\n}\n' % (a, j, b)
            calls += 'k%d();\n' % j
        return 'script', dict(text=t + 'int main()\n{\n%sreturn 0;\n}\n' % calls)

    def oracle(self, h, text):
        d = os.path.join(h.scratch, 'o')
        with open(d + '.c', 'w') as f:
            f.write(text)
        subprocess.run(['gcc', '-w', '-O0', '-o', d, d + '.c'], check=True)
        return subprocess.run([d], stdout=subprocess.PIPE, check=True).stdout.decode()

    def execute(self, h, cases):
        r = super().execute(h, cases)
        r.want = self.oracle(h, self.request(cases)[1]['text'])
        return r

    def execute_real(self, h, cases):
        r = super().execute_real(h, cases)
        r.want = self.oracle(h, self.request(cases)[1]['text'])
        return r

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        for c, w, g in zip(cases, res.want.split('\n'), res.out.split('\n')):
            if w != g:
                return '%s: gcc gives %r, bic gives %r' % (self.key(c), w, g)
        if res.want != res.out:
            return 'different number of lines'


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C21)))
