"""C12: the collector never changes what a program does.

Fault enumeration: for every program and session of a corpus that covers the
constructs of the evaluator, a collection is forced at each single allocation,
at every allocation and at every n-th allocation with every phase, and what the
program prints and how it ends is compared with a run that never collects.
Released memory is overwritten (plain build) or poisoned (address sanitizer).
"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, engine, run
import scale

P = 'int printf(const char *f, ...);\n'
M = 'void *malloc(unsigned long n);\nvoid *calloc(unsigned long n, unsigned long s);\nvoid free(void *p);\n'

# name, text, arguments, what it prints, exit status
CORPUS = []


def prog(name, text, out, rc=0, args=()):
    CORPUS.append((name, text, args, out, rc))


def body(name, locals_, out, top='', rc=0):
    prog(name, P + top + 'int main()\n{\n' + locals_ + '\nreturn %d;\n}\n' % rc, out, rc)


body('integer operators', 'int a; unsigned b; long c; a = 7; b = 3; c = a * b + (a - b) / 2 % 5; c = (c << 3) | (a & 5) ^ ~b; '
     'printf("%d %d %d\\n", a > b && a >= 7 || b < 1, a == 7, !(a != b)); printf("%ld %ld\\n", c & 255, c >> 2 & 7);', '1 1 0\n249 6\n')
body('increments', 'int a; int v[3]; int *p; a = 1; v[0] = 4; v[1] = 5; v[2] = 6; p = v; printf("%d ", a++); printf("%d ", ++a); printf("%d %d ", a--, *p++); '
     'p += 1; printf("%d ", *p); printf("%d\\n", --*p); a += 4; a -= 1; printf("%d\\n", a);', '1 3 3 4 6 5\n5\n')
body('conditional and comma', 'int a; int b; a = (b = 2, b + 1); a = a > 2 ? b ? 10 : 20 : 30; printf("%d %d\\n", b, (a++, a));', '2 11\n')
body('casts', 'long l; int i; char c; double d; float f; l = 300; c = (char)l; i = (int)2.75; d = (double)i; f = 1.5; d = f; '
     'printf("%d %d %.2f %.1f %d\\n", c, i, d, (float)3, (unsigned char)(-1));', '44 2 1.50 3.0 255\n')
body('pointers', 'int a; int *p; int **q; int ***r; a = 4; p = &a; q = &p; r = &q; ***r = ***r + 1; *p = *p + **q; printf("%d %d %d\\n", a, *&a, p == *q);', '10 10 1\n')
body('arrays', 'int a[4]; int i; int *p; char s[6]; long l[2]; for (i = 0; i < 4; i++) a[i] = i * i; p = &a[1]; p[1] = 40; '
     'for (i = 0; i < 5; i++) s[i] = 97 + i; s[5] = 0; l[0] = -1; l[1] = l[0] << 33; printf("%d %d %s %d %ld\\n", a[2], *(p + 2), s, s[p[0]], l[1] >> 33);', '40 9 abcde 98 -1\n')
body('array of pointers', 'char *s[3]; int x; int y; int *p[2]; int i; s[0] = "one"; s[1] = "two"; s[2] = s[0] + 1; x = 3; y = 4; p[0] = &x; p[1] = &y; *p[1] = 9; '
     'for (i = 0; i < 3; i++) printf("%s ", s[i]); printf("%d %d\\n", *p[0], y);', 'one two ne 3 9\n')
body('array that outlives its name', 'int *p; int i; { int a[3]; int k; for (k = 0; k < 3; k++) a[k] = k + 5; p = a; for (i = 0; i < 2; i++) { int z; z = p[i]; printf("%d ", z); } printf("%d\\n", p[2]); }', '5 6 7\n')
body('pointer into the middle of an array', 'int *p; int a[5]; int i; a[4] = 8; p = &a[3]; for (i = 0; i < 3; i++) { int t[2]; t[0] = i; p[0] = t[0]; } printf("%d %d\\n", p[0], p[1]);', '2 8\n')
body('structs', 'struct s { int a; char b[4]; struct { int x; int y; } in; struct s *next; } s; struct s t; struct s *p; p = &s; s.a = 1; p->b[2] = 7; p->in.y = 9; s.next = &t; t.a = 5; t.next = p; '
     'printf("%d %d %d %d %d\\n", p->next->a, s.next->next->a, s.b[2], s.in.y, (*p).a);', '5 1 7 9 1\n')
body('array of structs', 'struct s { char c; int v[2]; } a[3]; struct s *p; int i; for (i = 0; i < 3; i++) { a[i].c = 65 + i; a[i].v[1] = i * 10; } p = a; p++; p->v[0] = 4; printf("%c %d %d %d\\n", p->c, a[1].v[0], (p + 1)->v[1], p - a);', 'B 4 20 1\n')
body('pointer to a member', 'int *p; char *c; struct { int a; int b[3]; char n[3]; } s; s.b[1] = 3; p = &s.b[1]; c = s.n; *c = 5; { int k[3]; k[0] = 2; *p = *p + k[0]; } printf("%d %d\\n", s.b[1], s.n[0]);', '5 5\n')
body('unions', 'union u { int i; unsigned char b[4]; struct { short l; short h; } s; } u; union u *p; p = &u; u.i = 258; p->s.h = 1; printf("%d %d %d\\n", u.b[0], u.b[1], p->i);', '2 1 65794\n')
body('enumerations', 'enum e { A, B = 5, C, D = -1, E } v; enum { LOCAL = 3 }; int x[LOCAL]; v = C; x[2] = E; if (v == 6) printf("%d %d %d %d %d\\n", A, B, v, D, x[2]); printf("%d\\n", sizeof(x));', '0 5 6 -1 0\n12\n')
body('typedefs', 'typedef struct n { int v; struct n *l; } N; typedef N *NP; typedef int A[3]; typedef int (*F)(int); N n; NP p; A a; F f; p = &n; p->v = 3; p->l = p; a[1] = p->l->v; f = dbl; printf("%d %d\\n", a[1], f(a[1]));', '3 6\n',
     'int dbl(int x) { return x * 2; }\n')
body('typedef of a nested scope', 'int i; for (i = 0; i < 3; i++) { typedef int T; T t; T *p; p = &t; *p = i; printf("%d", t); } printf("\\n");', '012\n')
body('sizeof', 'int a[3]; struct s { char c; double d; } s; struct s *p; printf("%d %d %d %d %d %d\\n", sizeof(a), sizeof(s), sizeof(*p), sizeof(int *), sizeof(struct s), sizeof(a[0]));', '12 16 16 8 16 4\n')
body('if and loops', 'int i; int n; n = 0; for (i = 0; i < 6; i++) { if (i == 1) n += 10; else if (i == 3) { n += 100; } else n++; } while (n > 100) { n -= 3; if (n < 110) break; } for (;;) { if (n-- < 108) break; } printf("%d %d\\n", n, i);', '106 6\n')
body('nested loops', 'int n; n = 0; for (int i = 0; i < 3; i++) { int j; j = 0; while (1) { if (j > i) break; for (int k = 0; k < 2; k++) { int q; q = i; if (q == 2) break; n += 1; } j++; } } printf("%d\\n", n);', '6\n')
body('shadowing', 'int x; x = 1; { int x; x = 2; { char x; x = 3; g = g + x; } g = g + x; } for (int x = 0; x < 2; x++) g = g + x; printf("%d %d\\n", g, x);', '26 1\n', 'int g = 20;\n')
body('calls', 'int x; x = 3; printf("%d %d %d\\n", add(add(1, 2), add(x, x)), neg(x), add(neg(1), 5)); nothing(); printf("%d\\n", x);', '9 -3 4\n3\n',
     'int add(int a, int b) { return a + b; }\nint neg(int x) { int r = -x; return r; }\nvoid nothing(void) { int x; x = 99; return; }\n')
body('recursion', 'printf("%d %d %d\\n", fact(6), fib(7), ev(5));', '720 13 0\n',
     'int od(int n);\nint fact(int n) { if (n < 2) return 1; return n * fact(n - 1); }\nint fib(int n) { int a; int b; if (n < 2) return n; a = fib(n - 1); b = fib(n - 2); return a + b; }\n'
     'int ev(int n) { if (n == 0) return 1; return od(n - 1); }\nint od(int n) { if (n == 0) return 0; return ev(n - 1); }\n')
body('return out of loops', 'printf("%d %d\\n", find(3), find(9));', '6 -1\n',
     'int find(int n) { int i; for (i = 0; i < 6; i++) { int s[2]; while (1) { { if (i == n) { s[1] = i * 2; return s[1]; } } break; } } return -1; }\n')
body('parameters', 'int v[2]; int x; char *s; x = 1; v[0] = 2; v[1] = 3; s = "str"; set(&x, v, s, 1.5); printf("%d %d\\n", x, v[1]);', 'str 1.50\n6 30\n',
     'int set(int *p, int a[], char *s, double d) { *p = *p + a[0] + a[1]; a[1] = 30; printf("%s %.2f\\n", s, d); return 0; }\n')
body('pointers to locals of the caller', 'int i; int a; a = 0; for (i = 0; i < 3; i++) { int t; t = i; bump(&t, &a); } printf("%d\\n", a);', '6\n', 'void bump(int *p, int *a) { int **q; q = &p; **q = **q + 1; *a = *a + *p; }\n')
body('statics', 'int i; for (i = 0; i < 3; i++) { static int s = 2; s = s * 2; printf("%d %d %s ", s, count(i), name(i)); } printf("\\n");', '4 10 nm0 8 11 nm1 16 13 nm2 \n',
     'int count(int n) { static int c = 10; static int v[2]; v[1] = v[1] + n; c = c + n; if (v[1] > 100) return 0; return c; }\n'
     'char *name(int n) { static char b[4]; b[0] = 110; b[1] = 109; b[2] = 48 + n; b[3] = 0; return b; }\n')
body('static structs', 'printf("%d ", next(1)->v); printf("%d ", next(2)->v); printf("%d\\n", *next(3)->p);', '1 3 6\n', 'struct s { int v; int *p; };\nstruct s *next(int n) { static struct s s; static int k = 0; s.v = s.v + n; s.p = &s.v; k++; return &s; }\n')
body('static pointers', 'printf("%s ", keep("first")); printf("%s ", keep(0)); printf("%d\\n", last(7) + last(0));', 'first first 14\n',
     'char *keep(char *s) { static char *p; if (s) p = s; return p; }\nint last(int n) { static int a[3]; static int *p; if (n) { p = &a[1]; *p = n; } { int z[4]; z[0] = 9; } return *p; }\n')
body('globals', 'set(); gp = &ga[2]; *gp = 5; gs.p = gp; printf("%d %d %s %d\\n", g, ga[2], gn, *gs.p);', '8 5 set 5\n', 'int g = 3; int ga[4]; int *gp; char *gn = "unset"; struct { int *p; } gs;\nvoid set(void) { g = g + 5; gn = "set"; }\n')
body('function pointers', 'int (*f)(int, int); int (*t[2])(int, int); struct { int (*m)(int, int); } s; f = add; t[0] = add; t[1] = &sub; s.m = t[1]; printf("%d %d %d %d %d\\n", f(1, 2), t[1](5, 3), s.m(9, 1), (*f)(3, 4), ap(t[1], 2)); f = f == add ? sub : add; printf("%d\\n", f(1, 1));',
     '3 2 8 7 -1\n0\n', 'int add(int a, int b) { return a + b; }\nint sub(int a, int b) { return a - b; }\nint ap(int (*f)(int, int), int n) { return f(n, 3); }\n')
body('callbacks', 'int a[5]; int i; int k; int *r; for (i = 0; i < 5; i++) a[i] = (i * 7 + 3) % 5; qsort(a, 5, sizeof(int), cmp); for (i = 0; i < 5; i++) printf("%d", a[i]); k = 3; r = bsearch(&k, a, 5, sizeof(int), cmp); printf(" %d %d\\n", *r, n > 4);', '01234 3 1\n',
     'void qsort(void *, unsigned long, unsigned long, int (*)(const void *, const void *));\nvoid *bsearch(const void *, const void *, unsigned long, unsigned long, int (*)(const void *, const void *));\nint n = 0;\nint cmp(int *a, int *b) { int d[2]; n++; d[0] = *a; d[1] = *b; return d[0] - d[1]; }\n')
body('function pointers in native memory', 'struct o *p; int i; p = mk(); for (i = 0; i < 2; i++) { int t[3]; t[1] = i; printf("%d ", p->f(t[1])); } free(p); printf("\\n");', '5 6 \n',
     M + 'struct o { int (*f)(int); };\nint five(int n) { return n + 5; }\nstruct o *mk(void) { struct o *p; p = malloc(sizeof(struct o)); p->f = five; return p; }\n')
body('native memory', 'struct n *l; struct n *p; int i; l = 0; for (i = 0; i < 3; i++) { p = malloc(sizeof(struct n)); p->v = i; p->next = l; p->s = "text"; l = p; } for (p = l; p; p = p->next) printf("%d%s ", p->v, p->s); while (l) { p = l->next; free(l); l = p; } printf("\\n");', '2text 1text 0text \n',
     M + 'struct n { int v; char *s; struct n *next; };\n')
body('pointers held by linked objects', 'struct n a; struct n b; int x[3]; a.next = &b; b.next = &a; b.p = &x[2]; x[2] = 6; a.p = b.p; { struct n t; t.next = &a; t.p = &x[1]; x[1] = 3; a.next->p[0] = *t.p + x[2]; } printf("%d %d\\n", *a.next->next->p, x[2]);', '9 9\n', 'struct n { int *p; struct n *next; };\n')
body('strings', 'char *s; char *t; int i; s = "abc\\n\\t\\"\\x41\\101"; t = s; for (i = 0; i < 3; i++) { char *u; u = "loop"; if (u[i] == *("xoo" + 0)) t = u; s++; } printf("%s %s", t, s);'.replace('*("xoo" + 0)', '111'), 'loop \n\t"AA')
body('literals', 'printf("%d %d %d %c %ld %u %.2f %.3f\\n", 017, 0x1f, 10, 65, 5000000000L, 4000000000u, 1.25, 100.5);', '15 31 10 A 5000000000 4000000000 1.25 100.500\n')
body('variadic calls', 'int a; char c; short h; float f; char *s; a = 1; c = 2; h = 3; f = 4.5; s = "x"; printf("%d %d %d %.1f %s %d %s %.1f %d %d\\n", a, c, h, f, s, a + c, "lit", 2.5, (int)f, a ? 8 : 9);', '1 2 3 4.5 x 3 lit 2.5 4 8\n')
body('native results', 'char b[12]; char *p; strcpy(b, "hello"); p = strchr(strcat(b, " you"), 121); printf("%s %d %s %d %d\\n", p, (int)strlen(b), b, abs(-3), atoi("42") + 1);', 'you 9 hello you 3 43\n',
     'char *strcpy(char *, const char *);\nchar *strcat(char *, const char *);\nchar *strchr(const char *, int);\nunsigned long strlen(const char *);\nint abs(int);\nint atoi(const char *);\n')
body('external objects', 'char **e; e = environ; printf("%d\\n", e == environ && e != 0);', '1\n', 'extern char **environ;\n')
body('bit-fields and qualifiers', 'struct { const int a; volatile char b; } s; const char *c; register int r; volatile int v; s.b = 2; c = "q"; r = 4; v = r; printf("%d %s %d\\n", s.b, c, v);', '2 q 4\n')
body('prototype after use', 'printf("%d %d\\n", later(2), later(later(1)));', '4 4\n', 'int later(int n);\nint later(int n)\n{\nreturn n * 2;\n}\n')
body('conversions on return', 'printf("%d %d %ld %.1f\\n", ch(300), un(-1) > 0, lo(-4), fl(3));', '44 1 -4 3.0\n', 'char ch(int x) { return x; }\nunsigned un(int x) { return x; }\nlong lo(int x) { return x; }\ndouble fl(int x) { double d; d = x; return d; }\n')
body('scopes that end in the middle', 'int i; int n; n = 0; for (i = 0; i < 4; i++) { int a[2]; int *p; p = a; if (i == 2) break; { int b[2]; b[1] = i; p = b; n += p[1]; } a[0] = n; n += *a; } printf("%d\\n", n);', '2\n')
body('garbage while an expression is pending', 'int a[3]; a[0] = 1; a[1] = 2; a[2] = 3; printf("%d %d\\n", a[waste(1)] + waste(2) * (waste(3) - a[waste(0)]), waste(waste(waste(1))));', '6 1\n',
     'int waste(int n) { int i; int t[4]; for (i = 0; i < 4; i++) { int *p; p = &t[i]; *p = i; } return t[n]; }\n')
body('a pointer to the pending array', 'printf("%d\\n", sum(fill(1), fill(2)));', '106\n',
     'int *fill(int n) { static int a[2]; static int b[2]; int *p; if (n == 1) p = a; else p = b; p[0] = n; p[1] = n * 50; return p; }\nint sum(int *a, int *b) { int t[3]; t[0] = a[0]; return a[1] + b[1] - (a[1] + b[0]) + t[0] + 7; }\n')
prog('top-level code', P + 'int g = 4;\nint f(int n) { return n + g; }\nint v[2];\nv[1] = f(2);\nfor (int i = 0; i < 2; i++) { int q; q = i; g += q; }\nif (g == 5) { printf("%d\\n", f(v[1])); }\nwhile (g > 3) g--;\nprintf("%d\\n", g);\nreturn v[1];\n', '11\n3\n', 6)
prog('arguments', P + 'int main(int argc, char **argv)\n{\nint i;\nfor (i = 1; i < argc; i++) { char *s; s = argv[i]; printf("%s;", s); }\nprintf("%d\\n", argc);\nreturn argc;\n}\n', 'one;;-x;4\n', 4, ('one', '', '-x'))
prog('an error', P + 'int f(int n)\n{\nint a[2];\na[0] = n;\nreturn a[0] + missing;\n}\nint main()\n{\nint i;\nfor (i = 0; i < 3; i++) { printf("%d\\n", i); if (i == 1) f(i); }\nreturn 0;\n}\n', '0\n1\n', 1)
prog('exit', P + 'void exit(int);\nint f(void)\n{\nint a[2]; a[1] = 3;\nwhile (1) { printf("x"); exit(a[1]); }\nreturn 0;\n}\nint main()\n{\nreturn f();\n}\n', 'x', 3)
prog('many declarations', P + 'int a = 1, *b = &a, c[2], **d = &b;\nstruct s;\nstruct s *fwd;\nstruct s { int v; };\nunion u { int i; char c; };\nenum e { X, Y };\ntypedef struct s S;\nS *mk(void);\nS inst;\nS *mk(void) { inst.v = **d + Y; return &inst; }\nint main()\n{\nint x = 3, y = x + 1, *z = &y;\nfwd = mk(); c[1] = *z;\nprintf("%d %d %d\\n", fwd->v, c[1], x);\nreturn 0;\n}\n', '2 4 3\n')
prog('more than one table of allocations', P + 'int main()\n{\nint i; int s; int v[3]; int *p; s = 0; p = v; for (i = 0; i < 60; i++) { int t; t = i * 2; p[i % 3] = t; s = s + p[i % 3] - v[i % 3] + 1; }\nprintf("%d %d\\n", s, v[2]);\nreturn 0;\n}\n', '60 118\n')

# sessions: lines; what they print is taken from the run without collections
SESSIONS = [
    ('session: values', ['int x;', 'x = 4;', 'x;', 'x + 1;', 'char *s;', 's = "text";', 's;', 'int v[3];', 'v[1] = x;', 'v;', 'v[1];', '?x', '?v']),
    ('session: structs', ['struct s { int a; char *n; struct { int q; } in; };', 'struct s t;', 't.a = 3;', 't.in.q = 5;', 't;', 'struct s *p;', 'p = &t;', 'p->a;', '*p;', '?t', '?p', '\tp->', '\tt.in.']),
    ('session: functions', ['int printf(const char *f, ...);', 'printf("%d\\n", 3);', 'int abs(int);', 'abs(-4);', 'int (*f)(int);', 'f = abs;', 'f(-5);', '?f', '?abs', '\tab', '\tpri']),
    ('session: enums and typedefs', ['enum e { A, B = 7, C };', 'enum e v;', 'v = C;', 'v;', 'B;', 'typedef unsigned long UL;', 'UL u;', 'u = 5;', 'u;', '?u', '?v', '?nothing', '\tu', '\t']),
    ('session: errors of syntax', ['int x;', 'x = 3;', 'x = = 4;', 'x;', ')', 'x = x + 1;', 'int 3;', 'x;', '?x', '\tx']),
    ('session: expressions', ['int a;', 'int *p;', 'p = &a;', '*p = 9;', 'a;', '*p;', 'p == &a;', 'a ? 1 : 2;', '(char)65;', '"lit";', '3.5;', 'a++;', '++a;', 'sizeof(int);', 'a, 4;', "'A';"]),
]


def norm(s):
    return re.sub('0x[0-9a-f]+', '0x', s)


class C12(engine.Check):
    pid = 'C12'
    level = 'fault_enumeration'
    extra_variants = ('asan',)
    rule = 'a case is a program or session of the corpus with a set of allocations at which the collector runs'
    space = ('every program and session of the corpus x {a collection at each single allocation, at every n-th allocation with every phase for n '
             'of 1..5 (quick) / 1..16 (thorough)} in the plain build with released memory overwritten, and x every n-th allocation for n of '
             '1, 2, 3 (quick) / 1..7 and every single allocation (thorough) under the address sanitizer')
    time_budget = {'quick': 400, 'thorough': 5400}
    conformance_every = 0

    def setup(self, scratch):
        self.d = {'plain': self.builddir, 'asan': build.build('asan')}
        h = run.Harness(self.builddir)
        self.base = []
        self.setup_bad = {}
        for i in range(len(CORPUS) + len(SESSIONS)):
            r = self.run1(h, i, (0, 0, ()))
            self.base.append(r)
            if i < len(CORPUS):
                name, text, args, out, rc = CORPUS[i]
                if (r.out, r.rc) != (out, rc):
                    self.setup_bad[i] = '%s, without any collection: expected %r and exit status %d, got %r, %s, %s' % (
                        name, out, rc, r.out, r.ended, r.err[:200])
        h.close()

    def run1(self, h, i, gc, **kw):
        if i < len(CORPUS):
            return h.script(CORPUS[i][1], CORPUS[i][2], gc=gc, **kw)
        return h.request(['bic'], lines=SESSIONS[i - len(CORPUS)][1], gc=gc, **kw)

    def name(self, i):
        return CORPUS[i][0] if i < len(CORPUS) else SESSIONS[i - len(CORPUS)][0]

    def groups(self):
        for i, b in enumerate(self.base):
            pts = [('plain', i, (0, 0, (k,))) for k in range(b.allocs)]
            for n in range(1, 17 if self.deep else 6):
                pts += [('plain', i, (n, ph, ())) for ph in range(n)]
            for j in range(0, len(pts), 40):
                yield pts[j:j + 40]
            pts = []
            for n in range(1, 8 if self.deep else 4):
                pts += [('asan', i, (n, ph, ())) for ph in range(n)]
            if self.deep:
                pts += [('asan', i, (0, 0, (k,))) for k in range(b.allocs)]
            for j in range(0, len(pts), 6):
                yield pts[j:j + 6]
        if self.deep:
            # all pairs of collections of some small programs
            for i, b in enumerate(self.base):
                if self.name(i) in ('statics', 'function pointers', 'recursion'):
                    step = max(1, b.allocs // 120)
                    for k in range(0, b.allocs, step):
                        yield [('plain', i, (0, 0, (k, l))) for l in range(k + 1, b.allocs, step)]

    def key(self, c):
        v, i, (n, ph, pts) = c
        return '%s, %s%s' % (self.name(i), 'collecting at allocation ' + ' and '.join(map(str, pts)) if pts else
                             'collecting at every allocation' if n == 1 else 'collecting at allocations %d + n * %d' % (ph, n),
                             ' (address sanitizer)' if v == 'asan' else '')

    def stats(self, cases):
        return sum(len(c[2][2]) or self.base[c[1]].allocs // c[2][0] for c in cases), sum(self.base[c[1]].allocs for c in cases)

    def request(self, cases):
        v, i, gc = cases[0]
        if i < len(CORPUS):
            return 'script', dict(text=CORPUS[i][1], args=CORPUS[i][2], gc=gc)
        return 'request', dict(argv=['bic'], lines=SESSIONS[i - len(CORPUS)][1], gc=gc)

    _h = None

    def execute(self, h, cases):
        if cases[0][0] == 'asan':
            if not self._h:
                self._h = run.Harness(self.d['asan'], 'asan')
            h = self._h
        return [self.run1(h, i, gc, timeout=20000) for _, i, gc in cases]

    def judge(self, cases, res):
        for c, r in zip(cases, res):
            b = self.base[c[1]]
            if c[1] in self.setup_bad:
                return self.setup_bad[c[1]]
            if (r.rc, r.sig, r.timeout, norm(r.out), r.err) != (b.rc, b.sig, b.timeout, norm(b.out), b.err):
                n = next((k for k, (x, y) in enumerate(zip(b.out, r.out)) if x != y), min(len(b.out), len(r.out)))
                return '%s: without a collection %s; with it %s; output differs from %r: %r; %s' % (
                    self.key(c), b.ended, r.ended, b.out[n:n + 60], r.out[n:n + 60], r.err[:1200] if r.err != b.err else '')


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C12)))
