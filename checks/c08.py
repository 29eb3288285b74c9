"""C08: object layout and sizeof match the platform compiler.

Every structure and union of up to 3 members out of 24 kinds (4 of a smaller
set), two levels of nesting, and every type name, with the same program
compiled by gcc as the oracle. Member independence is checked by writing every
member in turn and reading all of them.
"""
import hashlib, itertools, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

# declarator with @ for the name, and how to write a value v to it / read it back (None: don't)
KINDS = {
    'c': ('char @;', '@', '%d'), 's': ('short @;', '@', '%d'), 'i': ('int @;', '@', '%d'), 'l': ('long @;', '@', '%ld'),
    'f': ('float @;', '@', '%g'), 'd': ('double @;', '@', '%g'), 'p': ('char *@;', None, None),
    'L': ('long long @;', '@', '%lld'), 'uc': ('unsigned char @;', '@', '%d'), 'us': ('unsigned short @;', '@', '%d'),
    'ui': ('unsigned int @;', '@', '%u'), 'ul': ('unsigned long @;', '@', '%lu'), 'sc': ('signed char @;', '@', '%d'),
    'c3': ('char @[3];', '@[2]', '%d'), 's2': ('short @[2];', '@[1]', '%d'), 'i5': ('int @[5];', '@[4]', '%d'),
    'd2': ('double @[2];', '@[0]', '%g'), 'p2': ('int *@[2];', None, None), 'fp': ('int (*@)(int);', None, None),
    'in': ('struct in @;', '@.b', '%d'), 'il': ('struct il @;', '@.c', '%d'), 'un': ('union un @;', '@.i', '%d'),
    'in2': ('struct in @[2];', '@[1].a', '%d'), 'an': ('struct { char p; int q; } @;', '@.q', '%d'),
    'au': ('union { short p; char q[5]; } @;', '@.p', '%d'), 'en': ('enum en @;', '@', '%d'),
    'ts': ('ts @;', '@.x', '%d'), 'sp': ('struct in *@;', None, None), 'cc': ('const char @;', None, None),
    'un2': ('union un @[3];', '@[2].c', '%d'), 'il2': ('struct il @[2];', '@[1].c', '%d'), 'tl': ('tl @;', '@', '%ld'),
    'ld': ('long double @;', '@', '%Lg'), 'ld2': ('long double @[2];', '@[1]', '%Lg'), 'ull': ('unsigned long long @;', '@', '%llu'), 'hl': ('struct hl @;', '@.d', '%Lg'),
    'ta': ('ta @;', '@[2]', '%d'), 'm2': ('struct in *@[3];', None, None),
    # anonymous members, several declarators, sizes that are expressions
    'as': ('struct { char @q; int @; };', '@', '%d'), 'aun': ('union { short @; char @q[5]; };', '@', '%d'), 'aa': ('struct { union { char @c; long @; }; short @s; };', '@', '%ld'),
    'md': ('char @, *@p, @z[3];', '@z[2]', '%d'), 'ae': ('short @[EB * 4 + 1];', '@[4]', '%d'), 'az': ('char @[sizeof(int) + 2];', '@[5]', '%d'), 'mq': ('short @q, @;', '@', '%d'),
}
FLEX = {'c': ('char @[];', '@', '%d'), 's': ('short @[];', '@', '%d'), 'i': ('int @[];', '@', '%d'), 'd': ('double @[];', '@', '%g'), 'ul': ('unsigned long @[];', '@', '%lu'),
        'ld': ('long double @[];', '@', '%Lg'),
        'in': ('struct in @[];', '@.b', '%d'), 'un': ('union un @[];', '@.i', '%d'), 'ts': ('ts @[];', '@.y', '%ld'), 'c0': ('char @[0];', '@', '%d')}
FEW = ['c', 's', 'i', 'l', 'd', 'c3', 'in', 'ld']
ALL3 = ['c', 's', 'i', 'l', 'f', 'd', 'p', 'uc', 'c3', 's2', 'p2', 'in', 'il', 'un', 'in2', 'an', 'au', 'en', 'fp', 'ts', 'ld', 'as', 'aun', 'md']
PRE = '''int printf(const char *f, ...);
void *malloc(unsigned long n);
void free(void *p);
enum en { EA, EB };
typedef struct { char x; long y; } ts;
typedef long tl;
typedef int ta[3];
struct hl { char c; long double d; };
struct in { char a; short b; };
struct il { long a; char b; char c; };
union un { char c; int i; };
int g;
int h(int n) { return n * 3 + 1; }
'''
TYPES = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'short int', 'int', 'unsigned int', 'unsigned',
         'long', 'unsigned long', 'long int', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'struct hl',
         'struct in', 'struct il', 'union un', 'enum en', 'ts', 'tl']
BIG = ['char', 'short', 'int', 'long', 'char *', 'struct il', 'long double', 'union un']
BIGN = [(1 << 29) + 3, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, (1 << 32) + 8, 5000000000, (1 << 40) + 1]
# arrays whose number of elements is found out anew: element type and how element 0 is written
VEL = {'char': 'a[@]', 'int': 'a[@]', 'long': 'a[@]', 'double': 'a[@]', 'struct il': 'a[@].c', 'union un': 'a[@].i', 'char *': None, 'tl': 'a[@]'}
VSZ = ['n', 'n * 2 + 1', 'sizeof(int) * n', 'g', 'h(n)', 'n - g + 4', 'k[0]', 'q.b', '(g = g + 1)', 'n ? n : 3', 'n + 0', '*w']
VPLACE = ['function', 'block', 'loop', 'recursion', 'two', 'branch']
VSEQ = [s for r in (1, 2, 3) for s in itertools.product((1, 2, 7), repeat=r)] + [(3, 30, 5), (20, 1, 20, 2), (5, 4, 3, 2, 1), (0, 2, 0, 3), (4, 0, 4)]
OBJ = ['@', '*@', '**@', '@[3]', '*@[3]', '(*@)(int)', '(*@[2])(void)', '@[7]', '@[1]']


class C08(engine.Check):
    pid = 'C08'
    level = 'exploration'
    rule = ('a case is a structure or union type (a list of member kinds), or a declarator; the program asks for '
            'sizes and offsets and gcc runs the same program')
    space = ('struct and union x all member lists of length 1..2 of 45 kinds, 3 of 24, 4 of 8 (thorough: 3 of 45, 4 of 12); two-level '
             'nestings of all pairs of lists of length 2 of 7; 24 basic types x 9 declarators; structures of 1..2 '
             'members and a flexible array of 11 kinds; arrays of 8 element types whose number of elements is one of 12 expressions '
             'in 6 places, reached with every sequence of 1..3 values out of three (and five others); array types, structures and unions of 2^29..2^40 elements of 8 types')
    assumptions = ['gcc on this machine is the platform compiler']

    def groups(self):
        g = []

        def lists():
            for k, ks in ((1, list(KINDS)), (2, list(KINDS)), (3, list(KINDS) if self.deep else ALL3),
                          (4, ALL3[:12] if self.deep else FEW)):
                for m in itertools.product(ks, repeat=k):
                    yield m
        for su in ('struct', 'union'):
            for m in lists():
                if su == 'union' and len(m) == 4:
                    continue
                g.append(('S', su, m))
                if len(g) == 100:
                    yield g
                    g = []
        yield g
        g = []
        six = ['c', 's', 'i', 'l', 'c3', 'd', 'ld']
        for a in itertools.product(six, repeat=2):
            for b in itertools.product(six, repeat=2):
                for so, si in itertools.product(('struct', 'union'), repeat=2):
                    g.append(('N', so, si, a, b))
                    if len(g) == 100:
                        yield g
                        g = []
        yield g
        yield [('T', t, o) for t in TYPES for o in OBJ]
        # objects beyond 2 and 4 GB: types alone, and pointers that are not followed
        g = [('B', su, k, n, m) for su in ('typedef', 'struct', 'union') for k in BIG for n in BIGN for m in ((0, 1, 2) if su == 'struct' else (0, 1))]
        for i in range(0, len(g), 12):
            yield g[i:i + 12]
        g = [('V', t, z, p, q) for t in VEL for z in VSZ for p in VPLACE for q in (VSEQ if self.deep or (t in ('char', 'int', 'struct il') and p in ('function', 'loop')) else VSEQ[9:12] + VSEQ[-5:])]
        for i in range(0, len(g), 12):
            yield g[i:i + 60]
        # flexible array members
        g = [('F', m, e) for k in (1, 2) for m in itertools.product(list(KINDS) if k == 1 or self.deep else ALL3, repeat=k) for e in FLEX]
        for i in range(0, len(g), 100):
            yield g[i:i + 100]

    def key(self, c):
        if c[0] == 'S':
            return '%s { %s }' % (c[1], ' '.join(KINDS[k][0].replace('@', 'm%d' % i) for i, k in enumerate(c[2])))
        if c[0] == 'T':
            return '%s %s' % (c[1], c[2].replace('@', 'x'))
        if c[0] == 'B':
            return '%s of %s [%d], %d' % c[1:]
        if c[0] == 'V':
            return 'arrays of %s, %s elements, in a %s, n = %r' % c[1:]
        if c[0] == 'F':
            return 'struct { %s %s }' % (' '.join(KINDS[k][0].replace('@', 'm%d' % i) for i, k in enumerate(c[1])), FLEX[c[2]][0].replace('@', 'f'))
        return 'a %s containing a %s: %r' % (c[1], c[2], c[3:])

    def stats(self, cases):
        n = sum(3 + 3 * len(c[2]) if c[0] == 'S' else 4 for c in cases)
        return n, n

    def request(self, cases):
        t, m, calls = PRE, '', ''
        for j, c in enumerate(cases):
            m = ''
            if c[0] == 'S':
                _, su, ks = c
                t += '%s s%d { %s };\n' % (su, j, ' '.join(KINDS[k][0].replace('@', 'm%d' % i) for i, k in enumerate(ks)))
                m += '%s s%d x; %s s%d y[2]; %s s%d *p; p = &y[1];\n' % ((su, j) * 3)
                m += 'printf("%%d %%d %%d %%d %%ld|", (int)sizeof(%s s%d), (int)sizeof(x), (int)sizeof(y), (int)sizeof(*p), (long)p - (long)&y);\n' % (su, j)
                for i, k in enumerate(ks):
                    m += 'printf("%%ld %%d|", (long)&x.m%d - (long)&x, (int)sizeof(p->m%d));\n' % (i, i)
                rw = [(KINDS[k][1].replace('@', 'x.m%d' % i), KINDS[k][2], i, k) for i, k in enumerate(ks) if KINDS[k][1]]
                if su == 'struct':
                    for lv, f, i, k in rw:
                        m += '%s = %d; ' % (lv, -(i + 2) if k[0] not in 'u' else i + 2)
                    if rw:
                        m += 'printf("%s|", %s);' % (' '.join(f for _, f, _, _ in rw), ', '.join(lv for lv, _, _, _ in rw))
                        # backwards
                        for lv, f, i, k in rw[::-1]:
                            m += '%s = %d; ' % (lv, i + 11)
                        m += 'printf("%s|", %s);' % (' '.join(f for _, f, _, _ in rw), ', '.join(lv for lv, _, _, _ in rw))
                else:
                    for lv, f, i, k in rw:
                        m += '%s = %d; printf("%s|", %s);' % (lv, i + 3, f, lv)
            elif c[0] == 'N':
                _, so, si, a, b = c
                D = lambda ks, p: ' '.join(KINDS[k][0].replace('@', p + str(i)) for i, k in enumerate(ks))
                t += '%s i%d { %s };\n%s s%d { %s %s i%d n; %s };\n' % (
                    si, j, D(b, 'n'), so, j, D(a[:1], 'm'), si, j, KINDS[a[1]][0].replace('@', 'z[2]' if '[' not in KINDS[a[1]][0] else 'z'))
                m += '%s s%d x; ' % (so, j)
                m += 'printf("%%d %%ld %%ld %%ld %%ld %%d|", (int)sizeof(%s s%d), (long)&x.n - (long)&x, (long)&x.n.n1 - (long)&x, (long)&x.z - (long)&x, (long)&x.z[1] - (long)&x, (int)sizeof(x.n));' % (so, j)
            elif c[0] == 'B':
                _, su, k, n, v = c
                if su == 'typedef':
                    t += 'typedef %s b%d[%d];\n' % (k, j, n)
                    if v:
                        t += 'typedef struct { char c; b%d *p; short s; b%d z; char e; } t%d;\n' % (j, j, j)
                    else:
                        t += 'typedef b%d t%d;\n' % (j, j)
                else:
                    t += '%s s%d { char c; %s m[%d]; short e; %s };\ntypedef %s s%d t%d;\n' % (
                        su, j, k, n, ('', 'int z; char y[3];', '%s w[%d]; int q; char z;' % (k, n))[v], su, j, j)
                arr = su == 'typedef' and not v     # (no pointers to arrays)
                if arr:
                    m += 'printf("%%lu|", sizeof(t%d));\n' % j
                else:
                    m += 't%d *p; p = (t%d *)4096; printf("%%lu %%lu|", sizeof(t%d), sizeof(*p));\n' % (j, j, j)
                if su != 'typedef':
                    m += 'printf("%%ld %%ld %%lu|", (long)&p->e - (long)p, (long)&p->m[%d] - (long)p, sizeof(p->m));' % (n - 1)
                    if v:
                        m += 'printf("%ld|", (long)&p->z - (long)p);'
                elif v:
                    m += 'printf("%ld %ld %ld|", (long)&p->p - (long)p, (long)&p->z - (long)p, (long)&p->e - (long)p);'
                if n < 1 << 33 and not arr:
                    m += 'p = p + 1; printf("%ld|", (long)p); p -= 3; printf("%ld|", (long)p);'
            elif c[0] == 'V':
                _, el, z, place, seq = c
                w = VEL[el]
                decl = '%s a[%s];' % (el, z)
                use = 'int i, m; m = sizeof(a) / sizeof(a[0]); printf("%d %ld %d;", (int)sizeof(a), (long)&a[m] - (long)a, (int)sizeof(*a));'
                if w:
                    use += 'for (i = 0; i < m; i++) %s = i + 3; s = 0; for (i = 0; i < m; i++) s = s + (int)%s;' % (w.replace('@', 'i'), w.replace('@', 'i'))
                use += 'printf("%d %d %d,", s, before, after);'
                loc = 'int before, s, k[1], after, *w; struct in q; before = 11; after = 12; s = 0; k[0] = n + 2; q.b = n + 3; w = &n;'
                body = {'function': '%s %s %s' % (loc, decl, use),
                        'block': '%s { %s %s }' % (loc, decl, use),
                        'loop': '%s int j; for (j = 0; j < 3; j++) { %s %s n = n + 1; }' % (loc, decl, use),
                        'recursion': '%s %s if (n > 3) v%d(n - 3); %s' % (loc, decl, j, use),
                        'two': '%s %s int other[n + 1]; %s printf("%%d,", (int)sizeof(other)); n = n + 3; printf("%%d %%d,", (int)sizeof(a), (int)sizeof(other));' % (loc, decl, use),
                        'branch': '%s if (n > 1) { %s %s } else { n = n + 4; %s %s }' % (loc, decl, use, decl, use)}[place]
                t += 'int v%d(int n) { %s return 0; }\n' % (j, body)
                m += 'g = 2; %s' % ' '.join('v%d(%d);' % (j, n) for n in seq)
            elif c[0] == 'F':
                _, ks, e = c
                ty, lv, f = FLEX[e]
                t += 'struct s%d { %s %s };\n' % (j, ' '.join(KINDS[k][0].replace('@', 'm%d' % i) for i, k in enumerate(ks)), ty.replace('@', 'f'))
                m += 'struct s%d *p; p = malloc(sizeof(struct s%d) + 200);\n' % (j, j)
                m += 'printf("%%d %%d %%ld %%ld|", (int)sizeof(struct s%d), (int)sizeof(*p), (long)p->f - (long)p, (long)&p->f[2] - (long)p);\n' % j
                rw = [(lv.replace('@', 'p->f[%d]' % i), f) for i in (0, 3)]
                rw += [(KINDS[k][1].replace('@', 'p->m%d' % i), KINDS[k][2]) for i, k in enumerate(ks) if KINDS[k][1]]
                for i, (l, _) in enumerate(rw):
                    m += '%s = %d; ' % (l, i + 3)
                m += 'printf("%s|", %s); free(p);' % (' '.join(f for _, f in rw), ', '.join(l for l, _ in rw))
            else:
                _, ty, o = c
                d = '%s %s' % (ty, o.replace('@', 'x'))
                m += d + '; printf("%d ", (int)sizeof(x));'
                m += 'printf("%%d ", (int)sizeof(%s));' % ty
                if '[' in o and '(' not in o:
                    m += 'printf("%d %ld ", (int)sizeof(x[0]), (long)&x[1] - (long)&x[0]);'
                if o[0] == '*' and '[' not in o:
                    m += 'printf("%d ", (int)sizeof(*x));'
                    m += 'printf("%%d ", (int)sizeof(%s %s));' % (ty, o.replace('@', ''))
            t += 'int f%d()\n{\n%s\nprintf("\\n"); return 0;\n}\n' % (j, m)
            calls += 'f%d();\n' % j
        return 'script', dict(text=t + 'int main()\n{\n%sreturn 0;\n}\n' % calls)

    def oracle(self, h, text):
        d = os.path.join(h.scratch, 'o')
        with open(d + '.c', 'w') as f:
            f.write(text)
        subprocess.run(['gcc', '-w', '-O0', '-o', d, d + '.c'], check=True)
        return subprocess.run([d], stdout=subprocess.PIPE, check=True).stdout.decode()

    def execute(self, h, cases):
        r = super().execute(h, cases)
        r.want = self.oracle(h, self.request(cases)[1]['text'])
        return r

    def execute_real(self, h, cases):
        r = super().execute_real(h, cases)
        r.want = self.oracle(h, self.request(cases)[1]['text'])
        return r

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        for c, w, g in zip(cases, res.want.split('\n'), res.out.split('\n')):
            if w != g:
                return '%s: gcc gives %r, bic gives %r' % (self.key(c), w, g)
        if res.want != res.out:
            return 'different number of lines'


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C08)))
