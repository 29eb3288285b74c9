"""C10: native functions receive their arguments and return values intact.

A probe library is generated and compiled: one function per signature, which
prints what it received. Every signature is called with values at both ends of
the range of its types, by name and through pointers.
"""
import itertools, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from cint import *

T = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
     'long long', 'unsigned long long', 'float', 'double', 'char *', 'int *', 'struct st *']
T3 = ['char', 'unsigned char', 'short', 'int', 'unsigned int', 'long', 'float', 'double', 'char *']
VT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double', 'char *', 'long long']
PROM = {'char': 'int', 'unsigned char': 'int', 'short': 'int', 'unsigned short': 'int', 'float': 'double', 'signed char': 'int'}
INT = [t for t in T if t in TYPES]
FF = {'float': '%.9g', 'double': '%.17g', 'char *': '%s', 'int *': '%d', 'struct st *': '%d'}


def fm(t):
    return FF.get(t) or fmt(t)


def values(t, n):
    """Three values of a type, different by position n: (C expression, printed)."""
    if t in INT:
        a, b = hi(t) - n, lo(t) + n
        return [(lit(a), str(a)), (lit(b), str(b)), (str(5 + n), str(5 + n))]
    if t in ('float', 'double'):
        x = [(0.5 + n), -(1048576.25 + n / 2), 3.0 + n]
        return [(('%.4f' % v), fm(t) % v) for v in x]
    if t == 'char *':
        return [('"s%d"' % n, 's%d' % n), ('"longer string %d"' % n, 'longer string %d' % n), ('cb + %d' % (n % 13), 'buffer-of-chars'[n % 13:])]
    if t == 'int *':
        return [('ia + %d' % (n % 4), str(60 + n % 4)), ('&ia[%d]' % (n % 4), str(60 + n % 4)), ('ip', '61')]
    return [('&sv', '71'), ('sp', '72'), ('&sa[1]', '74')]


def use(t, x):
    return '*' + x if t == 'int *' else x + '->b' if t == 'struct st *' else x


class Sig:
    def __init__(self, name, params, ret='int', variadic=None):
        self.name, self.params, self.ret, self.var = name, params, ret, variadic

    def proto(self, names=False):
        ps = ['%s%s' % (t, ' p%d' % i if names else '') for i, t in enumerate(self.params)]
        if self.var is not None:
            ps.append('...')
        return '%s%s%s(%s)' % (self.ret, '' if self.ret[-1] == '*' else ' ', self.name, ', '.join(ps) or 'void')


class C10(engine.Check):
    pid = 'C10'
    level = 'exploration'
    rule = 'a case is a signature with argument values, called by name and through pointers'
    space = ('all parameter lists of 1 and 2 of 16 types or 3 of 16 types (thorough: 4 of 9) x 3 value sets; 0..32 parameters in 10 '
             'patterns; all variadic lists of 1..3 (4) of 12 types after 1..3 named parameters; 16 return types x values; '
             'all source type x parameter type conversions; 43 kinds of argument expressions x parameter types x 8 positions; buffers and structures exchanged')

    def sigs(self):
        if hasattr(self, '_s'):
            return self._s
        s = []
        for k in (0, 1, 2):
            for ts in itertools.product(T, repeat=k):
                s.append(Sig('f%d' % len(s), ts))
        for ts in itertools.product(T, repeat=3):
            s.append(Sig('f%d' % len(s), ts))
        if self.deep:
            for ts in itertools.product(T3, repeat=4):
                s.append(Sig('f%d' % len(s), ts))
        for n in range(3, 33):
            for pat in (['int'], ['double'], ['int', 'double'], ['long', 'char'], ['float', 'short', 'double'], ['char *', 'double', 'double'],
                        ['unsigned char', 'long long'], ['float'], ['int', 'int', 'int', 'double'], ['unsigned long', 'int *', 'float']):
                s.append(Sig('f%d' % len(s), [pat[i % len(pat)] for i in range(n)]))
        self._s = s
        return s

    def setup(self, scratch):
        self.lib = os.path.join(scratch, 'libprobe.so')
        c = '#include <stdio.h>\n#include <stdarg.h>\n#include <string.h>\n#include <stdlib.h>\nstruct st { char a; int b; double c; struct st *n; char z[3]; };\n'
        parts = []
        for s in self.sigs():
            f = ' '.join(fm(t) for t in s.params)
            parts.append('%s { printf("%s\\n"%s); return %d; }\n' % (
                s.proto(True), f, ''.join(', ' + use(t, 'p%d' % i) for i, t in enumerate(s.params)), len(s.params) + 100))
        v = ''
        for k in (1, 2, 3):
            ps = ['const char *f', 'double d', 'char c'][:k]
            show = ['', 'printf("%.17g ", d);', 'printf("%.17g %d ", d, c);'][k - 1]
            v += '''int v%d(%s, ...)
{
    va_list ap; int n = 0; va_start(ap, %s); %s
    for (; *f; f++, n++) switch (*f) {
    case 'i': printf("%%d ", va_arg(ap, int)); break;
    case 'u': printf("%%u ", va_arg(ap, unsigned)); break;
    case 'l': printf("%%ld ", va_arg(ap, long)); break;
    case 'U': printf("%%lu ", va_arg(ap, unsigned long)); break;
    case 'd': printf("%%.17g ", va_arg(ap, double)); break;
    case 's': printf("%%s ", va_arg(ap, char *)); break;
    }
    va_end(ap); printf("\\n"); return n;
}
''' % (k, ', '.join(ps), ['f', 'd', 'c'][k - 1], show)
        for i, t in enumerate(T):
            pre = '%s' % t
            vals = [x for x, _ in self.rvals(t)]
            if t in INT:
                arr = 'static %s r[] = { %s };' % (t, ', '.join('(%s)%s%s' % (t, x, 'UL' if not signed(t) and x.isdigit() else '') for x in vals))
                v += '%s r%d(int k) { %s return r[k]; }\n' % (t, i, arr)
            elif t in ('float', 'double'):
                v += '%s r%d(int k) { static %s r[] = { %s }; return r[k]; }\n' % (t, i, t, ', '.join(vals))
            elif t == 'char *':
                v += 'char *r%d(int k) { static char *r[] = { %s }; return r[k]; }\n' % (i, ', '.join(vals))
            elif t == 'int *':
                v += 'int *r%d(int k) { static int r[] = { 3, 4, 5 }; return r + k; }\n' % i
            else:
                v += 'struct st *r%d(int k) { static struct st s[] = { { 1, 2 }, { 1, 3 }, { 1, 4 } }; return s + k; }\n' % i
        for i, t in list(enumerate(INT)) + [(20, 'float'), (21, 'double'), (22, 'char *')]:
            for n in range(8):
                v += 'int k%d_%d(%s) { %sprintf("%s %%g %%d\\n", x, y, z); return 0; }\n' % (
                    i, n, ', '.join(['int a%d' % j for j in range(n)] + [t + ' x', 'double y', 'int z']),
                    ''.join('printf("%%d ", a%d); ' % j for j in range(n)), fm(t))
        v += '''
static int ncalls; void rv(int k) { ncalls += k; } int calls(void) { return ncalls; }
void out(int *a, char *b, double *c, long *d, short *e) { *a = -7; strcpy(b, "out"); *c = 2.5; *d = -5000000000L; *e = 300; }
int sum(struct st *s) { int r = 0; for (; s; s = s->n) r = r * 100 + s->a + s->b + (int)s->c + s->z[2]; return r; }
void fill(struct st *s, int n) { int i; for (i = 0; i < n; i++) { s[i].a = i + 1; s[i].b = -i * 1000; s[i].c = i + 0.5; s[i].n = &s[(i + 1) % n]; memcpy(s[i].z, "xyz", 3); } }
void pp(char **v, int n) { int i; for (i = 0; i < n; i++) printf("%s;", v[i]); printf("\\n"); v[0] = "changed"; }
int cat(char *dst, const char *src, unsigned long n) { strncat(dst, src, n); return (int)strlen(dst); }
int counter = 41; double dglobal = 6.25; char *sglobal = "global string"; struct st stglobal = { 5, 6, 7.5 }; int aglobal[3] = { 8, 9, 10 };
struct st *spglobal = &stglobal, sarr[2] = { { 1, 21 }, { 3, 43 } };
int dbl(int k) { return 2 * k; } char *tail(char *s, int k) { return s + k; }
int (*fpglobal)(int) = dbl; char *(*fp2global)(char *, int) = tail; int (*fpaglobal[2])(int) = { abs, dbl };
unsigned char ucglobal = 200; short shglobal = -300; long lglobal = -5000000000L; float fglobal = 0.25f;
int bump(void) { return ++counter; }
'''
        n = 8
        procs = []
        head = c
        for i in range(n):
            p = os.path.join(scratch, 'p%d.c' % i)
            with open(p, 'w') as f:
                f.write(head + ''.join(parts[i::n]) + (v if i == 0 else ''))
            procs.append(subprocess.Popen(['gcc', '-w', '-O1', '-fPIC', '-c', p, '-o', p[:-1] + 'o']))
        for p in procs:
            if p.wait():
                raise RuntimeError('probe library')
        subprocess.run(['gcc', '-shared', '-o', self.lib] + [os.path.join(scratch, 'p%d.o' % i) for i in range(n)], check=True)

    def rvals(self, t):
        if t == 'int *':
            return [('', '3'), ('', '4'), ('', '5')]
        if t == 'struct st *':
            return [('', '2'), ('', '3'), ('', '4')]
        v = values(t, 1)
        return v[:2] + [('"third"', 'third') if t == 'char *' else v[2]]

    def groups(self):
        g = []
        for i, s in enumerate(self.sigs()):
            g.append(('F', i))
            if len(g) == 40:
                yield g
                g = []
        yield g
        g = []
        for k in (1, 2, 3, 4) if self.deep else (1, 2, 3):
            for ts in itertools.product(VT if k < 4 else VT[::2], repeat=k):
                for named in ((1, 2, 3) if k < 3 else (1 + len(g) % 3,)):
                    g.append(('V', named, ts))
                    if len(g) >= 40:
                        yield g
                        g = []
        for n in range(0, 31):
            for pat in (['int'], ['double'], ['float', 'char'], ['long', 'double', 'short'], ['char *', 'unsigned char', 'double']):
                g.append(('V', 1, [pat[i % len(pat)] for i in range(n)]))
            if len(g) >= 40:
                yield g
                g = []
        yield g
        yield [('R', i) for i in range(len(T))]
        for t in INT + ['float', 'double']:
            yield [('C', t, d) for d in INT + ['float', 'double']]
        for t in INT + ['float', 'double', 'char *']:
            yield [('K', t, i) for i in range(len(SKINDS if t == 'char *' else KINDS))]
        yield [('X', i) for i in range(len(MISC))]

    def key(self, c):
        if c[0] == 'F':
            return self.sigs()[c[1]].proto()
        if c[0] == 'V':
            return 'variadic with %d named and (%s)' % (c[1], ', '.join(c[2]))
        if c[0] == 'R':
            return 'returns ' + T[c[1]]
        if c[0] == 'C':
            return '%s passed as %s' % c[1:]
        if c[0] == 'K':
            return '%s passed as %s in every position' % ((SKINDS if c[1] == 'char *' else KINDS)[c[2]][0], c[1])
        return 'exchange: ' + MISC[c[1]][0]

    def one(self, j, c):
        """(file-scope text, statements, expected)"""
        if c[0] == 'F':
            s = self.sigs()[c[1]]
            top = s.proto() + ';\n'
            out, want = '', ''
            n = len(s.params)
            out += '{ int r; int (*q)(%s); int (*qa[2])(%s); q = %s; qa[1] = q;\n' % (
                ', '.join(s.params) or 'void', ', '.join(s.params) or 'void', s.name)
            for k in range(3 if n else 1):
                vs = [values(t, i)[k] for i, t in enumerate(s.params)]
                out += '{ ' + ''.join('%s a%d; a%d = %s; ' % (t, i, i, v[0]) for i, (t, v) in enumerate(zip(s.params, vs)))
                vars_ = ', '.join('a%d' % i for i in range(n))
                how = [s.name + '(%s)' % vars_, 'q(%s)' % vars_, 'qa[1](%s)' % vars_][k if n > 2 else 0]
                w = ' '.join(v[1] for v in vs) + '\n'
                hows = [s.name, 'q', 'qa[1]'] if n <= 2 else [[s.name, 'q', 'qa[1]'][k]]
                for hw in hows:
                    out += 'r = %s(%s); printf("%%d\\n", r); ' % (hw, vars_)
                    want += w + '%d\n' % (n + 100)
                # constants where the constant has the type of the parameter
                if n <= 2 and all(t in ('int', 'long', 'double', 'char *', 'int *', 'struct st *', 'short', 'float', 'char') for t in s.params):
                    out += 'r = %s(%s); printf("%%d\\n", r); ' % (s.name, ', '.join(v[0] for v in vs))
                    want += w + '%d\n' % (n + 100)
                out += '}\n'
            return top, out + '}\n', want
        if c[0] == 'V':
            _, named, ts = c
            letters = ''.join('s' if t == 'char *' else 'd' if t in ('float', 'double') else
                              {'unsigned int': 'u', 'long': 'l', 'long long': 'l', 'unsigned long': 'U'}.get(t, 'i') for t in ts)
            out, want = '', ''
            for k in range(3 if len(ts) < 4 else 2):
                vs = [values(t, i)[k] for i, t in enumerate(ts)]
                out += '{ ' + ''.join('%s a%d; a%d = %s; ' % (t, i, i, v[0]) for i, (t, v) in enumerate(zip(ts, vs)))
                args = ['"%s"' % letters, '1.5', '9'][:named] + ['a%d' % i for i in range(len(ts))]
                out += 'printf("%%d\\n", v%d(%s)); ' % (named, ', '.join(args))
                # the same as constants
                cons = args[:named] + [v[0] for v in vs]
                also = not any(t in ('char', 'unsigned char') or 'short' in t for t in ts)
                if also:
                    out += 'printf("%%d\\n", v%d(%s)); ' % (named, ', '.join(cons))
                out += '}\n'
                want0 = want
                want += ['', '1.5 ', '1.5 9 '][named - 1]
                for t, v in zip(ts, vs):
                    x = v[1]
                    if t == 'float':
                        x = '%.17g' % float(x)
                    want += x + ' '
                want += '\n%d\n' % len(ts)
                if also:
                    want += want[len(want0):]
            return '', out, want
        if c[0] == 'R':
            i = c[1]
            t = T[i]
            sp = '' if t[-1] == '*' else ' '
            top = '%s%sr%d(int k);\n' % (t, sp, i)
            out, want = '{ %s x; %s%s(*q)(int); struct h { int p; %s%s(*m)(int); } h; q = r%d; h.m = r%d;\n' % (t, t, sp, t, sp, i, i), ''
            for k, (_, w) in enumerate(self.rvals(t)):
                out += 'x = r%d(%d); printf("%s ", %s); x = q(%d); printf("%s ", %s); x = h.m(%d); printf("%s %s\\n", %s, %s);\n' % (
                    i, k, fm(t), use(t, 'x'), k, fm(t), use(t, 'x'), k, fm(t), fm(t), use(t, 'x'), use(t, 'r%d(%d)' % (i, k)))
                want += '%s %s %s %s\n' % (w, w, w, w)
            return top, out + '}\n', want
        if c[0] == 'C':
            _, s, d = c
            name = self.byparam(d)
            top = 'int %s(%s);\n' % (name, d)
            out, want = '', ''
            vs = values(s, 1) if s in INT else [(x, x) for x in ('2.75', '-3.5', '100.0')]
            for x, v in vs:
                v = float(v) if s not in INT else int(v)
                if d in INT:
                    r = conv(d, int(v))
                    if s not in INT and not fits(d, int(v)):
                        continue
                else:
                    r = float(v)
                    if d == 'float':
                        import struct as S
                        if s in INT and abs(v) > 1 << 24:
                            continue
                        r = S.unpack('f', S.pack('f', r))[0]
                out += '{ %s a; a = %s; %s(a); }\n' % (s, x, name)
                want += (str(r) if d in INT else fm(d) % r) + '\n'
            return top, out, want
        if c[0] == 'K':
            _, t, k = c
            if t == 'char *':
                _, decl, x, w = SKINDS[k]
            else:
                _, decl, x, w = KINDS[k]
                decl = decl.replace('@', t)
                w = fm(t).replace('ll', 'l') % w
            top, out, want = '', '{ ' + decl + '\n', ''
            for n in range(8):
                i = INT.index(t) if t in INT else 20 + ['float', 'double', 'char *'].index(t)
                top += 'int k%d_%d(%s);\n' % (i, n, ', '.join(['int'] * n + [t] + ['double', 'int']))
                out += 'k%d_%d(%s); ' % (i, n, ', '.join(['%d' % j for j in range(n)] + [x] + ['2.5', '-9']))
                want += ''.join('%d ' % j for j in range(n)) + w + ' 2.5 -9\n'
            return top, out + '}\n', want
        m = MISC[c[1]]
        return m[1], '{ ' + m[2] + ' }\n', m[3]

    def byparam(self, d):
        for s in self.sigs():
            if list(s.params) == [d]:
                return s.name

    _c = (None, None)

    def parts(self, cases):
        if self._c[0] is not cases:
            self._c = (cases, [self.one(j, c) for j, c in enumerate(cases)])
        return self._c[1]

    def stats(self, cases):
        n = sum(p[2].count('\n') for p in self.parts(cases))
        return n, n

    def request(self, cases):
        ps = self.parts(cases)
        tops = []
        for p in ps:
            for l in p[0].splitlines():
                if l not in tops:
                    tops.append(l)
        t = ('int printf(const char *f, ...);\nint v1(const char *f, ...);\nint v2(const char *f, double d, ...);\n'
             'int v3(const char *f, double d, char c, ...);\n'
             'struct st { char a; int b; double c; struct st *n; char z[3]; };\n' + '\n'.join(tops) +
             '\nint abs(int);\nchar *strchr(const char *, int);\nint gl = 77;\nchar *gs = "global";\nint give(int n)\n{\nreturn n;\n}\nint main()\n{\nint ia[4]; int *ip; struct st sv; struct st *sp; struct st sa[2]; char cb[20]; int i; '
             'char *src; src = "buffer-of-chars"; for (i = 0; i < 16; i++) cb[i] = src[i];\n'
             'for (i = 0; i < 4; i++) ia[i] = 60 + i; ip = &ia[1]; sv.b = 71; sa[0].b = 72; sa[1].b = 74; sp = sa;\n')
        return 'script', dict(text=t + ''.join(p[1] for p in ps) + 'return 0;\n}\n', pre=('-l', self.lib))

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = ''.join(p[2] for p in self.parts(cases))
        if res.out == want:
            return None
        for i, (x, y) in enumerate(zip(want.split('\n'), res.out.split('\n'))):
            if x != y:
                return 'line %d: expected %r, got %r' % (i + 1, x, y)
        return 'expected %d lines, got %d' % (want.count('\n'), res.out.count('\n'))


# kinds of arguments; '@' stands for the type of the parameter
KINDS = [
    ('an integer literal', '', '65', 65),
    ('a character literal', '', "'A'", 65),
    ('a long literal', '', '70L', 70),
    ('an unsigned literal', '', '71u', 71),
    ('an octal literal', '', '0102', 66),
    ('a hexadecimal literal', '', '0x43', 67),
    ('an int variable', 'int v; v = 68;', 'v', 68),
    ('a variable of the type', '@ v; v = 69;', 'v', 69),
    ('an unsigned char', 'unsigned char v; v = 100;', 'v', 100),
    ('a short', 'short v; v = 101;', 'v', 101),
    ('a long', 'long v; v = 102;', 'v', 102),
    ('a parenthesised variable', '@ v; v = 72;', '(v)', 72),
    ('a sum', 'int v; v = 30;', 'v + 3', 33),
    ('a difference of literals', '', '50 - 8', 42),
    ('a product', 'int v; v = 6;', 'v * v', 36),
    ('a negation', 'int v; v = -44;', '-v', 44),
    ('a complement', 'int v; v = ~45;', '~v', 45),
    ('a comparison', 'int v; v = 3;', 'v > 2', 1),
    ('a logical not', 'int v; v = 0;', '!v', 1),
    ('a logical and', 'int v; v = 0;', '1 && v', 0),
    ('a conditional', 'int v; v = 3;', 'v ? 46 : 47', 46),
    ('a comma expression', 'int v; v = 3;', '(v, 48)', 48),
    ('an assignment', '@ v;', '(v = 49)', 49),
    ('a preincrement', '@ v; v = 50; @ u; u = 0;', '(v = 50, ++v)', 51),
    ('a postincrement', '@ v;', '(v = 52, v++)', 52),
    ('a compound assignment', 'int v;', '(v = 50, v += 3)', 53),
    ('an array element', '@ v[3]; v[0] = 1; v[1] = 54; v[2] = 2;', 'v[1]', 54),
    ('a computed element', 'int i; @ v[3]; v[0] = 1; v[1] = 2; v[2] = 55; i = 1;', 'v[i + 1]', 55),
    ('a member', 'struct m { char a; @ b; char c; } v; v.a = 1; v.b = 56; v.c = 2;', 'v.b', 56),
    ('a member through a pointer', 'struct m { char a; @ b; char c; } v; struct m *p; p = &v; v.a = 1; v.b = 57; v.c = 2;', 'p->b', 57),
    ('an indirection', '@ v; @ *p; v = 58; p = &v;', '*p', 58),
    ('an indirection through two pointers', '@ v; @ *p; @ **q; v = 59; p = &v; q = &p;', '**q', 59),
    ('a cast', 'long v; v = 60;', '(@)v'.replace('@', 'int'), 60),
    ('a narrowing cast', 'int v; v = 256 + 61;', '(unsigned char)v', 61),
    ('a sizeof', 'int v[4];', 'sizeof(v)', 16),
    ('a native call', '', 'abs(-62)', 62),
    ('an interpreted call', '', 'give(63)', 63),
    ('a static variable', 'static @ v; v = 64;', 'v', 64),
    ('an enumeration constant', 'enum { E65 = 65 };', 'E65', 65),
    ('an initialised variable', '@ v = 66;', 'v', 66),
    ('an initialised static', 'static @ v = 67;', 'v', 67),
    ('a typedef name variable', 'typedef @ T; T v; v = 68;', 'v', 68),
    ('a global', '', 'gl', 77),
]
SKINDS = [
    ('a string literal', '', '"lit"', 'lit'),
    ('a string variable', 'char *v; v = "var";', 'v', 'var'),
    ('a buffer', 'char v[4]; v[0] = 98; v[1] = 117; v[2] = 0;', 'v', 'bu'),
    ('the middle of a buffer', 'char v[4]; v[0] = 98; v[1] = 117; v[2] = 0;', 'v + 1', 'u'),
    ('the address of an element', 'char v[4]; v[0] = 98; v[1] = 117; v[2] = 0;', '&v[1]', 'u'),
    ('an advancing pointer', 'char *v; char *u; u = "advance";', '(v = u, ++v)', 'dvance'),
    ('a member', 'struct m { int a; char *b; } v; v.b = "member";', 'v.b', 'member'),
    ('a member array', 'struct m { int a; char b[3]; } v; v.b[0] = 109; v.b[1] = 0;', 'v.b', 'm'),
    ('an element', 'char *v[2]; v[0] = "e0"; v[1] = "e1";', 'v[1]', 'e1'),
    ('a conditional', 'int v; v = 0;', 'v ? "yes" : "no"', 'no'),
    ('a native call', 'char *v; v = "find the x mark";', 'strchr(v, 120)', 'x mark'),
    ('an indirection', 'char *v; char **p; p = &v; v = "ind";', '*p', 'ind'),
    ('a cast', 'unsigned char *v; char *u; u = "cast"; v = (unsigned char *)u;', '(char *)v', 'cast'),
    ('a global', '', 'gs', 'global'),
]
ST = ''
MISC = [
    ('out parameters', 'void out(int *a, char *b, double *c, long *d, short *e);',
     'int a; char b[8]; double c; long d; short e[3]; e[0]=1; e[1]=2; e[2]=3; out(&a, b, &c, &d, &e[1]); printf("%d %s %.2f %ld %d %d %d\\n", a, b, c, d, e[0], e[1], e[2]);',
     '-7 out 2.50 -5000000000 1 300 3\n'),
    ('linked structures', 'int sum(struct st *s);',
     'struct st x; struct st y; x.a=1; x.b=2; x.c=3.5; x.z[2]=4; x.n=&y; y.a=-1; y.b=10; y.c=20.25; y.z[2]=0; y.n=0; printf("%d\\n", sum(&x));',
     '1029\n'),
    ('filled structures', 'void fill(struct st *s, int n);',
     'struct st v[3]; int i; fill(v, 3); for (i = 0; i < 3; i++) printf("%d %d %.1f %d %c%c%c;", v[i].a, v[i].b, v[i].c, v[i].n == &v[(i+1)%3], v[i].z[0], v[i].z[1], v[i].z[2]); printf("\\n");',
     '1 0 0.5 1 xyz;2 -1000 1.5 1 xyz;3 -2000 2.5 1 xyz;\n'),
    ('array of strings', 'void pp(char **v, int n);',
     'char *v[3]; v[0]="one"; v[1]="two"; v[2]="three"; pp(v, 3); pp(v + 1, 2); printf("%s %s %s\\n", v[0], v[1], v[2]);',
     'one;two;three;\ntwo;three;\nchanged changed three\n'),
    ('string buffer', 'int cat(char *dst, const char *src, unsigned long n);',
     'char b[20]; int r; b[0] = 0; r = cat(b, "hello", 3); printf("%s %d\\n", b, r); r = cat(b, b + 1, 1); printf("%s %d\\n", b, r);',
     'hel 3\nhele 4\n'),
    ('void function', 'void rv(int k);\nint calls(void);', 'rv(5); rv(calls()); printf("%d\\n", calls());', '10\n'),
    ('no parameters', 'int bump(void);', 'printf("%d %d\\n", bump() - bump() == -1 || 1, bump());', '1 44\n'),
    ('nested calls', 'int bump();\nint cat(char *dst, const char *src, unsigned long n);',
     'char b[9]; b[0] = 0; printf("%d %d\\n", cat(b, "abcdef", cat(b, "xy", 2)), 7);', '4 7\n'),
    ('external objects', 'extern int counter;\nextern double dglobal;\nextern char *sglobal;\nextern struct st stglobal;\nint bump(void);',
     'counter = 50; printf("%d ", bump()); printf("%d %.2f %s %d %d\\n", counter, dglobal, sglobal, stglobal.a, stglobal.b);', '51 51 6.25 global string 5 6\n'),
    ('external arrays and pointers', 'extern int aglobal[3];\nextern int aglobal[3];\nextern struct st *spglobal;\nextern struct st sarr[2];\nextern struct st stglobal;',
     'printf("%d %d %d %d ", aglobal[0], aglobal[2], spglobal->b, sarr[1].b); aglobal[1] = 5; spglobal->b = 77; printf("%d %d %d\\n", *(aglobal + 1), stglobal.b, sizeof(aglobal));',
     '8 10 6 43 5 77 12\n'),
    ('external function pointers', 'extern int (*fpglobal)(int);\nextern char *(*fp2global)(char *, int);\nextern int (*fpaglobal[2])(int);\nint dbl(int k);',
     'printf("%d %s %d %d ", fpglobal(21), fp2global("abcd", 2), fpaglobal[0](-4), fpaglobal[1](-4)); printf("%d ", fpglobal == dbl); fpglobal = fpaglobal[0]; printf("%d\\n", fpglobal(-9));',
     '42 cd 4 -8 1 9\n'),
    ('external scalars', 'extern unsigned char ucglobal;\nextern short shglobal, shglobal;\nextern long lglobal;\nextern float fglobal;\nextern int counter;\nextern int counter;',
     'printf("%d %d %ld %g ", ucglobal, shglobal, lglobal, fglobal); ucglobal = ucglobal + 100; shglobal--; lglobal = lglobal - 1; printf("%d %d %ld\\n", ucglobal, shglobal, lglobal);',
     '200 -300 -5000000000 0.25 44 -301 -5000000001\n'),
]


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C10)))
