"""C15: literals denote their C value.

Integer, character, string and floating constants: all spellings up to a length
over alphabets that contain every escape and every class of character, each
used in several places, against a model of C's lexical rules; and all texts
over an alphabet of literal characters, of which those that are no literal must
be rejected.
"""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

PRE = '''int printf(const char *f, ...);
long write(int fd, char *s, unsigned long n);
unsigned long strlen(char *s);
long idl(long x) { return x; }
char *ids(char *s) { return s; }
struct s { char *p; };
int arr[100];
'''
SUF = ['', 'u', 'U', 'l', 'L', 'ul', 'uL', 'Ul', 'UL', 'lu', 'Lu', 'lU', 'LU', 'll', 'LL', 'ull', 'uLL', 'Ull', 'ULL', 'llu', 'LLU', 'llU', 'LLu']
SIMPLE = {'n': 10, 't': 9, 'a': 7, 'b': 8, 'f': 12, 'r': 13, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}
# pieces of strings
ALPHA = ['a', 'n', 'x', '0', '7', '8', 'f', "'", '\\"', '\\\\', '\\n', '\\t', '\\0', '\\1', '\\12', '\\101', '\\x4', '\\x41', '\\377',
         '\\?', '\\\'', '?', '%', '{', ' ', ';', '/', '*', '\t', '\xe9', '#', '(', ')', '\\v', ',']
ALPHA4 = ['a', '0', '7', '\\"', '\\\\', '\\n', '\\0', '\\x4', "'", '%']


def escape(s, i):
    """The value of the escape sequence after a backslash and where it ends; None if it is none."""
    if i >= len(s):
        return None
    if s[i] in SIMPLE:
        return SIMPLE[s[i]], i + 1
    if s[i] in '01234567':
        m = re.compile('[0-7]{1,3}').match(s, i)
        v = int(m.group(), 8)
        return (v, m.end()) if v < 256 else None
    if s[i] == 'x':
        m = re.compile('[0-9a-fA-F]+').match(s, i + 1)
        if not m:
            return None
        v = int(m.group(), 16)
        return (v, m.end()) if v < 256 else None
    return None


def string(s):
    """The bytes of the body of a string literal; None if it is none."""
    r, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            e = escape(s, i + 1)
            if e is None:
                return None
            r.append(e[0])
            i = e[1]
        elif s[i] in '"\n':
            return None
        else:
            r.append(ord(s[i]))
            i += 1
    return bytes(r)


def schar(v):
    return v - 256 if v > 127 else v


def classify(t):
    """What a text that is an operand means: ('int', v), ('char', v), ('str', bytes), 'other' (valid C that bic need not
    have, or a form whose meaning isn't modelled), or None (no valid operand)."""
    m = re.fullmatch('(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)([uU]?(ll|LL|[lL])?|(ll|LL|[lL])[uU])', t)
    if m:
        b = m.group(1)
        v = int(b, 16) if b[:2] in ('0x', '0X') else int(b, 8) if b[0] == '0' else int(b)
        return ('int', v) if v < 2 ** 64 else 'other'
    if re.fullmatch(r'[0-9]+\.[0-9]+', t):
        return ('float', float(t))
    if re.fullmatch(r"([0-9]*\.[0-9]+|[0-9]+\.)([eE][0-9]+)?[fFlL]?|[0-9]+[eE][0-9]+[fFlL]?|0[xX]([0-9a-fA-F]*\.[0-9a-fA-F]+|[0-9a-fA-F]+\.?)[pP][0-9]+[fFlL]?|0[bB][01]+[uU]?", t):
        return 'other'
    if t[:1] == "'" or t[:1] == '"':
        q, i, n, r = t[0], 1, 0, []
        while i < len(t) and t[i] != q and t[i] != '\n':
            if t[i] == '\\':
                e = escape(t, i + 1)
                if e is None:
                    return 'other' if esc_gnu(t, i + 1) else None
                r.append(e[0])
                i = e[1]
            else:
                r.append(ord(t[i]))
                i += 1
        if i >= len(t) or t[i] == '\n':
            return None
        rest = t[i + 1:]
        if q == '"' and rest[:1] == '"':
            return 'other' if classify(rest) is not None else None
        if rest:
            # an index or the like would be valid; the alphabet has none
            return None
        if q == "'":
            return ('char', schar(r[0])) if len(r) == 1 else 'other' if r else None
        return ('str', bytes(r))
    if t[:2] in ("L'", 'L"', "u'", 'u"', "U'", 'U"'):
        return 'other'
    return None


def esc_gnu(t, i):
    return i < len(t) and t[i] in 'eE'


class C15(engine.Check):
    pid = 'C15'
    rule = ('a case is the text of a literal and a place; the program stores, passes, compares or writes it out byte by byte. A text '
            'that is no literal must be rejected with a diagnostic before anything is executed')
    space = ('all decimal digit strings of length <= 3, octal <= 4, hexadecimal <= 2 (both cases and prefixes), 13 boundary values +-1 in 4 '
             'bases x 23 suffixes; all character constants of one byte or one escape (every octal and hexadecimal form); all '
             'string bodies of <= 2 pieces out of 35 x 12 places (among them arrays of every size), of 3 pieces x 1 place (thorough: 4 pieces), 4 of 10; '
             'decimal fractions; all texts of <= 4 characters (thorough 5) over 14 literal characters, and of quoted texts of <= 3 over 12')
    assumptions = ['char is signed (as gcc on this machine)', 'the value of an integer constant of 2^64 or more is not judged',
                   'literal syntax that bic has not (exponents, suffixed or hexadecimal floating constants, wide and multi-character '
                   'constants, concatenation) may be rejected']

    def ints(self):
        for n in range(1, 4):
            for d in itertools.product('0123456789', repeat=n):
                d = ''.join(d)
                if d[0] != '0':
                    yield d, int(d)
        for n in range(0, 5):
            for d in itertools.product('01234567', repeat=n):
                yield '0' + ''.join(d), int('0' + ''.join(d), 8)
        for p in ('0x', '0X'):
            for n in (1, 2):
                for d in itertools.product('0123456789abcdefABCDEF', repeat=n):
                    yield p + ''.join(d), int(''.join(d), 16)
        for k in (0, 4, 7, 8, 10, 15, 16, 31, 32, 33, 48, 63, 64):
            for v in (2 ** k - 1, 2 ** k, 2 ** k + 1):
                if v < 2 ** 64:
                    for t in ('%d' % v, '0%o' % v, '0x%x' % v, '0X%X' % v, '0x000%x' % v, '000%o' % v):
                        if t[0] != '0' or t[1:2] in ('x', 'X') or True:
                            for s in SUF:
                                yield t + s, v

    def chars(self):
        for b in range(1, 256):
            if chr(b) not in "'\\\n":
                yield "'%c'" % b
        for e in SIMPLE:
            yield "'\\%s'" % e
        for f in ('%o', '%02o', '%03o'):
            for v in range(256):
                yield "'\\" + f % v + "'"
        for f in ('%x', '%X', '%02x', '%02X', '%03x', '%04x', '%08X'):
            for v in range(256):
                yield "'\\x" + f % v + "'"

    def floats(self):
        I = ['0', '1', '7', '00', '12', '007', '255', '1023', '16777216', '16777217', '4294967296', '9007199254740993', '123456789012345678901234567890']
        F = ['0', '5', '1', '25', '000', '125', '1000', '999999', '0000001', '3333333333', '14159265358979323846', '000000000000000000000000000001',
             '50000000000000000000000000000000001', '49999999999999999999999999']
        for a in I:
            for b in F:
                yield a + '.' + b

    def groups(self):
        def pack(kind, it, n):
            g = []
            for x in it:
                g.append((kind, x))
                if len(g) == n:
                    yield g
                    g = []
            if g:
                yield g
        yield from pack('int', dict.fromkeys(t for t, v in self.ints()), 60)
        yield from pack('char', dict.fromkeys(self.chars()), 60)
        yield from pack('flt', self.floats(), 40)

        def bodies(ks, n):
            for p in itertools.product(ks, repeat=n):
                s = ''.join(p)
                if string(s) is not None:
                    yield s
        two = list(dict.fromkeys(b for n in range(3) for b in bodies(ALPHA, n)))
        for pl in range(1, 13):
            yield from pack('str%d' % pl, two, 40)
        yield from pack('str0', dict.fromkeys(bodies(ALPHA, 3)), 80)
        yield from pack('str0', dict.fromkeys(bodies(ALPHA if self.deep else ALPHA4, 4)), 80)
        yield from pack('str0', ['a' * n for n in range(1, 70)] + ['x\\0' * n for n in range(1, 40)] + ['a' * n for n in (255, 256, 257, 4095, 4096, 9000)], 20)
        seen = set()
        for n in range(1, 6 if self.deep else 5):
            for p in itertools.product("0189axXuLf.e'", repeat=n):
                if p[0] in '0189.' and "'" not in p[:1]:
                    seen.add(''.join(p))
        for n in range(0, 5 if self.deep else 4):
            for q in '\'"':
                for p in itertools.product(['a', "'", '"', '\\', 'n', '0', '8', 'x', 'q', '4', 'e'] if n < 3 else ['a', "'", '"', '\\', '0', 'x', '8'],
                                           repeat=n):
                    seen.add(q + ''.join(p))
                    seen.add(q + ''.join(p) + q)
        ok = []
        for t in sorted(seen):
            c = classify(t)
            if isinstance(c, tuple):
                ok.append(t)
            elif c is None:
                yield [('bad', t)]
            else:
                yield [('may', t)]
        yield from pack('any', ok, 40)

    def key(self, c):
        return '%s in place %s' % (ascii(c[1]), c[0]) if c[0] not in ('bad', 'may') else '%s: %s' % (
            'rejection of' if c[0] == 'bad' else 'rejection or value of', ascii(c[1]))

    def fragment(self, j, c):
        k, t = c
        if k == 'any':
            v = classify(t)
            if v[0] == 'int':
                k = 'int'
            elif v[0] == 'char':
                k = 'char'
            elif v[0] == 'float':
                k = 'flt'
            else:
                k, t = 'str2', t[1:-1]
        if k == 'int':
            v = classify(t)[1]
            s = '{ unsigned long v = %s; printf("%%lu ", v); long w; w=%s; printf("%%ld ", w-%s);\n' % (t, t, t)
            o = '%d 0 ' % v
            if v < 2 ** 63:
                s += 'printf("%%ld ", idl(%s)); if (w==%s) printf("="); if (%s) printf("t"); else printf("f");\n' % (t, t, t)
                o += '%d =%s' % (v, 't' if v else 'f')
            if v < 2 ** 31:
                s += 'printf(" %%d %%d", %s, -%s);' % (t if not re.search('[uUlL]', t) else '(int)' + t, t if not re.search('[uUlL]', t) else '(int)' + t)
                o += ' %d %d' % (v, -v)
            if v < 100:
                s += 'arr[%s]=%s +1; printf(" %%d", arr[%s]); char q[%s +1]; printf(" %%d", (int)sizeof(q)); enum { E%d=%s }; printf(" %%d", E%d);\n' % (
                    t, t, t, t, j, t if not re.search('[uUlL]', t) else '(int)' + t, j)
                o += ' %d %d %d' % (v + 1, v + 1, v)
            return '', s + 'printf("\\n"); }\n', (o + '\n').encode()
        if k == 'char':
            v = classify(t)[1]
            return ('int h%d() { return %s; }\n' % (j, t),
                    '{ char c = %s; int i; i=%s; printf("%%d %%d %%d %%d ", c, i, %s, h%d()); if (c==%s) printf("="); printf("%%ld %%d\\n", idl(%s), %s+1); }\n' % (
                        t, t, t, j, t, t, t), ('%d %d %d %d =%d %d\n' % (v, v, v, v, v, v + 1)).encode())
        if k == 'flt':
            v = float(t)
            f, = struct.unpack('f', struct.pack('f', v))
            return ('double h%d() { return %s; }\n' % (j, t),
                    '{ double d = %s; float f; f = %s; printf("%%a %%a %%a %%a\\n", d, f, h%d(), %s); }\n' % (t, t, j, t),
                    (' '.join(chex(x) for x in (v, f, v, v)) + '\n').encode())
        b = string(t) + b'\0'
        n = len(b)
        L = '"' + t + '"'
        pl = int(k[3:])
        two = 'int i; for (i=0; i<2; i++) '
        g = ''
        if pl == 0:
            s = 'write(1, %s, %d);' % (L, n)
            w = b
        elif pl == 1:
            s = 'char *p = %s; write(1, p, %d); p=%s; write(1, p, %d);' % (L, n, L, n)
            w = b * 2
        elif pl == 2:
            g = 'char *h%d(int n) { if (n) return h%d(n-1); return %s; }\n' % (j, j, L)
            s = 'write(1, h%d(0), %d); write(1, h%d(2), %d);' % (j, n, j, n)
            w = b * 2
        elif pl == 3:
            g = 'char *g%d = %s;\n' % (j, L)
            s = two + '{ struct s x; x.p=%s; write(1, x.p, %d); write(1, g%d, %d); }' % (L, n, j, n)
            w = b * 4
        elif pl == 4:
            # several in one expression
            m = b.index(0)
            s = 'printf("%%s|%%d|%%s", %s, (int)strlen(%s), ids(%s));' % (L, L, L)
            w = b[:m] + b'|%d|' % m + b[:m]
            s = 'char q[%d]; sprintf(q, "%%s|%%d|%%s", %s, (int)strlen(%s), ids(%s)); write(1, q, %d);' % (2 * m + 20, L, L, L, len(w))
        elif pl == 5:
            # the format of printf
            if b'%' in b:
                s, w = '', b''
            else:
                m = b.index(0)
                s = 'char q[%d]; sprintf(q, %s); write(1, q, %d);' % (n + 9, L, m + 1)
                w = b[:m + 1]
        elif pl == 6:
            s = 'char *a[2]; a[1] = %s; a[0] = a[1]; int i; for (i=0; i<%d; i++) write(1, a[0]+i, 1);' % (L, n)
            w = b
        elif pl == 7:
            s = two + 'write(1, i ? %s : "-", i ? %d : 1);' % (L, n)
            w = b'-' + b
        elif pl == 8:
            s = two + '{ static char *p = %s; const char *r = %s; write(1, p, %d); write(1, ids(r), %d); if (p) write(1, "+", 1); }' % (L, L, n, n)
            w = (b * 2 + b'+') * 2
        elif pl == 10:
            # an array, new each time it's declared
            s = 'int i; for (i=0; i<2; i++) { char a[] = %s, *p = a, b[] = %s; write(1, a, %d); a[0] = 1; p[%d] = 2; write(1, b, sizeof(b)); if (sizeof(a) == %d) write(1, a, %d); }' % (L, L, n, n - 1, n, n)
            w = bytearray(b)
            w[0] = 1
            w[n - 1] = 2
            w = (b * 2 + bytes(w)) * 2
        elif pl == 11:
            # arrays of every size
            g = ''.join('char g%d_%d[%d] = %s;\n' % (j, k, k, L) for k in range(1, n + 3))
            s = two + '{ ' + ''.join('{ char a[%d] = %s; write(1, a, sizeof(a)); a[%d] = 9; write(1, g%d_%d, sizeof(g%d_%d)); }' % (k, L, k - 1, j, k, j, k) for k in range(1, n + 3)) + ' }'
            w = b''.join((b + b'\0\0')[:k] * 2 for k in range(1, n + 3)) * 2
        elif pl == 12:
            g = 'char g%d[] = %s;\nunsigned char u%d[] = %s;\n' % (j, L, j, L)
            s = two + '{ static char a[] = %s, b[%d] = %s; write(1, a, sizeof(a)); write(1, b, sizeof(b)); a[%d] = a[%d] + 1; b[%d] = 1; } write(1, g%d, sizeof(g%d)); write(1, u%d, sizeof(u%d));' % (
                L, n + 1, L, n - 1, n - 1, n, j, j, j, j)
            w = b + b + b'\0' + b[:-1] + b'\1' + b + b'\1' + b + b
        else:
            s = 'char *p; p=%s; char *q; q=p; while (q-p<%d) { if (*q==p[q-p]) write(1, q, 1); q++; }' % (L, n)
            w = b
        return g, '{ ' + s + ' }\n', w

    def program(self, cases):
        t, m, w = PRE + 'int sprintf(char *s, const char *f, ...);\nint fflush(char *f);\n', '', b''
        for j, c in enumerate(cases):
            a, b, o = self.fragment(j, c)
            t += a
            m += 'int f%d() { %sreturn 0; }\n' % (j, b + ('fflush(0);\n' if c[0][:3] != 'str' else ''))
            w += o
        return t + m + 'int main()\n{\n%sreturn 0;\n}\n' % ''.join('f%d();\n' % j for j in range(len(cases))), w

    def request(self, cases):
        k, x = cases[0]
        if k in ('bad', 'may'):
            return 'script', dict(text=PRE + 'long v;\nint main()\n{\nprintf("start\\n");\nv = (long) %s;\nprintf("end\\n");\nreturn 0;\n}\n' % x)
        return 'script', dict(text=self.program(cases)[0])

    def judge(self, cases, r):
        k, x = cases[0]
        if k == 'bad' or k == 'may':
            # `0.f' reads as a member of 0, that is found out when it is evaluated
            if r.ended in ('exit 1', 'exit 99') and r.out in ('', 'start\n') and r.err:
                return None
            if k == 'may' and r.ended == 'exit 0':
                return None
            return 'not a literal, but ended with %s, output %r' % (r.ended, r.out[:200])
        if r.ended != 'exit 0':
            return 'ended with %s: %r' % (r.ended, r.err[:300])
        w = self.program(cases)[1].decode('latin-1')
        if r.out != w:
            for i in range(max(len(r.out), len(w))):
                if r.out[i:i + 1] != w[i:i + 1]:
                    return 'output differs at byte %d: %r, must be %r' % (i, r.out[max(0, i - 40):i + 40], w[max(0, i - 40):i + 40])
        return None


def chex(v):
    """%a as glibc prints it."""
    h = v.hex()
    m = re.fullmatch(r'0x([01])\.([0-9a-f]*)p([+-]\d+)', h)
    f = m.group(2).rstrip('0')
    if v == 0:
        return '0x0p+0'
    return '0x%s%sp%s' % (m.group(1), '.' + f if f else '', m.group(3))


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C15)))
