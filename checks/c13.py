"""C13: declaration specifiers denote the C type in any order.

All sequences of type-specifier keywords up to a length are put in all the
places a type can be spelled. Those that C accepts have to denote C's type,
which is judged by its size, alignment, signedness and wrap around; all others
have to be rejected where they are used.
"""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from cint import *

KW = ['void', 'char', 'short', 'int', 'long', 'float', 'double', 'signed', 'unsigned']
VALID = {}
for _t, _alts in {
    'void': ['void'], 'char': ['char', 'signed char'], 'unsigned char': ['unsigned char'],
    'short': ['short', 'signed short', 'short int', 'signed short int'],
    'unsigned short': ['unsigned short', 'unsigned short int'],
    'int': ['int', 'signed', 'signed int'], 'unsigned int': ['unsigned', 'unsigned int'],
    'long': ['long', 'signed long', 'long int', 'signed long int'],
    'unsigned long': ['unsigned long', 'unsigned long int'],
    'long long': ['long long', 'signed long long', 'long long int', 'signed long long int'],
    'unsigned long long': ['unsigned long long', 'unsigned long long int'],
    'float': ['float'], 'double': ['double'], 'long double': ['long double'],
}.items():
    for _a in _alts:
        VALID[tuple(sorted(_a.split()))] = _t

REAL = {'float': 4, 'double': 8, 'long double': 16}


def meaning(seq):
    return VALID.get(tuple(sorted(seq)))


def size(t):
    return REAL.get(t) or bits(t) // 8


VALS = [-1, 127, 128, 255, 300, 32768, 65535, 70000, 2147483648, 4294967295, 5000000000]


def show(t, n):
    """Values an object of t holds after being given each of VALS, then its wrap around."""
    if t in REAL:
        return ' '.join('%d' % v for v in (-1, 127, 128, 255, 300, 32768, 65535, 70000, 8388608)) + ' %s' % (
            '0.10000000149011612' if t == 'float' else '0.10000000000000001')
    return ' '.join(str(conv(t, v)) for v in VALS) + ' %s' % ('neg' if signed(t) else 'pos')


def probe(t, lv, back='w'):
    """Statements that store VALS through lvalue lv and print what is there."""
    if t in REAL:
        s = ''.join('%s = %d; w = %s; printf("%%ld ", w); ' % (lv, v, lv) for v in (-1, 127, 128, 255, 300, 32768, 65535, 70000, 8388608))
        return s + '%s = 0.1; d = %s; printf("%%.17g\\n", d);' % (lv, lv)
    u = t.startswith('unsigned long')
    s = ''.join('%s = %d; %s = %s; printf("%s ", %s); ' % (lv, v, 'u' if u else 'w', lv, '%lu' if u else '%ld', 'u' if u else 'w') for v in VALS)
    return s + '%s = 0; %s = %s - 1; printf("%%s\\n", %s < 0 ? "neg" : "pos");' % (lv, lv, lv, lv)


def probe_const(t, decl, use):
    """The same for objects that can only be initialised; decl declares one with %s."""
    if t in REAL:
        s = ''.join('{ %s w = %s; printf("%%ld ", w); } ' % (decl % v, use) for v in (-1, 127, 128, 255, 300, 32768, 65535, 70000, 8388608))
        return s + '{ %s d = %s; printf("%%.17g\\n", d); }' % (decl % '0.1', use)
    u = t.startswith('unsigned long')
    s = ''.join('{ %s %s = %s; printf("%s ", %s); } ' % (decl % v, 'u' if u else 'w', use, '%lu' if u else '%ld', 'u' if u else 'w') for v in VALS)
    return s + '{ %s printf("%%s\\n", %s < 0 ? "neg" : "pos"); }' % (decl % -1, use)


def by_value(t, fn):
    """Statements that pass VALS through fn (a C expression template)."""
    if t in REAL:
        s = ''.join('w = %s; printf("%%ld ", w); ' % (fn % v) for v in (-1, 127, 128, 255, 300, 32768, 65535, 70000, 8388608))
        return s + 'd = %s; printf("%%.17g\\n", d);' % (fn % '0.1')
    u = t.startswith('unsigned long')
    s = ''.join('%s = %s; printf("%s ", %s); ' % ('u' if u else 'w', fn % v, '%lu' if u else '%ld', 'u' if u else 'w') for v in VALS)
    return s + 'printf("%%s\\n", (%s) < 0 ? "neg" : "pos");' % (fn % -1)


V = 'long w; unsigned long u; double d; '
# place: (file scope text, function body, expected lines)
def fragment(place, S, t, n):
    """(file-scope text, body, expected output)"""
    z = size(t) if t != 'void' else 1
    al = z
    if 'const' in S.split():
        if place == 'local':
            return '', probe_const(t, S + ' x = %s;', 'x'), show(t, n) + '\n'
        if place == 'typedef':
            return 'typedef %s T%d;\n' % (S, n), probe_const(t, 'T%d x = %%s;' % n, 'x'), show(t, n) + '\n'
        if place == 'global':
            return '%s g%d = 100;\n' % (S, n), 'w = g%d; printf("%%ld %%d\\n", w, (int)sizeof(g%d));' % (n, n), '100 %d\n' % z
        if place == 'pointer':
            return '', probe_const(t, t + ' x = %s; ' + S + ' *p = &x;', '*p'), show(t, n) + '\n'
        if place == 'member':
            return ('struct s%d { char c; %s m; char e; };\n' % (n, S), 'char *p, *q; struct s%d s; p = (char *)&s; q = (char *)&s.m; printf("%%d %%d\\n", (int)sizeof(s), (int)(q - p));' % n,
                    '%d %d\n' % (2 * al + z, al))
    if place == 'local':
        return '', '%s x; %s printf("%%d\\n", (int)sizeof(x));' % (S, probe(t, 'x')), '%s\n%d\n' % (show(t, n), z)
    if place == 'global':
        return '%s g%d;\n' % (S, n), '%s printf("%%d\\n", (int)sizeof(g%d));' % (probe(t, 'g%d' % n), n), '%s\n%d\n' % (show(t, n), z)
    if place == 'for':
        return '', 'int i; i = 0; for (%s x = 3; i < 1; i++) { %s }' % (S, probe(t, 'x')), show(t, n) + '\n'
    if place == 'member':
        return ('struct s%d { char c; %s m; char e; };\n' % (n, S),
                'struct s%d s; char *p, *q; p = (char *)&s; q = (char *)&s.m; %s printf("%%d %%d\\n", (int)sizeof(s), (int)(q - p));' % (n, probe(t, 's.m')),
                '%s\n%d %d\n' % (show(t, n), 2 * al + z, al))
    if place == 'union':
        return ('union u%d { %s m; char e; };\n' % (n, S), 'union u%d s; %s printf("%%d\\n", (int)sizeof(s));' % (n, probe(t, 's.m')),
                '%s\n%d\n' % (show(t, n), z))
    if place == 'param':
        if t in REAL:
            return '%s p%d(%s x) { return x; }\n' % (t, n, S), by_value(t, 'p%d(%%s)' % n), show(t, n) + '\n'
        return '%s p%d(%s x) { return x; }\n' % ('unsigned long' if t.startswith('unsigned') else 'long', n, S), by_value(t, 'p%d(%%s)' % n), show(t, n) + '\n'
    if place == 'unused param':     # of an external function
        return 'extern int abs(int);\nint q%d(%s);\n' % (n, S), 'printf("ok\\n");', 'ok\n'
    if place == 'return':
        if t == 'void':
            return '%s r%d(int x) { printf("r%%d\\n", x); }\n' % (S, n), 'r%d(4);' % n, 'r4\n'
        return '%s r%d(%s x) { return x; }\n' % (S, n, 'double' if t in REAL else 'long'), by_value(t, 'r%d(%%s)' % n), show(t, n) + '\n'
    if place == 'typedef':
        if t == 'void':
            return 'typedef %s T%d;\n' % (S, n), 'T%d *v; int i; v = &i; *(int *)v = 6; printf("%%d\\n", i);' % n, '6\n'
        return 'typedef %s T%d;\n' % (S, n), 'T%d x; %s printf("%%d\\n", (int)sizeof(T%d));' % (n, probe(t, 'x'), n), '%s\n%d\n' % (show(t, n), z)
    if place == 'cast':
        return '', by_value(t, '(%s)%%s' % S), show(t, n) + '\n'
    if place == 'pointer cast':
        if t == 'void':
            return '', 'int i; int *q; i = 0; q = (%s *)&i; *q = 5; printf("%%d\\n", i);' % S, '5\n'
        return '', '%s x; char *v; v = (char *)&x; %s' % (t, probe(t, '*(%s *)v' % S)), show(t, n) + '\n'
    if place == 'sizeof':
        return '', 'printf("%%d\\n", (int)sizeof(%s));' % S, '%d\n' % z
    if place == 'sizeof pointer':
        return '', 'printf("%%d\\n", (int)sizeof(%s *));' % S, '8\n'
    if place == 'pointer':
        if t == 'void':
            return '', '%s *p; int i; p = &i; *(int *)p = 4; printf("%%d %%d\\n", i, (int)sizeof(p));' % S, '4 8\n'
        return '', '%s x, *p; p = &x; %s printf("%%d %%d\\n", (int)((char *)(p + 1) - (char *)p), (int)sizeof(p));' % (S, probe(t, '*p')), '%s\n%d 8\n' % (show(t, n), z)
    if place == 'array':
        return '', '%s a[3]; %s printf("%%d\\n", (int)sizeof(a));' % (S, probe(t, 'a[2]')), '%s\n%d\n' % (show(t, n), 3 * z)
    if place == 'static':
        return '', 'static %s x; %s printf("%%d\\n", (int)sizeof(x));' % (S, probe(t, 'x')), '%s\n%d\n' % (show(t, n), z)
    if place == 'prototype':
        return '%s y%d(%s);\n%s y%d(%s x) { return x; }\n' % (S, n, S, S, n, S), by_value(t, 'y%d(%%s)' % n), show(t, n) + '\n'
    if place == 'function pointer' and t not in REAL:
        return '%s z%d(%s x) { return x; }\n' % (S, n, S), '%s (*f)(%s); f = z%d; %s' % (S, S, n, by_value(t, 'f(%s)')), show(t, n) + '\n'
    return None


PLACES = ['local', 'global', 'for', 'member', 'union', 'param', 'return', 'typedef', 'cast', 'pointer cast', 'sizeof', 'sizeof pointer',
          'pointer', 'array', 'static', 'prototype', 'function pointer']
VOID_OK = ['return', 'typedef', 'pointer cast', 'sizeof pointer', 'pointer']

# where an invalid sequence is put: (text; @ is the sequence, it has a line of its own, is it before main)
BAD = {
    'local': ('int main() {\nprintf("a\\n");\n@ x;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'local initialised': ('int main() {\nprintf("a\\n");\n@ x = 1, y = 2;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'global': ('int one;\n@ x;\nint main() { printf("b\\n"); return 0; }\n', ''),
    'for': ('int main() {\nprintf("a\\n");\nfor (\n@ x = 1; x < 2; x++)\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'member': ('struct s { char c;\n@ m;\n};\nint main() { struct s x; printf("b\\n"); return 0; }\n', ''),
    'member of a union': ('union s { char c;\n@ m[2];\n};\nint main() { union s x; printf("b\\n"); return 0; }\n', ''),
    'param': ('int f(\n@ x) { printf("b\\n"); return 1; }\nint main() { printf("a\\n"); f(1); return 0; }\n', 'a\n'),
    'return': ('@ f(void) { return 1; }\nint main() { printf("b\\n"); return 0; }\n', ''),
    'typedef': ('\ntypedef @ T;\nint main() { printf("b\\n"); return 0; }\n', ''),
    'cast': ('int main() { int i;\nprintf("a\\n");\ni = (\n@)1;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'pointer cast': ('int main() { int i, *p;\nprintf("a\\n");\np = (\n@ *)&i;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'sizeof': ('int main() { int i;\nprintf("a\\n");\ni = sizeof(\n@);\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'pointer': ('int main() {\nprintf("a\\n");\n@ *x;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'array': ('int main() {\nprintf("a\\n");\n@ x[2];\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'static': ('int main() {\nprintf("a\\n");\nstatic @ x;\nprintf("b\\n");\nreturn 0; }\n', 'a\n'),
    'prototype': ('int printf(const char *, ...);\n@ f(int);\nint main() { printf("b\\n"); return 0; }\n', ''),
}


class C13(engine.Check):
    pid = 'C13'
    level = 'exploration'
    space = ('all sequences of up to 4 (5) of the 9 type keywords: the 89 that C accepts in 17 places, with each qualifier and storage class '
             'at each position (thorough: all pairs), the others in 16 places (those of 4: 4 places; of 5: 2); a structure, enumeration or typedef name '
             'next to each keyword or another such name, and every two storage classes in one list, in every order')
    rule = 'a case is a sequence and a place; it is judged by size, alignment, values held and signedness, or by the diagnostic on its line'
    assumptions = ['the types have the sizes of x86-64 Linux, plain char is signed', '_Bool, _Complex and the like are not supported by bic']

    def invalid(self):
        n = 5 if self.deep else 4
        for k in range(1, n + 1):
            for seq in itertools.product(KW, repeat=k):
                if meaning(seq):
                    continue
                places = list(BAD) if k <= 3 or (k == 4 and self.deep) else \
                    ['local', 'member', 'cast', 'return'] if k == 4 else ['local', 'typedef']
                for p in places:
                    yield p, ' '.join(seq)
        # a name of a type and something else that is a type
        names = ['T', 'struct A', 'struct { int q; }', 'union U', 'enum E', 'enum { QQ }', 'struct N']
        others = names + KW
        for a in names:
            for b in others:
                for p in BAD:
                    for s in sorted({(a, b), (b, a)}):
                        yield p, ' '.join(s)
        for a in names[:2]:
            for b, c in itertools.product(KW, repeat=2):
                for s in ((a, b, c), (b, a, c), (b, c, a)):
                    for p in ('local', 'param', 'cast'):
                        yield p, ' '.join(s)
        # storage classes
        sc = ['static', 'extern', 'auto', 'register', 'typedef']
        for a in sc:
            for b in sc:
                for s in (['int'], ['unsigned', 'char'], ['T'], ['struct A']):
                    for i in range(len(s) + 1):
                        for j in range(i, len(s) + 1):
                            x = s[:i] + [a] + s[i:j] + [b] + s[j:]
                            for p in ('local', 'global', 'array', 'pointer', 'local initialised'):
                                yield p, ' '.join(x)

    def valid(self):
        n = 0
        for key, t in sorted(VALID.items()):
            for seq in sorted(set(itertools.permutations(key))):
                for place in PLACES if t != 'void' else VOID_OK:
                    yield place, ' '.join(seq), t
                # qualifiers, anywhere
                quals = ['const', 'volatile'] if t != 'void' else []
                for q in quals:
                    for i in range(len(seq) + 1):
                        s = ' '.join(seq[:i] + (q,) + seq[i:])
                        for place in ('local', 'global', 'member', 'param', 'typedef', 'cast', 'sizeof', 'pointer', 'return'):
                            yield place, s, t
                for q in ('static', 'register', 'auto') if t != 'void' else ():
                    for i in range(len(seq) + 1):
                        s = seq[:i] + (q,) + seq[i:]
                        for place in ('local', 'array', 'pointer') + (('global',) if q == 'static' else ()):
                            yield place, ' '.join(s), t
                        for j in range(len(s) + 1) if self.deep or len(seq) < 3 else ():
                            yield 'local', ' '.join(s[:j] + ('const',) + s[j:]), t
                if t != 'void':
                    for i in range(len(seq) + 1):
                        s = ' '.join(seq[:i] + ('typedef',) + seq[i:])
                        yield 'typedef anywhere', s, t
                        if self.deep:
                            for q in ('const', 'volatile'):
                                for j in range(len(seq) + 1):
                                    a = list(seq)
                                    a.insert(i, q)
                                    a.insert(j, 'volatile')
                                    yield 'local', ' '.join(a), t
                                    yield 'cast', ' '.join(a), t

    def groups(self):
        v = [('valid',) + c for c in self.valid()]
        for i in range(0, len(v), 12):
            yield v[i:i + 12]
        seen = set()
        for c in self.invalid():
            if c not in seen:
                seen.add(c)
                yield [('invalid',) + c]

    def frag(self, c, n):
        _, place, s, t = c
        if place == 'typedef anywhere':
            return '%s T%d;\n' % (s, n), 'T%d x; %s printf("%%d\\n", (int)sizeof(T%d));' % (n, probe(t, 'x'), n), '%s\n%d\n' % (show(t, n), size(t))
        r = fragment(place, s, t, n)
        return r or ('', '', '')

    def build(self, cases):
        if cases[0][0] == 'invalid':
            _, p, s = cases[0]
            text, out = BAD[p]
            line = text[:text.index('@')].count('\n')
            head = 'int printf(const char *f, ...);\ntypedef int T; struct A { int a; }; union U { int a; }; enum E { EA };\n'
            return head + text.replace('@', s), out, line + 3
        fs, body, want, call = '', '', '', ''
        for i, c in enumerate(cases):
            f, b, w = self.frag(c, i)
            fs += f + 'void c%d(void) { %s%s }\n' % (i, V, b)
            call += 'c%d(); ' % i
            want += w
        return 'int printf(const char *f, ...);\n' + fs + 'int main() { %sreturn 0; }\n' % call, want, None

    def request(self, cases):
        return 'script', dict(text=self.build(cases)[0], timeout=20000)

    def judge(self, cases, res):
        text, want, line = self.build(cases)
        if line is None:
            if res.ended != 'exit 0' or res.out != want or res.err:
                return 'expected %r, got %s %r %r' % (want[:300], res.ended, res.out[:300], res.err[:200])
            return None
        if res.sig or res.timeout or res.rc == 0:
            return 'expected a diagnostic, got %s %r %r' % (res.ended, res.out[:100], res.err[:100])
        m = re.search(r'^t\.c:(\d+):\d+: .*error', res.err, re.M)
        if not m:
            return 'no located diagnostic: %r' % res.err[:200]
        if res.out not in (want, ''):
            return 'expected output %r, got %r' % (want, res.out)
        if 'syntax error' not in res.err:
            if res.out != want:
                return 'expected output %r, got %r' % (want, res.out)
            if int(m.group(1)) != line:
                return 'expected a diagnostic for line %d, got %r' % (line, res.err[:120])
        return None

    def stats(self, cases):
        return len(cases), len(cases) * (1 if cases[0][0] == 'invalid' else 12)

    def key(self, c):
        return '%s as a %s (%s)' % (c[2], c[1], c[3] if len(c) > 3 else 'invalid')


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C13)))
