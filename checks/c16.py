"""C16: a script gets its arguments, runs in order, and its result is the exit status.

All argument vectors up to a length over ordinary, empty, option-like and
special strings, for every form main() or top-level code can take; all exit
values over ways to return them; all sequences of kinds of top-level code up to
a depth against a model of what they print and where they end; and all mixes of
main() with other items.
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

ARGS = ['', 'a', '-v', '-s', '-T', '--', '-I', '-lfoo', '-', 'a b', '*', '$x', '"', '\n', '\xe9', 'x' * 300, '-1', 't.c', '\\n', "'", '%s', '#', '--help']
SHORT = ['', 'a', '-v', '-s', '-T', '--', '-I', 'a b', '"', 't.c', '%s']
PREFIX = {'none': [], 'I': ['-I', '/x'], 'Ij': ['-I/x'], 'lm': ['-lm'], 'l': ['-l', 'm'], 'D': ['-D'], 'II': ['-I', '/x', '-I', '/y'],
          'IlD': ['-I', '/x', '-lm', '-D']}
H = 'int printf(const char *f, ...);\nvoid exit(int n);\nvoid _exit(int n);\nint fflush(void *f);\nunsigned long strlen(const char *s);\nint puts(const char *s);\n'
PRINT = ('printf("%d\\n", argc); int i; for (i = 0; i < argc; i++) printf("%d[%s]\\n", (int)strlen(argv[i]), argv[i]); '
         'if (argv[argc]) printf("more"); else printf("end\\n");')
PTR = ('printf("%d\\n", argc); while (*argv) { printf("%d[%s]\\n", (int)strlen(*argv), *argv); argv++; } printf("end\\n");')
FORMS = {
    'array': 'int main(int argc, char *argv[]) { ' + PRINT + ' return argc; }\n',
    'ptr': 'int main(int argc, char **argv) { ' + PRINT + ' return argc; }\n',
    'walk': 'int main(int argc, char **argv) { ' + PTR + ' return argc; }\n',
    'other': 'int out(int argc, char **argv) { ' + PRINT + ' return argc; }\nint main(int n, char *v[]) { return out(n, v); }\n',
    'proto': 'int main(int argc, char *argv[]);\nint argc = 77;\nint main(int argc, char *argv[]) { ' + PRINT + ' return argc; }\n',
    'save': 'int argc; char **argv;\nint out(void) { ' + PRINT + ' return argc; }\nint main(int n, char **v) { argc = n; argv = v; return out(); }\n',
    'top': PRINT + '\nreturn argc;\n',
    'topfn': 'int out(int n) { ' + PRINT + ' return n; }\nreturn out(argc);\n',
    'global': 'int out() { ' + PRINT + ' return argc; }\nint main() { return out(); }\n',
    'count': 'int main(int argc) { printf("%d\\n", argc); return argc; }\n',
    'void': 'int main(void) { printf("void\\n"); return 5; }\n',
    'none': 'int main() { printf("void\\n"); return 5; }\n',
    'down': 'int main(int argc, char **argv) { int n; n = argc; printf("%d\\n", argc); while (argc--) printf("[%s]\\n", argv[argc]); return n; }\n',
    'change': 'int main(int argc, char **argv) { char *t; t = argv[argc - 1]; argv[argc - 1] = argv[0]; argv[0] = t; printf("%s\\n", argv[0]); '
              'argc = argc + 3; return argc - 3; }\n',
    'again': 'int main(int argc, char **argv) { if (argc) { printf("%s\\n", *argv); return main(argc - 1, argv + 1); } return 9; }\n',
}
# ways to end with a value: text with @ for the value
ENDS = {
    'main': 'int main() { return @; }\n',
    'mainvar': 'int v; int main() { v = @; return v; }\n',
    'long': 'long main() { return @; }\n',
    'llong': 'long long main() { return @; }\n',
    'short': 'short main() { return @; }\n',
    'top': 'return @;\n',
    'toplong': 'long v; v = @; return v;\n',
    'topshort': 'short v; v = @; return v;\n',
    'if': 'if (1) { printf(""); return @; } printf("no");\n',
    'else': 'if (0) { printf("no"); } else return @; printf("no");\n',
    'while': 'while (1) { int x; x = 1; if (x) return @; } printf("no");\n',
    'for': 'int i; for (i = 0; i < 3; i++) { if (i == 2) { return @; } } printf("no");\n',
    'block': '{ { return @; } printf("no"); } printf("no");\n',
    'call': 'int f(int x) { return x; } return f(@);\n',
    'mainif': 'int main() { int i; for (i = 0; i < 3; i++) { while (1) { if (i > 1) return @; break; } } return 1; }\n',
    'mainrec': 'int main(int n) { if (n < 4) return main(n + 1); return @; }\n',
    'exit': 'int main() { exit(@); return 1; }\n',
    'topexit': 'exit(@); printf("no");\n',
    'fnexit': 'int f(int n) { if (n) { f(n - 1); return 2; } exit(@); return 3; } int main() { f(3); return 1; }\n',
    '_exit': 'int main() { _exit(@); return 1; }\n',
    'fnret': 'int f(int n) { return @; } int main() { f(1); return f(2); }\n',
    'cast': 'unsigned long u; u = @; return (int)u;\n',
    'ternary': 'int main(int n) { return n ? @ : 1; }\n',
    'assign': 'int g; int main() { return g = @; }\n',
    'comma': 'int main() { return 1, @; }\n',
    'member': 'struct s { char c; int v; } s; s.v = @; return s.v;\n',
    'array': 'int a[3]; int main() { a[1] = @; return a[1]; }\n',
    'ptr': 'int a; int *p; p = &a; *p = @; return *p;\n',
    'static': 'int main() { static int a = @; return a; }\n',
}
SMALL = ['short', 'topshort']
# ways to end without a value: text, status
PLAIN = [('int main() { printf("x"); }\n', 0, 'x'), ('void main() { printf("x"); }\n', 0, 'x'), ('printf("x");\n', 0, 'x'), ('int x;\n', 0, ''),
         ('void f() { return; } f(); printf("x");\n', 0, 'x'), ('printf("x"); return; printf("y");\n', 0, 'x'), ('', 0, ''),
         ('int f() { return 3; } f();\n', 0, ''), ('int f() { return 3; } int main() { f(); }\n', 0, ''),
         ('int main() { return 3; } int f() { return 4; }\n', 3, ''), ('int f() { return 4; } int main() { f(); return 3; }\n', 3, ''),
         ('char main() { return 259; }\n', 3, ''), ('unsigned char c = 250; c = c + 9; return c;\n', 3, ''),
         ('long main() { return 4294967299; }\n', 3, ''), ('static int main() { return 5; }\n', 5, ''),
         ('int main; main = 3; return main;\n', 3, ''), ('int argc; argc = 3; return argc;\n', 3, ''), ('int argc = 8;\nreturn argc;\n', 8, ''),
         ('char *argv; argv = "ab"; return argv[1];\n', 98, ''), ('struct argv { int a; } argv; argv.a = 6; return argv.a;\n', 6, ''),
         ('enum { argc = 12 }; return argc;\n', 12, ''), ('int argv(int x) { return x + 1; } return argv(3);\n', 4, ''),
         ('typedef int number; number main() { return 3; }\n', 3, ''), ('return 1 == 1;\n', 1, ''), ("return 'a';\n", 97, ''),
         ('unsigned main() { return 4294967295u; }\n', 255, ''), ('int x = 3; return x++;\n', 3, ''), ('int x = 3; return ++x;\n', 4, ''),
         ('int main() { if (0) return 3; }\n', 0, ''), ('int main() { while (0) return 3; printf("x"); }\n', 0, 'x'),
         ('int main() { { return 7; } }\n', 7, ''), ('int main() {}\n', 0, ''), ('void main() { return; }\n', 0, ''),
         ('int main(void) { int main = 4; return main; }\n', 4, ''), ('int f(int main) { return main; } return f(5);\n', 5, ''),
         ('int f(int main) { return main; } int main() { return f(5) + 1; }\n', 6, ''),
         ('struct main { int x; } m; m.x = 2; return m.x;\n', 2, ''), ('int main_(int x) { return x; } return main_(4);\n', 4, ''),
         ('int remain; remain = 4; return remain;\n', 4, ''), ('int (*p)(int); int f(int x) { return x; } p = f; return p(9);\n', 9, ''),
         ('int main(int n) { int (*p)(int); p = main; if (n > 3) return n; return p(n + 1); }\n', 4, ''),
         ('int main(); int f() { return 2; } int main() { return f(); }\n', 2, ''),
         ('int f(); int main() { return f(); } int f() { return 2; }\n', 2, ''),
         ('int main() { return f(3); } int f(int x) { return x + 1; }\n', 4, ''),
         ('int g = 3; int h = 4; int main() { return g * h; }\n', 12, '')]
# kinds of top-level code: the text (@: position), and what it does to (g, output)
TOP = 'd D x i I w f b F c p t E s r R X n e z'.split()
STMTS = ['x;', ';', '{ }', 'if (x) x = 2;', 'while (0) ;', 'for (;0;) ;', 'return 3;', 'x++;', '{ int q; }', 'x = 3;', '5;', 'f(1);']


def top(seq):
    """(program, output, status) of a sequence of kinds of top-level code."""
    t, o, g, live, calls = 'int g = 1;\n', '', 1, True, []
    rc = 0
    for j, k in enumerate(seq):
        dead = not live
        if k == 'd':
            t += 'int v%d = 3;\n' % j
        elif k == 'D':
            t += 'int v%d = g; printf("v%%d\\n", v%d);\n' % (j, j)
            if live:
                o += 'v%d\n' % g
        elif k == 'x':
            t += 'g = g + 2; printf("x%d\\n", g);\n'
            if live:
                g += 2
                o += 'x%d\n' % g
        elif k == 'i':
            t += 'if (g > 3) printf("i%d\\n", g); else { g = g + 3; }\n'
            if live:
                if g > 3:
                    o += 'i%d\n' % g
                else:
                    g += 3
        elif k == 'I':
            t += 'if (g > 5) { printf("r"); return g + 1; }\n'
            if live and g > 5:
                o += 'r'
                rc, live = g + 1, False
        elif k == 'w':
            t += 'while (g < 8) { g = g + 1; if (g == 6) break; }\n'
            if live:
                while g < 8:
                    g += 1
                    if g == 6:
                        break
        elif k == 'f':
            t += 'for (int q = 0; q < 3; q++) { printf("f%d", q + g); if (g == 7) return 70 + q; }\n'
            if live:
                for q in range(3):
                    o += 'f%d' % (q + g)
                    if g == 7:
                        rc, live = 70 + q, False
                        break
        elif k == 'b':
            t += '{ int g = 50; g = g + 1; printf("b%d\\n", g); }\n'
            if live:
                o += 'b51\n'
        elif k == 'F':
            t += 'int h%d(int n) { if (n > 3) return n; g = g + 1; return n + g; }\n' % j
            calls.append(j)
        elif k == 'c':
            if calls:
                t += 'printf("c%%d\\n", h%d(g));\n' % calls[-1]
                if live:
                    n = g
                    if n <= 3:
                        g += 1
                        n += g
                    o += 'c%d\n' % n
            else:
                t += 'printf("c");\n'
                if live:
                    o += 'c'
        elif k == 'p':
            t += 'int h%d(int n);\n' % (j + 1)
        elif k == 't':
            t += 'typedef int T%d; T%d u%d; u%d = 4; g = g + (u%d == 4);\n' % ((j,) * 5)
            if live:
                g += 1
        elif k == 'E':
            t += 'enum { A%d = 2 }; g = g + A%d;\n' % (j, j)
            if live:
                g += 2
        elif k == 's':
            t += 'struct s%d { int a; } w%d; w%d.a = g; printf("s%%d\\n", w%d.a);\n' % ((j,) * 4)
            if live:
                o += 's%d\n' % g
        elif k == 'r':
            t += 'return g + 20;\n'
            if live:
                rc, live = g + 20, False
        elif k == 'R':
            t += 'return;\n'
            live = False
        elif k == 'X':
            t += 'int k%d() { g = g + 1; exit(g + 30); return 0; } if (g > 4) k%d();\n' % (j, j)
            if live and g > 4:
                g += 1
                rc, live = g + 30, False
        elif k == 'n':
            t += ';\n'
        elif k == 'e':
            t += 'g++, printf("e%d\\n", g);\n'
            if live:
                g += 1
                o += 'e%d\n' % g
        elif k == 'z':
            t += 'static int z%d = 4; z%d = z%d + g; printf("z%%d\\n", z%d);\n' % ((j,) * 4)
            if live:
                o += 'z%d\n' % (4 + g)
    t += 'printf("end%d\\n", g);\n'
    if live:
        o += 'end%d\n' % g
    return t, o, rc & 255


def mix(seq):
    """The items of a file: (text, whether it must be refused)."""
    t = ''
    for j, k in enumerate(seq):
        t += {'M': 'int main() { printf("main\\n"); return 4; }\n', 'P': 'int main();\n', 'f': 'int f%d(int a) { return a; }\n' % j,
              'v': 'int v%d = 3;\n' % j, 's': 'struct s%d { int a; };\n' % j, 't': 'typedef int T%d;\n' % j, 'e': 'enum { A%d };\n' % j,
              'p': 'int f%d(int a);\n' % (j + 9), 'a': 'int *a%d, b%d[3];\n' % (j, j)}.get(k) or k + '\n'
    return t


def items(n):
    """A file with n items of top-level code, definitions and statements, in turn."""
    t, o, g = 'int g = 0;\n', '', 0
    for i in range(n):
        t += ('int f%d(int x) { return x + g; }\n', 'int v%d = 3;\n', 'g = g + 1 + v%d - 3;\n', 'if (f%d(0) == g) g = g + 1;\n', 'printf("%%d,", g);\n')[i % 5] % ((i - i % 5,) if i % 5 != 4 else ())
        g += i % 5 in (2, 3)
        if i % 5 == 4:
            o += '%d,' % g
    return t + 'return g;\n', o, g & 255


class C16(engine.Check):
    pid = 'C16'
    rule = ('a case is one run of the program: an argument vector with a form of main and options before -s; a value and a way to end with it; '
            'a sequence of top-level code; or a mix of main with other items. Output and exit status must be those of the model')
    space = ('15 forms x argument vectors of length <= 1 over 23 strings, <= 2 over 11, 5 forms x length 2 over 23, 2 forms x length 3 over 11 (thorough: 5 forms x length 3 over 23, 2 x 4 over 11); '
             '8 option prefixes x 2 spellings of -s x 23 strings; exit values -300..600 and around the limits of the types x 30 ways to end (quick: every value x 4 ways, every 13th x all); '
             'all sequences of <= 3 of 20 kinds of top-level code (thorough: 4); all sequences of <= 3 items with main and <= 4 with a statement; 20 script names; argument vectors, arguments, options and files of all sizes of a list (up to 1025 arguments and options, thorough 4097; 100000 characters; 4097 items)')
    assumptions = ['the exit status is the low 8 bits of the value, as the system has it']

    def groups(self):
        deep = self.deep
        done = set()

        def vec(forms, alpha, n):
            for f in forms:
                for v in itertools.product(alpha, repeat=n):
                    c = ('args', 'none', 0, f, v)
                    if c not in done:
                        done.add(c)
                        yield [c]
        all_, five, two = list(FORMS), ['array', 'walk', 'top', 'down', 'save'], ['array', 'topfn']
        for n in (0, 1):
            yield from vec(all_, ARGS, n)
        yield from vec(all_, SHORT, 2)
        yield from vec(five, ARGS, 2)
        yield from vec(five if deep else two, ARGS if deep else SHORT, 3)
        if deep:
            yield from vec(two, SHORT, 4)
        # many arguments
        for n in (5, 10, 50, 200):
            for f in FORMS:
                yield [('args', 'none', 0, f, tuple(ARGS[i % len(ARGS)] for i in range(n)))]
        for n in scale.SIZES:
            if n <= (4097 if deep else 1025):
                for f in ('array', 'walk', 'top', 'down', 'save', 'change') + (('again',) if n < 1000 else ()):
                    yield [('args', 'none', 0, f, tuple(ARGS[i * i % len(ARGS)] if i % 3 else 'a%d' % i for i in range(n)))]
                yield [('args', n, 0, 'array', ('-s', 'b'))]
            for f in ('array', 'top', 'walk'):
                yield [('args', 'none', 0, f, ('a', 'y' * n, 'b'))]
            if n <= 4097:
                yield [('items', n)]
        for p in PREFIX:
            for j in (0, 1):
                for f in ('array', 'top', 'void'):
                    for a in [()] + [(a,) for a in ARGS] + ([(a, b) for a in SHORT for b in SHORT] if deep else []):
                        yield [('args', p, j, f, a)]
        vals = list(range(-300, 601))
        big = [32767, -32768, 65535, 65536, 65537, 2147483647, -2147483648, 100000, -100000, 1 << 20, (1 << 20) + 7]
        for e in ENDS:
            for v in vals + big:
                if e in SMALL and not -32768 <= v <= 32767:
                    continue
                if deep or e in ('main', 'top', 'for', 'exit') or v % 13 == 0 or v in (1, 2, 127, 128, 129, 254, 255, 256, 257, -1, -128, -129) or v in big:
                    yield [('end', e, v)]
        for j in range(len(PLAIN)):
            yield [('plain', j)]
            for a in ('a', '-v'):
                if 'int n)' not in PLAIN[j][0]:
                    yield [('plain', j, a)]
        for n in range(5 if deep else 4):
            for s in itertools.product(TOP, repeat=n):
                yield [('top', s)]
        items = 'M P f v s t e p a'.split() + STMTS
        for n in (1, 2, 3, 4):
            for s in itertools.product(items, repeat=n):
                if s.count('M') != 1 or n == 4 and (sum(x in STMTS for x in s) != 1 or not deep and not {'f', 'v'} & set(s)):
                    continue
                yield [('mix', s)]
        for n in ['t.c', 'a b.c', '$x.c', "a'b.c", 'a;b', 'x', '-x.c', 'a*b', '(x).c', 'a&b', '`ls`', '#a', 'a|b', '~', 'a#b.c', '\xe9.c', 'a>b', '$(ls).c', 'x' * 100, '%s%d.c']:
            for f in ('array', 'top'):
                yield [('name', n, f, ('a', '-v'))]
        for n in ('nosuch.c', '/nosuch/x.c', '.', 'no such'):
            yield [('missing', n)]

    def stats(self, cases):
        c, = cases
        n = len(c[1]) if c[0] in ('top', 'mix') else c[1] if c[0] == 'items' else 1
        return n + 1, n

    def expect(self, c):
        if c[0] in ('args', 'name'):
            name = c[1] if c[0] == 'name' else 't.c'
            f, v = (c[2], c[3]) if c[0] == 'name' else (c[3], c[4])
            if name[0] == '-':
                name = './' + name
            a = [name] + list(v)
            n = len(a)
            lst = ''.join('%d[%s]\n' % (len(x), x) for x in a)
            if f == 'count':
                return '%d\n' % n, n & 255
            if f in ('void', 'none'):
                return 'void\n', 5
            if f == 'down':
                return '%d\n' % n + ''.join('[%s]\n' % x for x in a[::-1]), n & 255
            if f == 'change':
                return a[-1] + '\n', n & 255
            if f == 'again':
                return ''.join(x + '\n' for x in a), 9
            return '%d\n%send\n' % (n, lst), n & 255
        if c[0] == 'end':
            return '', c[2] & 255
        if c[0] == 'plain':
            return PLAIN[c[1]][2], PLAIN[c[1]][1]
        if c[0] == 'items':
            return items(c[1])[1:]
        if c[0] == 'top':
            return top(c[1])[1:]
        if c[0] == 'mix':
            if any(x in STMTS for x in c[1]):
                return None
            return 'main\n', 4
        return None

    def text(self, c):
        if c[0] == 'args':
            return FORMS[c[3]]
        if c[0] == 'name':
            return FORMS[c[2]]
        if c[0] == 'end':
            return ENDS[c[1]].replace('@', str(c[2]) if c[2] != -2 ** 31 else '(-2147483647-1)')
        if c[0] == 'plain':
            return PLAIN[c[1]][0]
        if c[0] == 'items':
            return items(c[1])[0]
        if c[0] == 'top':
            return top(c[1])[0]
        if c[0] == 'mix':
            return 'int x = 1;\nint f(int n) { printf("f"); return 1; }\n' + mix(c[1])

    def request(self, cases):
        c, = cases
        kw = dict(text=H + (self.text(c) or ''))
        if c[0] == 'args':
            kw['args'] = c[4]
            kw['pre'] = PREFIX[c[1]] if c[1] in PREFIX else ['-I', '/x'] * c[1]
            kw['joined'] = c[2]
        elif c[0] == 'name':
            kw['args'] = c[3]
            kw['name'] = c[1]
        elif c[0] == 'plain':
            kw['args'] = c[2:]
        return 'script', kw

    def run(self, h, cases, real):
        c, = cases
        kw = self.request(cases)[1]
        joined = kw.pop('joined', 0)
        if c[0] == 'missing':
            return h.real(['-s', c[1]])
        if c[0] == 'name':
            return self.named(h, kw)
        if real:
            if joined:
                return None
            return h.real_script(**kw)
        if joined:
            head = '# 0 "t.c"\n# 1 "t.c"\n'
            return h.request(['bic', *kw['pre'], '-st.c', *kw['args']], script=head + kw['text'])
        return h.script(**kw)

    def named(self, h, kw):
        n = kw['name']
        if n[0] == '-':
            kw = dict(kw, name='./' + n)
        return h.real_script(**kw)

    def execute(self, h, cases):
        return self.run(h, cases, False)

    def execute_real(self, h, cases):
        return self.run(h, cases, True)

    def judge(self, cases, r):
        c, = cases
        w = self.expect(c)
        if w is None:
            if r.rc in (None, 0) or r.timeout:
                return 'must be refused, but %s' % r.ended
            if r.out:
                return 'refused, but only after it printed %r' % r.out[:200]
            if not r.err.strip():
                return 'refused without a diagnostic'
            return None
        if r.ended != 'exit %d' % w[1]:
            return 'ended with %s, must be exit %d: %r' % (r.ended, w[1], r.err[:300])
        if r.out != w[0]:
            return 'printed %r, must print %r' % (r.out[:300], w[0][:300])
        return None


if __name__ == '__main__':
    sys.exit(engine.main(C16))
