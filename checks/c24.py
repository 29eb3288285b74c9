"""C24: `<REPL>;` in a script runs a session in the scope where it stands.

Scripts that stop at every kind of place (top level, function, block, loop,
branch, recursion, unbraced body), several times; all sequences of lines up to
a depth, spread over the sessions in every way, against a model of the script
and the session together.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine, scale, sess
from sess import *

P = lambda t: ('p', t)
S = ('s', 's', (('a', INT), ('b', CHAR)))


def bad(text):
    return text, lambda sc: ERR


def fatal(text):
    return text, lambda sc: FATAL


def get(*names):
    """The value of a variable."""
    return [('%s;' % n, (lambda n: lambda sc: show(sc[n]) + '\n' if n in sc else FATAL)(n)) for n in names]


def ask(name, line):
    def m(sc):
        if name not in sc:
            return 'Object not found\n'
        l = line
        for d in sc.d:
            if name in d:
                l = d.get('@' + name, line)
                break
        return inspected(name, sc[name], l if isinstance(l, str) else 't.c:%d' % l)
    return '?' + name, m


def put(text, name, f, *needs):
    """An assignment; f(sc) is the value."""
    def m(sc):
        if any(n not in sc for n in (name,) + needs):
            return FATAL
        o = sc[name]
        v = f(sc) if callable(f) else f
        if v is None:
            return None
        o[1] = wrap(o[0], v) if o[0][0] in 'if' else v
        return show(o) + '\n'
    return text, m


def ex(text, f, *needs):
    def m(sc):
        if any(n not in sc for n in needs):
            return FATAL
        r = f(sc)
        return r if r is None or r is FATAL else '%s\n' % r
    return text, m


def decl(text, name, t, v=0):
    def m(sc):
        if name in sc.inner:
            return FATAL
        sc.inner[name] = new(t, v(sc) if callable(v) else v)
        # the line of the session; calls of the model count the lines
        return ANY
    return text, m


def V(sc, n):
    return sc[n][1]


def I(v=0):
    return new(INT, v)


PF = 'int printf(const char *f, ...);\n'
E = '\x04'
SIZED = {}      # a size -> (the script, the lines, what is printed before the first and by every line, the exit status)


def sized(quick, deep=None):
    def f(g):
        SIZED[g.__name__.strip('_').replace('_', ' ')] = (g, quick, deep or quick)
        return g
    return f


def inner(n):
    """The function's body with n sessions of three lines."""
    t, l, w, k = 0, [], [''], 0
    for i in range(n):
        k = i * 3 + t
        t = wrap(INT, t * 5 + i)
        l += ['t = t * 5 + i;', 'k;', E]
        w += ['%d\n' % t, '%d\n' % k, 'at %d %d\n' % (i, t)]
    w[-1] += 'end %d\n' % t
    return l, w, t & 63


@sized(129, 513)
def loop(n):
    l, w, r = inner(n)
    return PF + 'int main() {\n int t = 0;\n for (int i = 0; i < %d; i++) {\n  long k = i * 3 + t;\n  <REPL>;\n  printf("at %%d %%d\\n", i, t);\n }\n printf("end %%d\\n", t);\n return t & 63;\n}\n' % n, l, w, r


@sized(129, 513)
def top_loop(n):
    l, w, r = inner(n)
    return PF + 'int t = 0; int i = 0; long k;\nwhile (i < %d) {\n k = i * 3 + t;\n <REPL>;\n printf("at %%d %%d\\n", i, t); i++;\n}\nprintf("end %%d\\n", t);\nreturn t & 63;\n' % n, l, w, r


@sized(129, 513)
def in_a_row(n):
    t, l, w = 3, [], ['']
    for i in range(n):
        t = wrap(INT, t * 3 + i)
        l += ['t = t * 3 + %d;' % i, E]
        w.append('%d\n' % t)
        t = wrap(INT, t + 1)
        w.append('%d\n' % t)
    return PF + 'int main() {\n int t = 3;\n' + ' <REPL>; t++; printf("%d\\n", t);\n' * n + ' return t & 63;\n}\n', l, w, t & 63


@sized(129, 513)
def functions(n):
    """Every function stops."""
    s = PF + ''.join('int f%d(int p%d) { short q = p%d + %d; <REPL>; return q; }\n' % (i, i, i, i) for i in range(n)) + 'int main() {\n int r = 0;\n' + ''.join(' r = f%d(r);\n' % i for i in range(n)) + ' printf("%d\\n", r);\n return 5;\n}\n'
    l, w, r = [], [''], 0
    for i in range(n):
        q = r + i
        l += ['p%d;' % i, 'q = q - %d;' % (q // 2), E]
        w += ['%d\n' % r, '%d\n' % (q - q // 2), '']
        r = q - q // 2
    w[-1] = '%d\n' % r
    return s, l, w, 5


@sized(513, 2049)
def depth(n):
    """The stop is n calls deep."""
    return (PF + 'int m;\nint f(int d, int k) {\n int r;\n if (d == 0) { long z = k; <REPL>; return z + d; }\n r = f(d - 1, k + d);\n return r + 1;\n}\nint main() {\n int r = f(%d, 4);\n printf("%%d %%d\\n", r, m);\n return 6;\n}\n' % n,
            ['k;', 'z = z + d + 1;', 'm = k;', 'd = 3;', E], ['', '%d\n' % (4 + n * (n + 1) // 2), '%d\n' % (5 + n * (n + 1) // 2), '%d\n' % (4 + n * (n + 1) // 2), '3\n', '%d %d\n' % (8 + n + n * (n + 1) // 2, 4 + n * (n + 1) // 2)], 6)


@sized(129, 513)
def unwinding(n):
    """Every call stops on the way down, and again on the way up."""
    s = PF + 'int f(int d) {\n int x = d * 2, r = 0;\n <REPL>;\n if (d > 0) r = f(d - 1);\n { int y = r + x; <REPL>; r = y; }\n return r;\n}\nint main() {\n printf("%%d\\n", f(%d));\n return 7;\n}\n' % (n - 1)
    l, w, x = [], [''], {}
    for d in range(n - 1, -1, -1):
        x[d] = d * 2 + d % 3
        l += ['x = x + %d;' % (d % 3), E]
        w += ['%d\n' % x[d], '']
    r = 0
    for d in range(n):
        y = r + x[d]
        r = y - d
        l += ['d;', 'y;', 'y = y - d;', E]
        w += ['%d\n' % d, '%d\n' % y, '%d\n' % r, '']
    w[-1] = '%d\n' % r
    return s, l, w, 7


@sized(257, 1025)
def blocks(n):
    return (PF + 'int main() {\n' + ''.join('{ int v%d = %d; char w = %d;\n' % (i, i * 7, i % 100) for i in range(n)) + '<REPL>;\nprintf("%%d %%d %%d\\n", v0, v%d, w);\n' % (n - 1) + '}\n' * n + 'return 8;\n}\n',
            ['v0;', 'v%d;' % (n // 2), 'v%d;' % (n - 1), 'w;', 'v0 = v%d + 1;' % (n // 2), 'w = 5;', 'v%d = v0;' % (n // 2), 'v%d;' % n, ],
            ['', '0\n', '%d\n' % (n // 2 * 7), '%d\n' % (n * 7 - 7), '%d\n' % ((n - 1) % 100), '%d\n' % (n // 2 * 7 + 1), '5\n', '%d\n' % (n // 2 * 7 + 1), FATAL], 1)


@sized(1025, 4097)
def locals_(n):
    v = lambda i: (i * 37 - 5) % 1000
    return (PF + 'int main() {\n' + ''.join('int v%d = %d;\n' % (i, v(i)) for i in range(n)) + '<REPL>;\nprintf("%%d %%d\\n", v0, v%d);\nreturn 9;\n}\n' % (n - 1),
            ['v%d;' % (n - 1), 'v0;', 'v%d;' % (n // 3), '?v%d' % (n - 1), '?v%d' % n, 'v0 = v%d + 1;' % (n // 3), 'v%d = v0 + v0;' % (n - 1), E],
            ['', '%d\n' % v(n - 1), '%d\n' % v(0), '%d\n' % v(n // 3), inspected('v%d' % (n - 1), new(INT, v(n - 1)), 't.c:%d' % (n + 2)), 'Object not found\n', '%d\n' % (v(n // 3) + 1), '%d\n' % (v(n // 3) * 2 + 2),
             '%d %d\n' % ((v(n // 3) + 1) * (2 if n == 1 else 1), v(n // 3) * 2 + 2)], 9)


@sized(1025, 4097)
def globals_(n):
    v = lambda i: (i * 37 - 5) % 1000
    return (PF + ''.join('short v%d = %d;\n' % (i, v(i)) for i in range(n)) + 'int f() { <REPL>; return v0; }\nprintf("%d\\n", f());\nreturn 9;\n',
            ['v%d;' % (n - 1), 'v%d;' % (n // 3), '?v%d' % (n - 1), '?v%d' % n, 'v0 = v%d + 1;' % (n // 3), E],
            ['', '%d\n' % v(n - 1), '%d\n' % v(n // 3), inspected('v%d' % (n - 1), new(SHORT, v(n - 1)), 't.c:%d' % (n + 1)), 'Object not found\n', '%d\n' % (v(n // 3) + 1), '%d\n' % (v(n // 3) + 1)], 9)


@sized(257, 1025)
def parameters(n):
    return (PF + 'int f(%s) {\n <REPL>;\n return p0 + p%d;\n}\nprintf("%%d\\n", f(%s));\nreturn 9;\n' % (', '.join('int p%d' % i for i in range(n)), n - 1, ', '.join('%d' % (i * 3) for i in range(n))),
            ['p%d;' % (n - 1), 'p0;', 'p%d;' % (n // 2), 'p%d = 1000;' % (n - 1), 'p%d;' % n],
            ['', '%d\n' % (n * 3 - 3), '0\n', '%d\n' % (n // 2 * 3), '1000\n', FATAL], 1)


@sized(1025, 4097)
def lines(n):
    x, l, w = 1, [], ['']
    for i in range(n):
        x = wrap(INT, x * 3 + i)
        l.append('x = x * 3 + %d;' % i)
        w.append('%d\n' % x)
    return PF + 'int x = 1;\nint main() { int y = 3;\n<REPL>;\nprintf("%d %d\\n", x, y);\nreturn 4; }\n', l + ['y = x;', E], w + ['%d\n' % x, '%d %d\n' % (x, x)], 4


@sized(257, 1025)
def wrong(n):
    b = ['x x;', 'x = (1;', 'break;', ')', 'int;;', 'x = @;']
    return PF + 'int main() { int x = 1;\n<REPL>;\nprintf("%d\\n", x);\nreturn 4; }\n', [b[i % 4] for i in range(n)] + ['x;', 'x = 9;', E], [''] + [ERR] * n + ['1\n', '9\n', '9\n'], 4


@sized(513, 2049)
def declared(n):
    """The session's declarations, and the next session's."""
    return (PF + 'int main() {\n int x = 5;\n <REPL>;\n x++;\n <REPL>;\n printf("%d\\n", x);\n return 4;\n}\n',
            ['int d%d = x + %d;' % (i, i) for i in range(n)] + ['x = d0 + d%d;' % (n - 1), E, 'd%d;' % (n // 2), 'd0 = x;', 'x = d%d;' % (n - 1), E],
            [''] + [ANY] * n + ['%d\n' % (9 + n), '', '%d\n' % (5 + n // 2), '%d\n' % (10 + n), '%d\n' % ((10 + n) if n == 1 else 4 + n), '%d\n' % ((10 + n) if n == 1 else 4 + n)], 4)


@sized(33, 129)
def within(n):
    """A session that calls what stops, whose session calls it, ..."""
    l, w = [], ['']
    for i in range(n):
        l += ['g = g + %d + b;' % i, 'f(b + 1);']
        w += ['%d\n' % (sum(range(i + 1)) * 2), '']
    l += ['b = b * 2;', E]
    w += ['%d\n' % (n * 2), '%d\n' % (n * 2 + sum(range(n)) * 2)]
    for i in range(n - 1, -1, -1):
        l += ['b;', E]
        w += ['%d\n' % i, '%d\n' % (i + sum(range(n)) * 2)]
    w[-1] = 'r %d\n' % (sum(range(n)) * 2)
    return PF + 'int g;\nint f(int a) { int b = a; <REPL>; return b + g; }\nint main() {\n int r = f(0);\n printf("r %d\\n", r);\n return 3;\n}\n', l, w, 3


@sized(5000, 20000)
def before(n):
    """The stop, after n passes of a loop; as many more follow."""
    t = sum(i % 7 for i in range(n))
    return (PF + 'struct s { int a; char *n; };\nint main() {\n int t = 0, i; struct s s; char *p = "text"; s.a = 3; s.n = "name";\n for (i = 0; i < %d; i++) t += i %% 7;\n <REPL>;\n for (i = 0; i < %d; i++) t += s.a;\n <REPL>;\n printf("%%d %%s %%s\\n", t, p, s.n);\n return 2;\n}\n' % (n, n),
            ['t;', 's.a = 2;', 'char c = 7;', 'p = s.n;', E, 't;', 'c;', 's.n = "other";', 's;', E],
            ['', '%d\n' % t, '2\n', ANY, '0xP ("name")\n', '', '%d\n' % (t + 2 * n), show(new(CHAR, 7)) + '\n', '0xP ("other")\n', ANY, '%d name other\n' % (t + 2 * n)], 2)


@sized(1000, 5000)
def where(n):
    """What stands on the n-th line."""
    return (PF + '\n' * n + 'int x = 3;\nint main() {\n' + '\n' * n + 'int y = 4;\n<REPL>;\nint z = 5;\n' + '\n' * n + '<REPL>;\nreturn z;\n}\n',
            ['?x', '?y', '?z', E, '?z', 'z = 17;', E],
            ['', inspected('x', new(INT, 3), 't.c:%d' % (n + 2)), inspected('y', new(INT, 4), 't.c:%d' % (2 * n + 4)), 'Object not found\n', '', inspected('z', new(INT, 5), 't.c:%d' % (2 * n + 6)), '17\n', ''], 17)


@sized(513, 2049)
def array(n):
    return (PF + 'int main() {\n short v[%d]; int i;\n for (i = 0; i < %d; i++) v[i] = i;\n <REPL>;\n printf("%%d\\n", v[%d]);\n return 2;\n}\n' % (n, n, n - 1),
            ['v[%d];' % (n - 1), 'v[%d] = v[%d] + 300;' % (n - 1, n // 2), 'i;', E], ['', '%d\n' % (n - 1), '%d\n' % (n // 2 + 300), '%d\n' % n, '%d\n' % (n // 2 + 300)], 2)


@sized(257, 1025)
def members(n):
    return (PF + 'struct s { %s };\nint main() {\n struct s v;\n%s\n <REPL>;\n printf("%%d\\n", v.m%d);\n return 2;\n}\n' % (' '.join('int m%d;' % i for i in range(n)), '\n'.join(' v.m%d = %d;' % (i, i * 3) for i in range(n)), n - 1),
            ['v.m%d;' % (n - 1), 'v.m%d = v.m%d + 300;' % (n - 1, n // 2), 'v;', E],
            ['', '%d\n' % (n * 3 - 3), '%d\n' % (n // 2 * 3 + 300), '{\n' + ''.join('.m%d = %d\n' % (i, n // 2 * 3 + 300 if i == n - 1 else i * 3) for i in range(n)) + '}\n', '%d\n' % (n // 2 * 3 + 300)], 2)


@sized(257, 1025)
def long_name(n):
    a = 'v' + 'x' * n
    return (PF + 'int main() {\n int %sa = 1, %sb = 2;\n <REPL>;\n printf("%%d %%d\\n", %sa, %sb);\n return 2;\n}\n' % (a, a, a, a), [a + 'b;', '%sa = %sb + 7;' % (a, a), 'long %sc = 5;' % a, '%sb = %sc;' % (a, a), a + 'd;'],
            ['', '2\n', '9\n', ANY, '5\n', FATAL], 1)



class C24(sess.Scripts):
    pid = 'C24'
    batch = 16
    rule = ('a case is a script with its sessions; the script and every line must print what the model says, wrong lines must be reported, and the exit status must be the '
            "model's; a transition is one line")
    space = ('all sequences of <= 3 lines (thorough 4) over 9-16 lines, spread in every way over the sessions of 13 scripts that stop at top level, in functions, blocks, branches, while and for loops, '
             'recursion, unbraced bodies, several times in a row and in functions that a session calls; with and without a startup file, with includes; programs and sessions of %d kinds at sizes of every order of magnitude up to 33-5000 (thorough up to 129-20000)' % len(SIZED))

    def setup(self, scratch):
        os.makedirs(scratch + '/home', exist_ok=True)
        os.makedirs(scratch + '/empty', exist_ok=True)
        with open(scratch + '/home/.bic', 'w') as f:
            f.write('int rx = 3;\nint bump(int d) { static int n; n = n + d; rx = rx + n; return rx; }\nstruct rs { int m; };\n')
        with open(scratch + '/k.h', 'w') as f:
            f.write('#define KM 7\nint kx = 20;\nint kf(int a) { return a + kx; }\n')

    def options(self, label):
        o = dict(env=['HOME=' + self.scratch + ('/home' if label.startswith('rc') else '/empty')])
        if label.startswith('inc'):
            o['pre'] = ['-I', self.scratch]
        return o

    def templates(self):
        d = self.deep
        pf = 'int printf(const char *f, ...);\n'

        def top():
            G = dict(x=I(3), s=new(S), p=new(P(CHAR), 'abc'))
            sc = Scope(G)
            yield '', sc
            G['x'][1] += 1
            yield 'one %d\n' % V(sc, 'x'), sc
            G['y'] = I(V(sc, 'x') * 2)
            G['s'][1]['a'][1] = V(sc, 'y')
            yield '', sc
            return 'two %d %d\n' % (V(sc, 'y'), G['s'][1]['a'][1]), (V(sc, 'x') + V(sc, 'y')) & 255
        yield ('top', pf + 'int x = 3; struct s { int a; char b; } s; char *p = "abc";\n<REPL>;\nx = x + 1;\nprintf("one %d\\n", x);\n<REPL>;\nint y = x * 2; s.a = y;\n<REPL>;\nprintf("two %d %d\\n", y, s.a);\nreturn x + y;\n', top,
               get('x', 'y', 's') + [put('x = 10;', 'x', 10), put('y = x + 1;', 'y', lambda sc: V(sc, 'x') + 1, 'x'), ask('x', 2), ask('y', 7), ask('p', 2),
                                     put('p = "zz";', 'p', 'zz'), fatal('int x;'), bad('int q'), bad('x = (1;'), ex('s.b = x;', lambda sc: (sc['s'][1]['b'].__setitem__(1, wrap(CHAR, V(sc, 'x'))), show(sc['s'][1]['b']))[1], 'x'),
                                     ('struct s w;', lambda sc: FATAL if 'w' in sc else (sc.inner.update(w=new(S)), ANY)[1]), ex('w.a = s.a + 1;', lambda sc: (sc['w'][1]['a'].__setitem__(1, sc['s'][1]['a'][1] + 1), show(sc['w'][1]['a']))[1], 'w')], 3 if d else 2)

        def fun(G):
            def f(n, s):
                P_ = dict(n=I(n), s=new(sess_ptr, s))
                L = dict(a=I(P_['n'][1] * 2))
                out = ''
                for i in range(2):
                    Li = dict(i=I(i))
                    B = dict(b=new(SHORT, L['a'][1] + Li['i'][1]))
                    sc = Scope(B, Li, L, P_, G)
                    yield out, sc
                    out = '%d %d %d %d\n' % (L['a'][1], B['b'][1], Li['i'][1], P_['n'][1])
                    L['a'][1] = wrap(INT, L['a'][1] + B['b'][1])
                    G['st'][1] += 1
                    if Li['i'][1] != i:
                        return None     # the session changed the loop's count: not in these cases
                return out, L['a'][1] + G['st'][1]
            return f

        def locals_():
            G = dict(g=I(5))
            H = dict(G, st=I(1))     # the static object is visible only inside
            o, r = yield from fun(H)(3, 'zz')
            return o + 'r %d g %d\n' % (r, G['g'][1]), r & 127
        sess_ptr = P(CHAR)
        ftext = ('int g = 5;\nint f(int n, char *s) {\n int a = n * 2; static int st = 1;\n for (int i = 0; i < 2; i++) {\n  short b = a + i;\n  <REPL>;\n  printf("%d %d %d %d\\n", a, b, i, n);\n'
                 '  a = a + b; st++;\n }\n return a + st;\n}\nint main() {\n int r = f(3, "zz");\n printf("r %d g %d\\n", r, g);\n return r & 127;\n}\n')
        lops = get('a', 'b', 'i', 'n', 'st', 'g', 'r', 's') + [
            put('a = b - 20;', 'a', lambda sc: V(sc, 'b') - 20), put('b = 70000;', 'b', 70000), put('n = n + 9;', 'n', lambda sc: V(sc, 'n') + 9), put('g = a;', 'g', lambda sc: V(sc, 'a')),
            put('st = 50;', 'st', 50), ask('a', 4), ask('b', 6), ask('n', 3), ask('i', 5), ask('st', 4), ask('s', 3), fatal('int b;'), decl('long a2 = 6;', 'a2', LONG, 6), put('a2 = a2 + a;', 'a2', lambda sc: V(sc, 'a2') + V(sc, 'a')), bad('a +'),
            put('s = "new";', 's', 'new')]
        yield 'locals', pf + ftext, locals_, lops, 2
        yield 'locals2', pf + ftext, locals_, [lops[i] for i in (0, 1, 8, 9, 10, 12, 19, 20, 21, 23)], 4 if d else 3

        def rec():
            G = dict(d=I(0))

            def f(n):
                L = dict(n=I(n))
                out = ''
                if n > 0:
                    o, r = yield from f(n - 1)
                    L['x'] = I(r)
                    out = o
                    B = {}
                    yield out, Scope({}, dict(n=L['n'], x=L['x']), G)
                    out = ''
                    return out, L['x'][1] + L['n'][1]
                G['d'][1] += 1
                yield out, Scope({}, dict(n=L['n']), G)
                return 'base\n', L['n'][1]
            o, r = yield from f(2)
            return o + '%d %d\n' % (r, G['d'][1]), r & 127
        rtext = ('int d;\nint f(int n) {\n if (n > 0) {\n  int x = f(n - 1);\n  <REPL>;\n  return x + n;\n }\n d++;\n { <REPL>; }\n printf("base\\n");\n return n;\n}\n'
                 'int main() {\n int r = f(2);\n printf("%d %d\\n", r, d);\n return r & 127;\n}\n')
        rops = get('n', 'x', 'd') + [put('n = n + 5;', 'n', lambda sc: V(sc, 'n') + 5), put('x = 30;', 'x', 30), put('d = d + 10;', 'd', lambda sc: V(sc, 'd') + 10), ask('n', 3), ask('x', 5), bad('n n;'), fatal('nosuch;')]

        # in the inner block that only holds the stop, x and n aren't declared in the same scope
        def rec2():
            G = dict(d=I(0))

            def f(n):
                Pm = dict(n=I(n))
                if n > 0:
                    o, r = yield from f(n - 1)
                    B = dict(x=I(r))
                    yield o, Scope(B, Pm, G)
                    return '', B['x'][1] + Pm['n'][1]
                G['d'][1] += 1
                yield '', Scope({}, Pm, G)
                return 'base\n', Pm['n'][1]
            o, r = yield from f(2)
            return o + '%d %d\n' % (r, G['d'][1]), r & 127
        yield 'recursion', pf + rtext, rec2, rops, 4 if d else 3

        def nest():
            G = dict(g=I(5))

            def f(n):
                L = dict(n=I(n), a=I(2 * n))
                yield '', Scope(L, G)
                G['g'][1] += L['a'][1]
                return '', L['a'][1] + 1
            def line(sc, n):
                o, r = yield from f(n)
                return o + '%d\n' % r, 0
            G['@f'] = line
            M = {}
            o, r = yield from f(3)
            M['r'] = I(r)
            yield o, Scope(M, G)
            return 'r %d g %d\n' % (M['r'][1], G['g'][1]), M['r'][1] & 127
        ntext = 'int g = 5;\nint f(int n) { int a = 2 * n; <REPL>; g = g + a; return a + 1; }\nint main() {\n int r = f(3); <REPL>;\n printf("r %d g %d\\n", r, g);\n return r & 127;\n}\n'

        def callf(n):
            return lambda sc: sc['@f'](sc, n)

        def callset(sc):
            def g():
                o, r = yield from sc['@f'](sc, 4)
                r = int(o)
                sc['r'][1] = r
                return '%d\n' % r, 0
            return g() if 'r' in sc else FATAL
        yield 'calls', pf + ntext, nest, get('a', 'g', 'r') + [('f(1);', callf(1)), ('f(f(10));', lambda sc: FATAL if False else ff(sc)), put('a = 40;', 'a', 40), put('g = 1;', 'g', 1), ask('a', 3), ask('r', 5)] + [
            bad('f(1')], 3
        def ff(sc):
            def g():
                o, r = yield from sc['@f'](sc, 10)
                n = int(o)
                o, r = yield from sc['@f'](sc, n)
                return o, 0
            return g()

        def loop(kind):
            def m():
                G = dict(i=I(0), k=I(100))
                n = 0
                out = ''
                while G['i'][1] < 3:
                    B = {}
                    if kind == 'block':
                        B['b'] = I(G['i'][1] * 10)
                    yield out, Scope(B, G)
                    out = ''
                    if kind == 'block':
                        out = 'b %d\n' % B['b'][1]
                    G['i'][1] += 1
                    n += 1
                    if n > 8:
                        return 'too long', 0
                return out + 'end %d %d\n' % (G['i'][1], G['k'][1]), G['k'][1] & 127
            return m
        wops = get('i', 'b', 'k') + [put('i = 7;', 'i', 7), put('i = i - 1;', 'i', lambda sc: V(sc, 'i') - 1 if V(sc, 'i') > 1 else None), put('b = 4;', 'b', 4), put('k = k - 1;', 'k', lambda sc: V(sc, 'k') - 1),
                                     decl('int w = 3;', 'w', INT, 3), put('w = w + k;', 'w', lambda sc: V(sc, 'w') + V(sc, 'k'), 'k'), ask('i', 2), bad('while (1) ;')]
        yield 'while', pf + 'int i = 0; int k = 100;\nwhile (i < 3) {\n int b = i * 10;\n <REPL>;\n printf("b %d\\n", b); i++;\n}\nprintf("end %d %d\\n", i, k);\nreturn k & 127;\n', loop('block'), wops, 3
        yield 'whilefun', pf + 'int i = 0; int k = 100;\nint main() { while (i < 3) {\n int b = i * 10;\n <REPL>;\n printf("b %d\\n", b); i++;\n}\nprintf("end %d %d\\n", i, k);\nreturn k & 127; }\n', loop('block'), wops, 2

        def unbraced():
            G = dict(i=I(0), k=I(100))
            for n in range(9):
                if not G['i'][1] < 3:
                    break
                G['i'][1] += 0
                yield '', Scope({}, {}, G)
                G['i'][1] += 1
            G2 = G
            if G['k'][1] < 100:
                yield '', Scope({}, G)
                o = ''
            else:
                yield '', Scope({}, G)
            return 'end %d %d\n' % (G['i'][1], G['k'][1]), 6
        yield 'unbraced', pf + 'int i = 0; int k = 100;\nfor (i = 0; i < 3; i++)\n  <REPL>;\nif (k < 100)\n  <REPL>;\nelse\n  <REPL>;\nprintf("end %d %d\\n", i, k);\nreturn 6;\n', unbraced, [w for w in wops if 'w' not in w[0].split('=')[0]][:8] + [fatal('w;')], 3

        def brk():
            G = dict(n=I(0))
            out = ''
            for i in range(4):
                Li = dict(i=I(i))
                yield out, Scope({}, Li, G)
                out = ''
                if G['n'][1] == 1:
                    out = 'brk %d\n' % i
                    break
                if G['n'][1] == 2:
                    return 'ret\n', 9
            return out + 'end\n', 3
        yield 'break', pf + 'int n;\nint main() {\n for (int i = 0; i < 4; i++) {\n  { { <REPL>; } if (n == 1) { printf("brk %d\\n", i); break; } }\n  if (n == 2) { printf("ret\\n"); return 9; }\n }\n printf("end\\n"); return 3;\n}\n', brk, [
            put('n = 1;', 'n', 1), put('n = 2;', 'n', 2), ask('i', 4), bad('break;'), bad('return 1;')] + get('i', 'n'), 3

        def ptr():
            M = dict(a=I(1), b=I(2))
            M['p'] = new(P(INT))
            M['p'][1] = M['a']
            M['v'] = new(('a', INT, 3))
            sc = Scope(M)
            yield '', sc
            M['p'][1][1] += 5
            yield '%d %d\n' % (M['a'][1], M['b'][1]), sc
            return '%d %d %d\n' % (M['a'][1], M['b'][1], M['v'][1][1][1]), M['p'][1][1] & 127

        def setp(n):
            return lambda sc: (sc['p'].__setitem__(1, sc[n]), '0xP\n')[1]
        yield 'pointers', pf + 'int main() {\n int a = 1, b = 2; int *p = &a; int v[3]; v[0] = 0; v[1] = 0; v[2] = 0;\n <REPL>;\n *p += 5; printf("%d %d\\n", a, b);\n <REPL>;\n printf("%d %d %d\\n", a, b, v[1]);\n return *p & 127;\n}\n'.replace('*p += 5', '*p = *p + 5'), ptr, [
            ('p = &b;', setp('b')), ('p = &a;', setp('a')), ('*p = 9;', lambda sc: (sc['p'][1].__setitem__(1, 9), '9\n')[1]), ('*p;', lambda sc: '%d\n' % sc['p'][1][1]), ('v[1] = *p + 1;', lambda sc: (sc['v'][1][1].__setitem__(1, sc['p'][1][1] + 1), '%d\n' % sc['v'][1][1][1])[1]),
            ('p = &v[1];', lambda sc: (sc['p'].__setitem__(1, sc['v'][1][1]), '0xP\n')[1]), decl('int k = 8;', 'k', INT, 8), ('p = &k;', lambda sc: (sc['p'].__setitem__(1, sc['k']), '0xP\n')[1] if 'k' in sc else FATAL), ask('p', 3), ask('v', 3), ex('sizeof(v);', lambda sc: 12)] + get('a', 'b'), 4 if d else 3

        def rc(two):
            def m():
                G = dict(x=I(1), rx=I(3), n=I(0))
                sc = Scope(G)
                yield '', sc
                if two:
                    G['x'][1] += 1
                    yield 'x %d\n' % G['x'][1], sc
                return 'x %d\n' % G['x'][1], 4
            return m

        def bump(dd):
            def f(sc):
                sc['n'][1] += dd
                sc['rx'][1] += sc['n'][1]
                return '%d\n' % sc['rx'][1]
            return f
        rcops = get('x', 'rx') + [('bump(1);', bump(1)), ('x = bump(2);', lambda sc: (bump(2)(sc), sc['x'].__setitem__(1, sc['rx'][1]), '%d\n' % sc['rx'][1])[2]), put('rx = 1;', 'rx', 1), ('struct rs q;', lambda sc: FATAL if 'q' in sc else (sc.inner.update(q=new(('s', 'rs', (('m', INT),)))), ANY)[1]),
                                  ('q;', lambda sc: '{\n.m = 0\n}\n' if 'q' in sc else FATAL)]
        yield 'rc1', pf + 'int x = 1;\n<REPL>;\nprintf("x %d\\n", x);\nreturn 4;\n', rc(False), rcops, 3
        yield 'rc2', pf + 'int x = 1;\n<REPL>;\nx = x + 1;\nprintf("x %d\\n", x);\n<REPL>;\nprintf("x %d\\n", x);\nreturn 4;\n', rc(True), rcops, 3 if d else 2

        def incm():
            G = dict(x=I(1))
            sc = Scope(G)
            yield '', sc
            G['x'][1] += 1
            yield 'x %d\n' % G['x'][1], sc
            return 'x %d\n' % G['x'][1], 4
        has = lambda f: lambda sc: f(sc) if 'kx' in sc else FATAL
        yield 'inc', pf + 'int x = 1;\n<REPL>;\nx = x + 1;\nprintf("x %d\\n", x);\n<REPL>;\nprintf("x %d\\n", x);\nreturn 4;\n', incm, [
            ('#include "k.h"', lambda sc: (sc.inner.update(kx=I(20)), ANY)[1] if 'kx' not in sc else None), ('kf(KM);', has(lambda sc: '%d\n' % (7 + sc['kx'][1]))), put('x = 30;', 'x', 30), put('kx = x;', 'kx', lambda sc: V(sc, 'x'), 'x'),
            ('x = kf(x);', has(lambda sc: (sc['x'].__setitem__(1, sc['x'][1] + sc['kx'][1]), show(sc['x']) + '\n')[1])), bad('#include'), fatal('#include "nosuch.h"')] + get('x', 'kx'), 3


    # programs with a size: the label is the kind and the size
    def groups(self):
        yield from super().groups()
        for k, (_, quick, deep) in SIZED.items():
            for n in scale.SIZES:
                if n <= (deep if self.deep else quick):
                    yield [('size %d: %s' % (n, k), ())]

    def play(self, label, seq):
        if not label.startswith('size '):
            return super().play(label, seq)
        _, _, want, rc = self.sized(label)
        return want, rc, [hash((label, i)) for i in range(len(want))]

    def sized(self, label):
        n, k = label[5:].split(': ')
        return SIZED[k][0](int(n))

    def steps(self, c):
        return [(l, None) for l in self.sized(c[0])[1]] if c[0].startswith('size ') else super().steps(c)

    def key(self, c):
        return c[0] if c[0].startswith('size ') else super().key(c)

    def script(self, label):
        return self.sized(label)[0] if label.startswith('size ') else super().script(label)


if __name__ == '__main__':
    sys.exit(engine.main(C24))
