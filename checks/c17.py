"""C17: a session is one growing program, and values are echoed exactly.

All sequences of lines up to a depth over several alphabets (scalars,
aggregates, arrays and pointers, typedefs and enumerations, functions, headers,
a start-up file), each with malformed and wrong lines among them, against a
model of the session; and the echo of every type x boundary values x kinds of
expression.
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine, scale, sess
from sess import *

P = lambda t: ('p', t)
BASIC = [('char', CHAR), ('signed char', CHAR), ('unsigned char', UCHAR), ('short', SHORT), ('unsigned short', USHORT), ('int', INT), ('unsigned int', UINT),
         ('long', LONG), ('unsigned long', ULONG), ('long long', LONG), ('unsigned long long', ULONG), ('float', FLOAT), ('double', DOUBLE)]


def bad(text):
    """A line that isn't one: it's reported, and changes nothing."""
    return text, lambda st: ERR


def fatal(text):
    return text, lambda st: FATAL


def decl(text, *objs):
    """Declares objects: (name, type[, value(st)])."""
    def m(st):
        for o in objs:
            if o[0] in st:
                return FATAL
            v = None
            if len(o) > 2:
                v = o[2](st) if callable(o[2]) else o[2]
                if v is None:
                    return FATAL
            st[o[0]] = new(o[1], v)
        return ANY
    return text, m


def ex(text, *needs, **kw):
    """An expression: f(st) yields an object, or (type, value), after its effects; it's an error unless the names exist."""
    f = kw['f']
    ok = kw.get('ok')

    def m(st):
        for n in needs:
            if n not in st:
                return FATAL
        if ok and not ok(st):
            return None
        r = f(st)
        if r is None or r is FATAL or r is ERR or r is ANY:
            return r
        return (r if isinstance(r, str) else str(r) if isinstance(r, int) else show(r)) + '\n'
    return text, m


def assign(text, dst, val, *needs):
    """dst(st): the object; val(st): the value."""
    def f(st):
        o = dst(st)
        v = val(st) if callable(val) else val
        o[1] = wrap(o[0], v) if o[0][0] in 'if' else v
        return o
    return ex(text, *needs, f=f)


def post(text, dst, d, *needs):
    def f(st):
        o = dst(st)
        old = [o[0], o[1]]
        o[1] = wrap(o[0], o[1] + d)
        return old
    return ex(text, *needs, f=f)


def V(n):
    return lambda st: st[n]


def val(n):
    return lambda st: st[n][1]


S = ('s', 's', (('a', INT), ('b', CHAR)))
T = ('s', 't', (('i', S), ('n', SHORT), ('f', FLOAT)))
U = ('u', 'u', (('a', INT), ('b', CHAR), ('c', ('i', 1, False))))
BAD = ['int x', 'x = ;', '', '1 2;', 'if (1) 2;', '{ 1; }', '$', '"abc', "'", 'return 5;', 'int 5;', '5 struct', 'x;;)', 'struct', 'int x y;', '#define X 3',
       '#', '?', 'typedef int', ')', 'x = {1', 'enum', 'int x;)', 'for (;;) ;', '"\\', "'ab", 'while (1) {', 'goto x;', '1 +', '0x', '08;', "'';",
       'typedef int x', 'struct s { int q; } v', 'union u { int q; ', 'x = (1;', 'sizeof;', 'enum { Z } 5;', 'int (*q', '5 = = 6;', 'x->;', '.x;', 'x..y;', 'int *;;)']


class C17(sess.Sessions):
    pid = 'C17'
    rule = ('a case is a session; every line must print what the model of the session says, be reported when it is wrong, and nothing else; '
            'a transition is one line')
    space = ('all sessions of <= 4 lines (thorough 5) over 13 lines with scalars, <= 3 (4) over 24 with scalars, 21 with structs and unions, 18 with arrays and pointers, 21 with typedefs and '
             'enumerations, 18 with functions, <= 4 (5) over 9 with functions; <= 2 (3) over 15 lines with three headers and with 3 start-up files; sessions of <= 2 (3) lines of 13 with macros of the compiler, and with headers; strings of <= 2 of 38 pieces in 7 places; sessions of <= 513 lines (2049) with malformed ones among them; 43 malformed lines x (alone, twice, before and after 6 kinds of line, pairs (thorough)); '
             '13 types x boundary values x 10 kinds of expression and place (variable, array, struct, union, pointer)')
    assumptions = ['addresses are not compared', 'what a declaration echoes is not specified', 'objects defined by a header start anew when another header is included (documented in eval_cpp_include)']

    def setup(self, scratch):
        self.dir = d = os.path.join(scratch, 'inc')
        os.makedirs(d)

        def put(p, s):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(s)
        put(d + '/f.h', '#ifndef F\n#define F\n#define MAC 3\n#define ADD(a, b) ((a) + (b))\nextern int optind;\nint twice(int x) { return x + x; }\n'
            'typedef unsigned char TT;\nstruct hs { int m; TT t; };\nenum { HA = 7, HB };\n#endif\n')
        put(d + '/g.h', '#include "f.h"\n#ifndef G\n#define G\nint thrice(int x) { return twice(x) + x; }\n#define MORE MAC + HB\ntypedef struct hs *HP;\n#endif\n')
        put(d + '/h.h', '#pragma once\nint printf(const char *f, ...);\nint say(int x) { printf("say %d\\n", x); return x * 2; }\n')
        put(d + '/bad.h', 'int foo(int x { return 1; }\n')
        put(scratch + '/home0/.bic', 'int x = 4;\nint inc(void) { x = x + 1; return x; }\ninc();\n')
        put(scratch + '/home1/.bic', '#include <stdlib.h>\n#include <stdio.h>\ntypedef int TT;\nstruct s { TT a; char b; };\nstruct s x;\nx.a = abs(-7);\n')
        put(scratch + '/home2/.bic', '')
        self.homes = scratch + '/home'

    def options(self, label):
        if label.startswith('inc'):
            return dict(args=['-I', self.dir])
        if label.startswith('start'):
            return dict(env=['HOME=%s%s' % (self.homes, label[5])])
        return {}

    def alphabets(self):
        d = self.deep
        self.max_violations = 6
        x, y = V('x'), V('y')

        def both(st):
            st['x'][1] = st['y'][1] = 2
            return st['x']
        core = [decl('int x;', ('x', INT)), decl('int y = 3;', ('y', INT, 3)), assign('x = 5;', x, 5, 'x'), ex('x;', 'x', f=x),
                assign('y = x + y;', y, lambda s: s['x'][1] + s['y'][1], 'x', 'y'), post('x++;', x, 1, 'x'), ex('y;', 'y', f=y), ex('x = y = 2;', 'x', 'y', f=both),
                bad('int x'), bad('x = ;'), bad('int y = x y;'), fatal('x = 1; y = 1;'), fatal('zz;')]
        yield 'scalars', [], core, 5 if d else 4

        def isfree(*n):
            return lambda s: all(i not in s for i in n)
        sc = core[:6] + [
            decl('char c = 300;', ('c', CHAR, 300)), decl('unsigned short x = 70000;', ('x', USHORT, 70000)), decl('double z = 1;', ('z', DOUBLE, 1.0)),
            decl('int y, z;', ('y', INT), ('z', INT)), decl('static int x = 7;', ('x', INT, 7)), decl('long y = x;', ('y', LONG, lambda s: s['x'][1] if 'x' in s else None)),
            assign('z = 2.5;', V('z'), 2.5, 'z'), assign('x = z;', x, lambda s: int(s['z'][1]), 'x', 'z'), ex('z;', 'z', f=V('z')), ex('c;', 'c', f=V('c')),
            assign('c = x;', V('c'), lambda s: s['x'][1], 'c', 'x'), ex('x == y;', 'x', 'y', f=lambda s: int(s['x'][1] == s['y'][1])),
            ex('x ? y : 9;', 'x', f=lambda s: (s['y'][1] if 'y' in s else FATAL) if s['x'][1] else 9), ex(';', f=lambda s: ANY),
            ex('x, 4;', 'x', f=lambda s: 4), ex('sizeof(x);', 'x', f=lambda s: size(s['x'][0])), bad('"abc'), bad('x; 5 struct')]
        yield 'scalars2', [], sc, 4 if d else 3

        def alias(st):
            st['p'][1] = st['v']
            return st['p']

        def need(st):
            return st['p'][1] if st['p'][1] is not None else None

        def deref(f):
            def g(st):
                if st['p'][1] is None:
                    return None     # undefined
                return f(st)
            return g

        def setpa(st):
            st['p'][1][1]['a'][1] = 9
            return st['p'][1][1]['a']

        def tagged(tag, name=None, t=None):
            def m(st):
                if '#' + tag not in st:
                    return FATAL
                if name in st:
                    return FATAL
                st[name] = new(t)
                return ANY
            return m

        def deftag(*names):
            def m(st):
                if any(n in st for n in names):
                    return FATAL
                for n in names:
                    st[n] = True
                return ANY
            return m

        def ptag(st):
            if 'p' in st:
                return FATAL
            st['p'] = new(P(S))
            return ANY

        def both2(a, b):
            def m(st):
                r = a(st)
                return r if r is FATAL else b(st)
            return m

        def uassign(text, mm, v):
            def f(st):
                uset(st['u'], mm, v)
                return usub(st['u'], mm)
            return ex(text, 'u', f=f)
        agg = [('struct s { int a; char b; };', deftag('#s')), ('struct s v;', tagged('s', 'v', S)), assign('v.a = 70;', lambda s: s['v'][1]['a'], 70, 'v'),
               assign('v.b = 258;', lambda s: s['v'][1]['b'], 258, 'v'), ex('v;', 'v', f=V('v')), ('struct s *p;', ptag), ex('p = &v;', 'p', 'v', f=alias),
               ex('*p;', 'p', f=deref(lambda s: s['p'][1])), ex('p->a = 9;', 'p', f=deref(setpa)), ex('v.a++;', 'v', f=lambda s: (lambda o: (o[0], o[1], o.__setitem__(1, o[1] + 1))[:2])(s['v'][1]['a'])),
               ('struct t { struct s i; short n; float f; } t;', lambda s: FATAL if '#s' not in s or '#t' in s or 't' in s else (s.update({'#t': 1, 't': new(T)}), ANY)[1]),
               assign('t.i.b = v.a;', lambda s: s['t'][1]['i'][1]['b'], lambda s: s['v'][1]['a'][1], 't', 'v'), assign('t.f = t.n = 3;', lambda s: s['t'][1]['f'], lambda s: (s['t'][1]['n'].__setitem__(1, 3), 3)[1], 't'),
               ex('t;', 't', f=V('t')), ex('t.i;', 't', f=lambda s: s['t'][1]['i']),
               ('union u { int a; char b; unsigned char c; } u;', lambda s: FATAL if 'u' in s or '#u' in s else (s.update({'#u': 1, 'u': new(U)}), ANY)[1]),
               uassign('u.a = 65921;', 'a', 65921), uassign('u.c = 200;', 'c', 200), ex('u;', 'u', f=V('u')), bad('struct s { int a; } v'), bad('struct t { int'), fatal('v.a = 1; v.b = 2;')]
        yield 'aggregates', [], agg, 4 if d else 3
        base = [agg[0], agg[1], agg[5], agg[6], agg[10], agg[15]]
        yield 'aggregates2', base, [agg[i] for i in (2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18)] + [
            assign('p->b = v.b + 1;', lambda s: s['p'][1][1]['b'], lambda s: s['v'][1]['b'][1] + 1), assign('(*p).a = t.n - 2;', lambda s: s['p'][1][1]['a'], lambda s: s['t'][1]['n'][1] - 2),
            ex('p = &t.i;', f=lambda s: (s['p'].__setitem__(1, s['t'][1]['i']), s['p'])[1]), ex('&v == p;', f=lambda s: int(s['v'] is s['p'][1])), bad('v.;'),
            ex('sizeof(struct t);', f=lambda s: size(T))], 4 if d else 3

        A = ('a', INT, 3)

        def el(n, i):
            return lambda s: s[n][1][i]

        def setp(n, o):
            def f(st):
                st[n][1] = o(st)
                return st[n]
            return f

        def target(st):
            return st['q'][1]
        arr = [decl('int a[3];', ('a', A)), assign('a[1] = 4;', el('a', 1), 4, 'a'), ex('a[1];', 'a', f=el('a', 1)), ex('a[0]++;', 'a', f=lambda s: (lambda o: ((o[0], o[1]), o.__setitem__(1, o[1] + 1))[0])(s['a'][1][0])),
               assign('a[a[0]] = a[1] + 1;', lambda s: s['a'][1][s['a'][1][0][1]], lambda s: s['a'][1][1][1] + 1, 'a'),
               decl('int *q;', ('q', P(INT))), ex('q = &a[1];', 'q', 'a', f=setp('q', lambda s: s['a'][1][1])), ex('q = a;', 'q', 'a', f=setp('q', lambda s: s['a'][1][0])),
               ex('*q;', 'q', f=lambda s: target(s)), ex('*q = 6;', 'q', f=lambda s: target(s) and (target(s).__setitem__(1, 6), target(s))[1]), ex('q;', 'q', f=V('q')),
               ex('q = 0;', 'q', f=setp('q', lambda s: None)), ex('a;', 'a', f=V('a')), decl('char *p = "abc";', ('p', P(CHAR), 'abc')), ex('p;', 'p', f=V('p')),
               ex('p = "x\\ty";', 'p', f=setp('p', lambda s: 'x\ty')), ex('p[1];', 'p', f=lambda s: [CHAR, ord(s['p'][1][1])] if s['p'][1] else None),
               ex('p = 0;', 'p', f=setp('p', lambda s: None)), ex('"lit";', f=lambda s: '"lit"'), bad('a[1;'), bad('int b[2')]
        # the index must stay within the array
        arr[4] = (arr[4][0], (lambda m: lambda s: None if 'a' in s and s['a'][1][0][1] > 2 else m(s))(arr[4][1]))
        yield 'arrays', [], arr, 4 if d else 3
        yield 'arrays2', [arr[0], arr[5], arr[13]], [arr[i] for i in (1, 3, 4, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 20)] + [
            ex('q = q + 1;', f=lambda s: next(((s['q'].__setitem__(1, s['a'][1][i + 1]), s['q'])[1] for i in (0, 1) if s['a'][1][i] is s['q'][1]), None)),
            ex('q == &a[1];', f=lambda s: int(s['q'][1] is s['a'][1][1])), ex('sizeof(a);', f=lambda s: 12), ex('q - a;', f=lambda s: next((i for i in (0, 1, 2) if s['a'][1][i] is s['q'][1]), None))], 4 if d else 3

        R = ('s', '', (('m', INT), ('k', UCHAR)))

        def typed(name, t, need_, v=None):
            def m(st):
                if need_ not in st:
                    return ERR      # not a type: a parse error
                if name in st:
                    return FATAL
                st[name] = new(t, v)
                return ANY
            return m
        free = lambda *n: (lambda st: any(i in st for i in n))

        def deft(name):
            def m(st):
                if '#' + name in st:
                    return None     # repeated typedefs aren't of interest here
                st['#' + name] = True
                return ANY
            return m
        isT = lambda f: lambda st: f(st)
        ty = [('typedef int T;', deft('T')), ('T t = 4;', typed('t', INT, '#T', 4)), ex('t;', 't', f=V('t')), bad('typedef int T'), ('typedef char T k;', lambda s: FATAL if '#T' in s else ERR), bad('T'),
              ('enum e { A, B = 4, C };', lambda s: FATAL if 'A' in s else (s.update(A=[INT, 0], B=[INT, 4], C=[INT, 5]), ANY)[1]), ex('B;', 'B', f=lambda s: 4),
              ex('A + C;', 'A', f=lambda s: 5), ('enum e n;', lambda s: FATAL if 'n' in s or 'A' not in s else (s.update(n=new(UINT)), ANY)[1]), assign('n = C;', V('n'), 5, 'n', 'A'), ex('n;', 'n', f=V('n')),
              ('typedef struct { int m; unsigned char k; } R;', deft('R')), ('R r;', typed('r', R, '#R')), assign('r.k = 259;', lambda s: s['r'][1]['k'], 259, 'r'), ex('r;', 'r', f=V('r')),
              ('R *rp;', lambda s: typed('rp', P(R), '#R')(s) if '#R' in s else FATAL), ex('rp = &r;', 'rp', 'r', f=lambda s: (s['rp'].__setitem__(1, s['r']), s['rp'])[1]), ex('rp->m = 3;', 'rp', f=lambda s: s['rp'][1] and (s['rp'][1][1]['m'].__setitem__(1, 3), s['rp'][1][1]['m'])[1]),
              ('(T) 7;', lambda s: '7\n' if '#T' in s else ERR), ('sizeof(R);', lambda s: '8\n' if '#R' in s else FATAL), ('typedef T T2;', lambda s: ERR if '#T' not in s else deft('T2')(s)),
              ('T2 t;', typed('t', INT, '#T2')), bad('enum e { A')]
        yield 'types', [], ty, 4 if d else 3

        has = lambda *n: (lambda s: None if all(i in s for i in n) else FATAL)

        def proto(n):
            def m(st):
                st['#' + n] = True
                return ANY
            return m

        def call(f, *needs):
            def m(st):
                if not all(n in st for n in needs):
                    return FATAL
                return f(st)
            return m

        def setfp(st):
            st['fp'][1] = 'abs'
            return '0xP\n'
        fn = [('int abs(int);', proto('abs')), ('abs(-3);', call(lambda s: '3\n', '#abs')), ('int printf(const char *f, ...);', proto('printf')),
              ('printf("hi %d\\n", 3);', call(lambda s: 'hi 3\n5\n', '#printf')), decl('int (*fp)(int);', ('fp', P(INT))), ('fp = abs;', call(setfp, 'fp', '#abs')),
              ('fp(-4);', call(lambda s: '4\n' if s['fp'][1] else None, 'fp')), ('fp = 0;', call(lambda s: (s['fp'].__setitem__(1, None), '(nil)\n')[1], 'fp')),
              decl('int x = -6;', ('x', INT, -6)), ('x = abs(x) - 7;', call(lambda s: (s['x'].__setitem__(1, abs(s['x'][1]) - 7), '%d\n' % s['x'][1])[1], 'x', '#abs')),
              ('printf("%d\\n", x++);', call(lambda s: ('%d\n%d\n' % (s['x'][1], len(str(s['x'][1])) + 1), s['x'].__setitem__(1, s['x'][1] + 1))[0], 'x', '#printf')),
              ex('x;', 'x', f=V('x')), ('abs();', call(lambda s: FATAL, '#abs')), ('x = abs(printf("ab\\n"));', call(lambda s: (s['x'].__setitem__(1, 3), 'ab\n3\n')[1], 'x', '#abs', '#printf')),
              bad('abs(-3'), bad('printf("hi;'), ('x();', lambda s: FATAL), ('abs(abs(-5) - 9);', call(lambda s: '4\n', '#abs'))]
        yield 'functions', [], fn, 4 if d else 3
        yield 'functions2', [fn[0], fn[2], fn[4], fn[8]], [fn[i] for i in (5, 6, 7, 9, 10, 11, 13, 15, 17)], 5 if d else 4

        def inc(*names):
            def m(st):
                for n in names:
                    st['#' + n] = True
                return ANY
            return m
        H = ('s', 'hs', (('m', INT), ('t', UCHAR)))
        two = lambda f: call(f, '#f')
        hd = [('#include "f.h"', inc('f')), ('#include "g.h"', inc('f', 'g')), ('#include "h.h"', inc('h')), ('twice(4);', two(lambda s: '8\n')), ('ADD(MAC, 4);', two(lambda s: '7\n')),
              ('TT v = 260;', typed('v', UCHAR, '#f', 260)), ex('v;', 'v', f=V('v')), ('struct hs z;', lambda s: FATAL if '#f' not in s or 'z' in s else (s.update(z=new(H)), ANY)[1]),
              ('z.m = MAC + HB;', call(lambda s: (s['z'][1]['m'].__setitem__(1, 11), '11\n')[1], 'z', '#f')), ex('z;', 'z', f=V('z')), ('thrice(HB);', call(lambda s: '24\n', '#g')),
              ('MORE;', call(lambda s: '11\n', '#g')), ('HP hp;', typed('hp', P(H), '#g')), ('say(say(2));', call(lambda s: 'say 2\nsay 4\n8\n', '#h')),
              ('#include "bad.h"', lambda s: FATAL), ('#include "nosuch.h"', lambda s: FATAL), bad('#include'), bad('#include "f.h" x'), ('#include <stdlib.h>', inc('std')),
              ('abs(EXIT_FAILURE - 3);', call(lambda s: '2\n', '#std')), bad('TT')]
        yield 'inc', [], hd, 3 if d else 2
        yield 'inc2', [hd[0], hd[5], hd[7]], [hd[i] for i in (1, 2, 3, 4, 6, 8, 9, 12, 13, 18, 19)], 3 if d else 2

        def started(lines):
            return [('x;', lines)]
        yield 'start0', [ex('x;', f=lambda s: (s.update(x=new(INT, 5)), s['x'])[1])], [
            ('inc();', lambda s: (s['x'].__setitem__(1, s['x'][1] + 1), '%d\n' % s['x'][1])[1]), assign('x = 2;', x, 2), ex('x;', f=x), fatal('int x;'), bad('int y'), decl('int y = 4;', ('y', INT, 4)),
            assign('y = x + 1;', y, lambda s: s['x'][1] + 1, 'y')], 4 if d else 3
        X1 = ('s', 's', (('a', INT), ('b', CHAR)))
        yield 'start1', [ex('x;', f=lambda s: (s.update(x=new(X1)), s['x'][1]['a'].__setitem__(1, 7), s['x'])[2])], [
            assign('x.b = abs(-2);', lambda s: s['x'][1]['b'], 2), ex('x;', f=x), ('TT t = 3;', lambda s: FATAL if 't' in s else (s.update(t=new(INT, 3)), ANY)[1]), ex('t;', 't', f=V('t')),
            ('printf("%d\\n", x.a);', lambda s: '7\n2\n'), ('struct s w;', lambda s: FATAL if 'w' in s else (s.update(w=new(X1)), ANY)[1]), ex('w;', 'w', f=V('w'))], 3
        yield 'start2', [], core[:4] + core[8:10], 3

        # lines and names of every length
        core2 = []
        for n in (30, 120, 250, 255, 256, 257, 510, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 66000) + ((100000, 131072, 300000) if d else ()):
            k = (n - 3) // 5
            sm = 'x' + '+9999' * k
            core2 += [ex(sm + ' ' * (n - len(sm) - 2) + ' ;', f=lambda s, k=k: s['x'][1] + 9999 * k), ex(' ' * (n - 2) + 'x;', f=x), ex('"%s";' % ('s' * (n - 3)), f=lambda s, n=n: '"%s"' % ('s' * (n - 3))),
                      decl('int %s = %d;' % ('v' * (n - 10), n), ('v%d' % n, INT, n)), ex('%s;' % ('v' * (n - 10)), f=V('v%d' % n))]
        yield 'long lines', [core[0], core[2]] + core2, [core[3]] + [bad('x' + ' ' * (n - 3) + '2;') for n in (255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 9000)], 2

        # what the compiler's own macros stand for, with and without headers
        own = [('__INT_MAX__;', 2 ** 31 - 1), ('__CHAR_BIT__ + 1;', 9), ('sizeof(__SIZE_TYPE__);', 8), ('__STDC__;', 1), ('__SCHAR_MAX__ - __CHAR_BIT__;', 119), ('__LONG_MAX__;', 2 ** 63 - 1)]
        own = [ex(a, f=lambda s, v=v: v) for a, v in own] + [
            decl('int x = __INT_MAX__ - 1;', ('x', INT, 2 ** 31 - 2)), ex('x - __SHRT_MAX__;', 'x', f=lambda s: s['x'][1] - 32767),
            decl('int __INT_MAX__x = 4;', ('__INT_MAX__x', INT, 4)), ex('__INT_MAX__x;', '__INT_MAX__x', f=V('__INT_MAX__x')), ex('"__INT_MAX__";', f=lambda s: '"__INT_MAX__"'), bad('int __INT_MAX__;'), bad('__INT_MAX__ __INT_MAX__;')]
        yield 'own macros', [], own, 3 if d else 2
        yield 'inc own', [], own + [hd[0], hd[1], hd[4], hd[18]], 3 if d else 2
        # a line that is only C once its macros are replaced
        yield 'type macro', [], [decl('__SIZE_TYPE__ z = 7;', ('z', ULONG, 7))], 1

        # what strings may contain
        parts = [(c, c) for c in ('%', '%d', '%s', '%n', '%%', '%5c', "'", '/*', '*/', '//', '?', ';', '{', '}', '@', '$', '!', ' ', '#', '#include', '|', '\'a', '(', ',', '0', 'MAC', '?x', '%ls', '%*d', '.', '->')]
        parts += [('\\"', '"'), ('\\\\', '\\'), ('\\n', '\n'), ('\\t', '\t'), ('\\x41', 'A'), ('\\101', 'A'), ('\\045d', '%d')]
        texts = [p for k in (1, 2) for p in itertools.product(parts, repeat=k) if k == 1 or not (p[0][0][:1] == '\\' and p[0][0][1:2] in 'x01' and p[1][0][:1] in '0123456789ABCDEFabcdef')]
        texts += [(a, b, a) for a, b in itertools.product(parts[:12], parts[:12])] if d else []
        for i in range(0, len(texts), 60):
            lines = [decl('char *s;', ('s', P(CHAR))), decl('char *r[2];', ('r', ('a', P(CHAR), 2))), decl('struct h { int a; char *t; } h;', ('h', ('s', 'h', (('a', INT), ('t', P(CHAR))))))]
            for p in texts[i:i + 60]:
                src, v = '"%s"' % ''.join(a for a, _ in p), ''.join(b for _, b in p)
                lines += [ex(src + ';', f=lambda s, v=v: '"%s"' % v), assign('s = %s;' % src, V('s'), v), ex('s;', f=V('s')), assign('r[1] = s;', el('r', 1), lambda s, v=v: v), assign('h.t = s;', lambda s: s['h'][1]['t'], lambda s, v=v: v),
                          ex('h;', f=V('h')), ex('s[%d];' % (len(v) - 1), f=lambda s, v=v: [CHAR, ord(v[-1])])]
            yield 'texts %d' % i, lines, [ex('s;', f=V('s'))], 1

        # sessions of every length
        def nth(i):
            k = i % 6
            if k == 0:
                return decl('int v%d = x + %d;' % (i, i), ('v%d' % i, INT, lambda s: s['x'][1] + i))
            if k == 1:
                return assign('x = v%d - y;' % (i - 1), x, lambda s: s['v%d' % (i - 1)][1] - s['y'][1])
            if k == 2:
                return bad(BAD[i // 6 % len(BAD)])
            if k == 3:
                return ex('v%d + x;' % (i // 2 - i // 2 % 6), f=lambda s: s['v%d' % (i // 2 - i // 2 % 6)][1] + s['x'][1])
            if k == 4:
                return ('struct n%d { int a; char b[%d]; };' % (i, i % 50 + 1), lambda s: ANY)
            return ('sizeof(struct n%d);' % (i - 1), lambda s: '%d\n' % (4 + ((i - 1) % 50 + 4) // 4 * 4))
        for n in scale.SIZES:
            if n <= (2049 if d else 513):
                yield 'lines %d' % n, [core[0], core[1], assign('x = 1;', x, 1)] + [nth(i) for i in range(n)], [core[3], core[6]], 1
                yield 'wrong %d' % n, [core[0], core[1], assign('x = 9;', x, 9)] + [bad(BAD[(i * 7 + n) % len(BAD)]) for i in range(n)], [core[3], core[5]], 1
        # malformed lines among others
        for b in BAD:
            yield 'bad ' + repr(b), [core[0], core[2]], [bad(b), core[3], core[5], agg[0], agg[1], ty[0], ('T t2 = x;', lambda s: FATAL if 't2' in s else typed('t2', INT, '#T', s['x'][1])(s))] + (
                [bad(c) for c in BAD] if d else []), 3 if d else 2
        # the echo of every value
        for j, (n, t) in enumerate(BASIC):
            if t[0] == 'i':
                b = 8 * t[1]
                vs = [0, 1, 2, -1, 7, -128, 127, 128, 200, 255, 256, -129, 1000, 32767, -32768, 65535, 2 ** 31 - 1, -2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1]
                vs = sorted({wrap(t, v) for v in vs})
                txt = lambda v: str(v) if abs(v) < 2 ** 63 else str(v) + 'u'
            else:
                vs = [0.0, 1.0, 0.5, 2.25, 1000.125, -3.75, 123456.0, 0.015625, 16777216.0, -0.25]
                txt = lambda v: '%f' % v
            self_t = t
            mem = ('s', 'm%d' % j, (('c', CHAR), ('v', t), ('d', CHAR)))
            uni = ('u', 'n%d' % j, (('v', t), ('c', CHAR)))
            pre = [decl('%s x;' % n, ('x', t)), decl('%s a[3];' % n, ('a', ('a', t, 3))), decl('%s *p;' % n, ('p', P(t))), decl('struct m%d { char c; %s v; char d; } m;' % (j, n), ('m', mem))]
            lines = []
            for v in vs:
                def all_(st, v=v):
                    pass
                w = [assign('x = %s;' % txt(v), x, v), ex('x;', f=x), assign('a[2] = x;', el('a', 2), lambda s: s['x'][1]), ex('a[2];', f=el('a', 2)),
                     assign('m.v = a[2];', lambda s: s['m'][1]['v'], lambda s: s['a'][1][2][1]), ex('m;', f=V('m')), ex('m.v;', f=lambda s: s['m'][1]['v'])]
                if t != CHAR:     # pointers to char are shown as strings
                    w += [ex('p = &a[2];', f=lambda s: (s['p'].__setitem__(1, s['a'][1][2]), s['p'])[1])]
                w += [ex('*&x;', f=x), ex('*&a[2];', f=el('a', 2)), ex('%s;' % txt(v), f=lambda s, v=v: '%d' % v if isinstance(v, int) else '%f' % v), ex('x == a[2];', f=lambda s: 1)] if t[0] == 'i' else []
                lines.append(w)
            yield 'echo ' + n, pre + [l for w in lines for l in w], [ex('x;', f=x)], 1


if __name__ == '__main__':
    sys.exit(engine.main(C17))
