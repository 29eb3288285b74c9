"""C19: `?name` tells the truth about every object.

Every kind of declaration x place where it can stand (a line of the session,
the startup file, an included header, the file scope, a function's body, its
parameters, a loop and a static in a script) x all sequences of updates up to a
depth, the inspector asked after each; and all sequences of lines up to a depth
with inspections among them, which may change nothing.
"""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, scale, sess
from sess import *
from c17 import BASIC, P, bad, fatal, assign, ex, post, V

PHRASE = dict(zip([n for n, _ in BASIC], ['signed char', 'signed char', 'unsigned char', 'signed short', 'unsigned short', 'signed integer', 'unsigned integer', 'signed long',
                                          'unsigned long', 'signed long long', 'unsigned long long', 'float', 'double']))
S = ('s', 's', (('a', INT), ('b', CHAR), ('f', FLOAT)))
T = ('s', 't', (('n', SHORT), ('i', S), ('p', P(CHAR))))
U = ('u', 'u', (('a', INT), ('b', UCHAR)))
R = ('s', '', (('m', LONG), ('k', CHAR)))
PRE = 'struct s { int a; char b; float f; };\nstruct t { short n; struct s i; char *p; };\nunion u { int a; unsigned char b; };\ntypedef int TI;\ntypedef unsigned char *TP;\ntypedef struct s TS;\ntypedef struct { long m; char k; } TR;\nenum e { EA, EB = 4 };\nenum en { NA = -1, NB };\nint nb = 77;\n'


def setv(text, path, v):
    """An update: path(objs) is the object."""
    def m(o):
        x = path(o)
        y = v(o) if callable(v) else v
        x[1] = wrap(x[0], y) if x[0][0] in 'if' else y
        return show(x) + '\n'
    return text, m


def scalar(t):
    u = [setv('o = 7;', lambda o: o['o'], 7), setv('o = o - 200;', lambda o: o['o'], lambda o: o['o'][1] - 200) if t[0] == 'i' else setv('o = -2.5;', lambda o: o['o'], -2.5)]
    if t[0] == 'i':
        u.append(('o++;', lambda o: (show(o['o']), o['o'].__setitem__(1, wrap(t, o['o'][1] + 1)))[0] + '\n'))
    return u


def kinds():
    """(declaration, [(name, type, phrase or None, value)], updates)"""
    for n, t in BASIC:
        ph = PHRASE[n]
        top = (1 << 8 * t[1] - (1 if t[2] else 0)) - 1 if t[0] == 'i' else 1024.5
        lit = '%d%s' % (top, '' if t[2] else 'u') if t[0] == 'i' else str(top)
        yield '%s o;' % n, [('o', t, ph, 0)], scalar(t)
        yield '%s o = %s;' % (n, lit), [('o', t, ph, top)], scalar(t)
        yield 'static %s o = 3;' % n, [('o', t, ph, 3)], scalar(t)[:1]
        yield 'const %s o = 3;' % n, [('o', t, ph, 3)], []
        yield '%s *o;' % n, [('o', P(t), 'pointer to a ' + ph, None)], ([('o = &nb;', lambda o: (o['o'].__setitem__(1, o['nb']), show(o['o']) + '\n')[1])] if n == 'int' else []) + [('o = 0;', lambda o: (o['o'].__setitem__(1, None), '(nil)\n')[1])]
        yield '%s **o;' % n, [('o', P(P(t)), 'pointer to a pointer to a ' + ph, None)], []
        if t[1] != 1 or t == UCHAR:
            yield '%s o[3];' % n, [('o', ('a', t, 3), 'pointer to a ' + ph, None)], [setv('o[1] = 9;', lambda o: o['o'][1][1], 9)]
        yield '%s *o[4];' % n, [('o', ('a', P(t), 4), 'pointer to a pointer to a ' + ph, None)], []
    for k in range(3, 10):
        t, ph = INT, 'signed integer'
        for _ in range(k):
            t, ph = P(t), 'pointer to a ' + ph
        yield 'int %so;' % ('*' * k), [('o', t, ph, None)], []
        yield 'int %so[2];' % ('*' * (k - 1)), [('o', ('a', t[1], 2), ph, None)], []
        t, ph = S, 's'
        for _ in range(k):
            t, ph = P(t), 'pointer to a ' + ph
        yield 'struct s %so;' % ('*' * k), [('o', t, ph, None)], []
        yield 'int (%so)(int);' % ('*' * k), [('o', P(INT), 'pointer to a ' * k + 'Function', None)], []
    yield 'char *o = "hi";', [('o', P(CHAR), None, 'hi')], [setv('o = "a longer one";', lambda o: o['o'], 'a longer one'), setv('o = 0;', lambda o: o['o'], None), setv('o = "";', lambda o: o['o'], '')]
    ar = ('a', CHAR, 5)
    cs = [('o[%d] = %r;' % (i, ch), (lambda i, ch: lambda o: (o['o'][1][i].__setitem__(1, ord(ch)), '%d\n' % ord(ch))[1])(i, ch)) for i, ch in ((0, 'h'), (1, 'i'), (2, '!'))]
    yield 'char o[5];', [('o', ar, None, None)], cs
    sup = [setv('o.a = -6;', lambda o: o['o'][1]['a'], -6), setv('o.b = 300;', lambda o: o['o'][1]['b'], 300), setv('o.f = 0.5;', lambda o: o['o'][1]['f'], 0.5)]
    yield 'struct s o;', [('o', S, None, None)], sup
    yield 'TS o;', [('o', S, None, None)], sup
    yield 'struct s *o;', [('o', P(S), None, None)], []
    yield 'struct s o[3];', [('o', ('a', S, 3), None, None)], [setv('o[2].a = 4;', lambda o: o['o'][1][2][1]['a'], 4)]
    yield 'struct s *o, q, *r[2];', [('o', P(S), None, None), ('q', S, None, None), ('r', ('a', P(S), 2), None, None)], [('o = &q;', lambda o: (o['o'].__setitem__(1, o['q']), '0xP\n')[1]), setv('q.a = 11;', lambda o: o['q'][1]['a'], 11)]
    yield 'struct t o;', [('o', T, None, None)], [setv('o.i.a = 5;', lambda o: o['o'][1]['i'][1]['a'], 5), setv('o.p = "ptr";', lambda o: o['o'][1]['p'], 'ptr'), setv('o.n = 65535;', lambda o: o['o'][1]['n'], 65535)]
    yield 'union u o;', [('o', U, None, None)], [('o.a = 513;', lambda o: (uset(o['o'], 'a', 513), '513\n')[1]), ('o.b = 255;', lambda o: (uset(o['o'], 'b', 255), '255\n')[1])]
    yield 'union u *o, q;', [('o', P(U), None, None), ('q', U, None, None)], [('o = &q;', lambda o: (o['o'].__setitem__(1, o['q']), '0xP\n')[1])]
    yield 'struct { long m; char k; } o;', [('o', R, None, None)], [setv('o.m = -9;', lambda o: o['o'][1]['m'], -9), setv('o.k = 65;', lambda o: o['o'][1]['k'], 65)]
    yield 'TR o;', [('o', R, None, None)], [setv('o.m = -9;', lambda o: o['o'][1]['m'], -9)]
    yield 'TI o = 5;', [('o', INT, None, 5)], scalar(INT)[:2]
    yield 'TI *o, q = 2;', [('o', P(INT), None, None), ('q', INT, None, 2)], [('o = &q;', lambda o: (o['o'].__setitem__(1, o['q']), '0xP\n')[1]), ('*o = 8;', lambda o: (o['o'][1].__setitem__(1, 8), '8\n')[1] if o['o'][1] else None)]
    yield 'TP o;', [('o', P(UCHAR), None, None)], []
    yield 'TP o[2];', [('o', ('a', P(UCHAR), 2), None, None)], []
    yield 'enum e o;', [('o', UINT, None, 0)], [setv('o = EB;', lambda o: o['o'], 4)]
    yield 'enum en o;', [('o', INT, None, 0)], [setv('o = NA;', lambda o: o['o'], -1)]
    yield 'enum e *o;', [('o', P(UINT), None, None)], []
    yield 'int (*o)(int);', [('o', P(INT), 'pointer to a Function', None)], []
    yield 'int (*o[3])(int);', [('o', ('a', P(INT), 3), 'pointer to a pointer to a Function', None)], []
    yield 'void (**o)(char *, ...);', [('o', P(P(INT)), 'pointer to a pointer to a Function', None)], []
    yield 'void *o;', [('o', P(INT), 'pointer to a Void type', None)], [('o = &nb;', lambda o: (o['o'].__setitem__(1, o['nb']), '0xP\n')[1])]
    yield 'struct unknown *o;', [('o', P(INT), ANY, None)], []
    yield 'int q = 4, o = q * 5, r;', [('q', INT, None, 4), ('o', INT, None, 20), ('r', INT, None, 0)], [setv('r = o + q;', lambda o: o['r'], lambda o: o['o'][1] + o['q'][1])] + scalar(INT)[:1]
    # characters that mean something to somebody
    for a, v in (('%d', '%d'), ('100% of %s', '100% of %s'), ('%%', '%%'), ('%n%n', '%n%n'), ('/* a */ // b', '/* a */ // b'), ('#include <a>', '#include <a>'), ('a\\"b', 'a"b'), ('\\\\n', '\\n'), ('two\\nlines', 'two\nlines'),
                 ("it\'s; {", "it's; {"), ('?o', '?o'), ('\\045c', '%c')):
        yield 'char *o = "%s";' % a, [('o', P(CHAR), None, v)], [setv('o = "%s, %s";' % (a, a), lambda o: o['o'], v + ', ' + v)]
    # names, values and types of every size
    for n in scale.SIZES:
        if n > 70000:
            break
        if n > 1025:
            yield 'char *o = "%s";' % ('text ' * n)[:n], [('o', P(CHAR), None, ('text ' * n)[:n])], [setv('o = "%s";' % ('other' * n)[:n + 1], lambda o: o['o'], ('other' * n)[:n + 1])]
            continue
        nm = ('name_' * n)[:n] if n > 4 else 'abcd'[:n]
        yield 'int %s = %d;' % (nm, n), [(nm, INT, None, n)], []
        yield 'char *o = "%s";' % ('text ' * n)[:n], [('o', P(CHAR), None, ('text ' * n)[:n])], [setv('o = "%s";' % ('other' * n)[:n + 1], lambda o: o['o'], ('other' * n)[:n + 1])]
        if n > 257:
            continue
        tag = ('tag_' * n)[:n] if n > 3 else 'tu' + 'w' * (n - 1)
        t = ('s', tag, (('m', INT),))
        yield 'struct %s { int m; } o;' % tag, [('o', t, None, None)], [setv('o.m = 8;', lambda o: o['o'][1]['m'], 8)]
        t = ('s', 'big', tuple(('m%d' % i, (INT, CHAR, LONG, P(INT))[i % 4]) for i in range(n)))
        k = 'm%d' % ((n - 1) // 4 * 4)
        yield 'struct big { %s } o;' % ' '.join(('int m%d;', 'char m%d;', 'long m%d;', 'int *m%d;')[i % 4] % i for i in range(n)), [('o', t, None, None)], [setv('o.%s = -3;' % k, (lambda k: lambda o: o['o'][1][k])(k), -3)]
        yield 'short o[%d];' % (n * 300), [('o', ('a', SHORT, n * 300), 'pointer to a signed short', None)], [setv('o[%d] = 5;' % (n * 300 - 1), (lambda n: lambda o: o['o'][1][n * 300 - 1])(n), 5)]
        if n <= 33:
            t, text = ('s', 'n0', (('m', INT),)), 'struct n0 { int m; } i; '
            for i in range(1, n + 1):
                t = ('s', 'n%d' % i, (('i', t), ('k', CHAR)))
                text = 'struct n%d { %schar k; } %s; ' % (i, text, 'o' if i == n else 'i')

            def inner(o, n=n):
                o = o['o']
                for _ in range(n):
                    o = o[1]['i']
                return o[1]['m']
            yield text.strip(), [('o', t, None, None)], [setv('o.%sm = 6;' % ('i.' * n), inner, 6)]


KINDS = list(kinds())
PLACES = ('line', 'startup', 'header', 'file', 'local', 'param', 'loop', 'static', 'block', 'far', 'marker')


def shows(o, name, ph, locus):
    t = inspected(name, o, locus, 'T' if ph is ANY else ph)
    return t


class C19(sess.Sessions):
    pid = 'C19'
    rule = ('a case is a session (in a script, where the place says so) with the inspector asked about every object after every line; what it prints and what every other line prints '
            'must be what the model says; a transition is one line')
    space = ('%d kinds of declaration (13 basic types x 8 forms, 26 others with pointers, arrays, structs, unions, typedefs, enumerations, function pointers, several declarators; names and strings of <= 1025 characters, tags, members and nested structs up to 257, 257 and 33) x 11 places (two of them beyond line 65536) x all '
             'sequences of <= 2 updates (thorough 3); functions in 5 places; all sequences of <= 4 lines (thorough 5) over 2 alphabets of declarations, assignments, wrong lines and inspections'
             % len(KINDS))

    def setup(self, scratch):
        self.dirs = {}
        for i, k in enumerate(KINDS):
            d = '%s/%d' % (scratch, i)
            os.makedirs(d)
            for f in ('.bic', 'o.h'):
                with open('%s/%s' % (d, f), 'w') as h:
                    h.write(PRE + '\n\n' + k[0] + '\n')
        d = scratch + '/f'
        os.makedirs(d)
        for f in ('.bic', 'f.h'):
            with open('%s/%s' % (d, f), 'w') as h:
                h.write('\nint fa(int x);\n\nint fb(int x)\n{\n  return x;\n}\nstatic int fc(void) { return 3; }\nchar *fd(char *, ...); int abs(int);\n')

    # -- the objects' cases
    def groups(self):
        n = 3 if self.deep else 2
        for i, (text, objs, ups) in enumerate(KINDS):
            for place in PLACES:
                if place == 'param' and (text.startswith(('static', 'const')) or len(objs) > 1 or '[' in text or '=' in text):
                    continue
                if place == 'static' and text.startswith('static'):
                    continue
                if place == 'static' and ('q' in text and '=' in text):
                    continue        # not a constant initialiser
                if place == 'loop' and text.startswith('static'):
                    continue
                g = []
                # the longest ones: the shorter are their prefixes
                for seq in itertools.product(range(len(ups)), repeat=min(n, len(ups)) if len(ups) else 0):
                    c = ('o', i, place, seq)
                    if self.steps(c) is not None:
                        g.append(c)
                if place in ('far', 'marker'):
                    del g[1:]
                for j in range(0, len(g), self.batch):
                    yield g[j:j + self.batch]
        for place in ('line', 'startup', 'header', 'script', 'startup+script'):
            yield [('f', place)]
        yield from super().groups()

    def steps(self, c):
        if c[0] == 'o':
            return self.object_steps(c)
        if c[0] == 'f':
            return self.function_steps(c)
        return super().steps(c)

    def script(self, i, place):
        text, objs, ups = KINDS[i]
        head = '# 0 "t.c"\n# 1 "t.c"\n' + PRE
        nl = PRE.count('\n')
        if place == 'file':
            return head + '\n%s\n<REPL>;\n' % text, 't.c:%d' % (nl + 2)
        if place == 'far':     # beyond what 16 bits count
            return head + '\n' * 70000 + '\n%s\n<REPL>;\n' % text, 't.c:%d' % (nl + 70002)
        if place == 'marker':
            return head + '# 2000000000 "other.y" 2\nint main()\n{\n  %s\n  <REPL>;\n  return 0;\n}\n' % text, 'other.y:2000000002'
        if place == 'local':
            return head + 'int main()\n{\n  int z = 1;\n  %s\n  <REPL>;\n  return 0;\n}\n' % text, 't.c:%d' % (nl + 4)
        if place == 'param':
            v = '0'
            if objs[0][1][0] in 'su':
                return None
            return head + 'int f(int z,\n      %s)\n{\n  <REPL>;\n  return 0;\n}\nint main() { return f(1, %s); }\n' % (text.rstrip(';'), v), 't.c:%d' % (nl + 2)
        if place == 'loop':
            if len(objs) > 1 and 'q, *r' in text:
                return None
            return head + 'int main()\n{\n  int z;\n  for (z = 0; z < 1; z++) {\n\n    %s\n    while (1) {\n      <REPL>;\n      break;\n    }\n  }\n  return 0;\n}\n' % text, 't.c:%d' % (nl + 6)
        if place == 'static':
            return head + 'int f(int z)\n{\n  %s\n  if (z)\n    return f(z - 1);\n  <REPL>;\n  return 0;\n}\nint main()\n{\n  return f(2);\n}\n' % ('static ' + text), 't.c:%d' % (nl + 3)
        if place == 'block':
            return head + 'char *o = "outer";\nint main()\n{\n  double o;\n  {\n    %s\n    <REPL>;\n  }\n  return 0;\n}\n' % text, 't.c:%d' % (nl + 6)

    def object_steps(self, c):
        _, i, place, seq = c
        text, objs, ups = KINDS[i]
        pre = []
        if place == 'line':
            pl = [(l, lambda st: ANY) for l in PRE.rstrip().split('\n')]
            locus, nbl = '<REPL>:%d' % (len(pl) + 1), '<REPL>:%d' % len(pl)
            pre = pl + [(text, lambda st: ANY)]
        elif place == 'startup':
            f = '%s/%d/.bic' % (self.scratch, i)
            locus, nbl = '%s:%d' % (f, PRE.count('\n') + 3), '%s:%d' % (f, PRE.count('\n'))
        elif place == 'header':
            f = '%s/%d/o.h' % (self.scratch, i)
            locus, nbl = '%s:%d' % (f, PRE.count('\n') + 3), '%s:%d' % (f, PRE.count('\n'))
            pre = [('#include "o.h"', lambda st: ANY)]
        else:
            s = self.script(i, place)
            if s is None:
                return None
            locus, nbl = s[1], 't.c:%d' % PRE.count('\n')

        def first(st):
            st.update({n: new(t, v if place != 'param' else 0 if t[0] in 'if' else None) for n, t, _, v in objs})
            st['nb'] = new(INT, 77)

        def init(f):
            return lambda st: ('o' not in st and first(st), f(st))[1]

        # a char is shown as text where it can be
        def look(n, ph, l):
            def f(st):
                o = st[n]
                if o[0][0] == 'a' and o[0][1] == CHAR:
                    s = ''
                    for x in o[1]:
                        if not x[1]:
                            break
                        s += chr(x[1])
                    return '%s is a pointer to a signed char.\nvalue of %s is 0xP ("%s")\nsizeof(%s) = %d bytes.\n%s was declared at: %s\n' % (n, n, s, n, size(o[0]), n, l)
                return inspected(n, o, l, '\x00' if ph is ANY else ph)
            return init(f)
        asks = [('?' + n, look(n, ph, locus)) for n, t, ph, v in objs]
        r = list(pre) + list(asks)
        st = {}
        first(st)
        for u in seq:
            if ups[u][1](st) is None:
                return None
            r += [(ups[u][0], init(ups[u][1]))] + asks
        # nothing else has changed
        r += [('?nb', look('nb', None, nbl)), ('nb;', lambda st: '77\n')]
        n, t = objs[0][:2]
        if t[0] != 'a':
            r += [(n + ';', init(lambda st: show(st[n]) + '\n')), asks[0]]
        r += [('?nosuch', lambda st: 'Object not found\n')]
        return r

    def function_steps(self, c):
        place = c[1]
        L = {}
        A = lambda st: ANY
        if place == 'line':
            pre = [('int fa(int x);', A), ('int nb;', A), ('char *fd(char *, ...);', A), ('int abs(int);', A)]
            # only fa can't be found by the loader: nothing happens before it is called
            L = {n: '<REPL>:%d' % i for n, i in (('abs', 4),)}
        else:
            f = {'startup': self.scratch + '/f/.bic', 'header': self.scratch + '/f/f.h', 'script': 't.c', 'startup+script': self.scratch + '/f/.bic'}[place]
            L = {n: '%s:%d' % (f, i) for n, i in (('fb', 4), ('fc', 8), ('abs', 9))}
            pre = [('#include "f.h"', A)] if place == 'header' else []
            if place == 'startup+script':
                L['g'] = 't.c:2'
                L['main'] = 't.c:4'
        if place == 'line':
            pre = pre[1:2] + pre[3:]
            L = {'abs': '<REPL>:2'}
        r = list(pre)
        for n in list(L) * 2:
            r += [('?' + n, (lambda n: lambda st: '%s is a Function.\n%s was declared at: %s\n' % (n, n, L[n]))(n))]
        r += [('abs(-4);', lambda st: '4\n'), ('?nosuch', lambda st: 'Object not found\n')]
        if 'fb' in L:
            r += [('fb(fc());', lambda st: '3\n'), ('?fb', lambda st: 'fb is a Function.\nfb was declared at: %s\n' % L['fb'])]
        return r

    def pattern(self, w):
        return re.escape(norm(w).replace('\x00', 'ANYTHING')).replace('ANYTHING', '[^\n]*').replace(r'\ is\ a\ Function\.', r'\ is\ a\ (Function|External\ function)\.')

    def same(self, got, want):
        g, w = norm(got), norm(want)
        g = g.replace(' is a External function.', ' is a Function.')
        if '\x00' in w:
            a, b = w.split('\x00')
            return g.startswith(a) and g.endswith(b)
        return g == w

    def key(self, c):
        if c[0] == 'o':
            return '%s, %s: %s' % (KINDS[c[1]][0], c[2], ' | '.join(KINDS[c[1]][2][u][0] for u in c[3]))
        return ' '.join(c) if c[0] == 'f' else super().key(c)

    def request(self, cases):
        c = cases[0]
        kw = dict(lines=self.lines(c))
        if c[0] == 'o':
            d = '%s/%d' % (self.scratch, c[1])
            if c[2] == 'startup':
                kw['env'] = ['HOME=' + d]
            elif c[2] == 'header':
                kw['args'] = ['-I', d]
            elif c[2] != 'line':
                kw.update(script=self.script(c[1], c[2])[0], args=['-s', 't.c'])
        elif c[0] == 'f':
            d = self.scratch + '/f'
            if c[1].startswith('startup'):
                kw['env'] = ['HOME=' + d]
            if c[1] == 'header':
                kw['args'] = ['-I', d]
            if c[1] == 'script':
                kw.update(script='# 0 "t.c"\n# 1 "t.c"\n' + open(d + '/f.h').read() + 'int main() { <REPL>; return 0; }\n', args=['-s', 't.c'])
            if c[1] == 'startup+script':
                kw.update(script='# 0 "t.c"\n# 1 "t.c"\n\nint g(int a) { return a; }\n\nint main() { <REPL>; return 0; }\n', args=['-s', 't.c'])
        return 'session', kw

    def execute_real(self, h, cases):
        r = super().execute_real(h, [c for c in cases if 'script' not in self.request([c])[1]])
        return None if len(r) < min(2, len(cases)) else r

    # -- inspections among other lines
    def alphabets(self):
        d = self.deep

        def decl(text, *objs):
            def m(st):
                for n, t, v in objs:
                    if n in st:
                        return FATAL
                    if callable(v):
                        v = v(st)
                        if v is FATAL:
                            return FATAL
                    st[n] = new(t, v)
                    st['#' + n] = st['#line']
                return ANY
            return text, m

        def ask(n, ph=None):
            def m(st):
                if n not in st:
                    return 'Object not found\n'
                return inspected(n, st[n], '<REPL>:%d' % st['#' + n], ph)
            return '?' + n, m
        x = V('x')

        def ptr(st):
            st['p'][1] = st['x']
            return st['p']

        def deref(st):
            if st['p'][1] is None:
                return None
            st['p'][1][1] = wrap(INT, st['p'][1][1] + 5)
            return st['p'][1]
        yield 'mixed', [], [decl('int x = 3;', ('x', INT, 3)), ask('x'), decl('int *p, y;', ('p', P(INT), None), ('y', INT, 0)), ask('p'), ask('y'), assign('x = x + 1;', x, lambda st: st['x'][1] + 1, 'x'),
                            ex('p = &x;', 'p', 'x', f=ptr), ex('*p = *p + 5;', 'p', f=deref), ex('x;', 'x', f=x), bad('int'), bad('?'), bad('?5'), fatal('?x;'), ask('nosuch')], 5 if d else 4
        TT = ('s', 'q', (('a', INT), ('c', CHAR)))

        def tag(st):
            if '#tag' in st:
                return FATAL
            st['#tag'] = 1
            if 'v' in st:
                return FATAL
            st['v'] = new(TT)
            st['#v'] = st['#line']
            return ANY

        def vp(st):
            if 'w' in st:
                return FATAL
            st['w'] = new(P(TT))
            st['#w'] = st['#line']
            return ANY

        def wset(st):
            st['w'][1] = st['v']
            return st['w']
        yield 'aggregate', [], [('struct q { int a; char c; } v;', tag), ask('v'), assign('v.a = 5;', lambda s: s['v'][1]['a'], 5, 'v'), assign('v.c = v.a + 60;', lambda s: s['v'][1]['c'], lambda s: s['v'][1]['a'][1] + 60, 'v'),
                                ('struct q *w;', lambda st: vp(st) if '#tag' in st else None), ask('w'), ex('w = &v;', 'w', 'v', f=wset), ex('w->a++;', 'w', f=lambda s: None if s['w'][1] is None else (lambda o: ((o[0], o[1]), o.__setitem__(1, o[1] + 1))[0])(s['w'][1][1]['a'])),
                                ex('v;', 'v', f=V('v')), ('?q', lambda st: 'Object not found\n'), ('?a', lambda st: 'Object not found\n'), fatal('nosuch;')], 5 if d else 4


if __name__ == '__main__':
    sys.exit(engine.main(C19))
