"""C18: completion offers exactly the names that can follow.

After every sequence of lines up to a depth: every prefix of every name of the
session (and texts that no name begins with), and every prefix of every member
behind every expression that has members (and behind some that have none).
Between the lines, completions whose text would have side effects; at the end
everything is printed, to see that completing changed nothing.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, sess
from sess import *

P = lambda t: ('p', t)
IN = ('s', '', (('ab', INT), ('c', P(CHAR))))
S = ('s', 's', (('a', INT), ('in', IN), ('abc', CHAR)))
T = ('s', 't', (('p', P(S)), ('i', ('a', S, 2)), ('pq', INT)))
U = ('u', 'u', (('a', INT), ('b', ('a', CHAR, 4)), ('ab', SHORT)))
AN = ('s', '', (('m', INT), ('ua', INT), ('ub', CHAR), ('mm', INT)))
HS = ('s', 'hs', (('hm', INT), ('hp', P(CHAR))))
NOPE = ('x',)
# members of an anonymous union are at the same place: only declared, not written


def members(t):
    return [n for n, _ in t[2]] if t[0] in 'su' else []


def d(text, **objs):
    def m(st):
        for n in objs:
            if n in st:
                return None
        for n, t in objs.items():
            st[n] = new(t) if t[0] not in 'xn' else [t, None]
        return ANY
    return text, m


def need(op, *names):
    return op[0], lambda st: op[1](st) if all(n in st for n in names) else None


def setv(text, dst, v, *names):
    def m(st):
        if any(n not in st for n in names):
            return None
        o = dst(st)
        o[1] = v(st) if callable(v) else v
        return show(o) + '\n'
    return text, m


NAME = ('n',)
L = [d('int x;', x=INT), d('int xy, xz;', xy=INT, xz=INT),
     ('struct s { int a; struct { int ab; char *c; } in; char abc; } v;', lambda st: None if '#s' in st else (st.update({'#s': 1, 'v': new(S)}), ANY)[1]),
     need(d('struct s *p;', p=P(S)), '#s'), setv('p = &v;', lambda s: s['p'], lambda s: s['v'], 'p', 'v'), need(d('struct s arr[2];', arr=('a', S, 2)), '#s'),
     need(d('struct t { struct s *p; struct s i[2]; int pq; } t;', t=T), '#s'), setv('t.p = &arr[1];', lambda s: s['t'][1]['p'], lambda s: s['arr'][1][1], 't', 'arr'),
     d('enum e { A, AB = 3 };', A=NAME, AB=NAME), d('typedef int Ttt;', Ttt=NAME), need(d('typedef struct s S;', S=NAME), '#s'), need(d('S sv;', sv=S), 'S'),
     d('int abs(int);', abs=NAME), d('int (*fp)(int);', fp=P(INT)), setv('x = 5;', lambda s: s['x'], 5, 'x'), d('union u { int a; char b[4]; short ab; } u;', u=U),
     d('struct { int m; union { int ua; char ub; }; int mm; } an;', an=AN), d('struct nope *np;', np=P(NOPE)), ('int q', lambda st: ERR), ('"abc', lambda st: ERR),
     d('static int xs = 0;', xs=INT), d('const int Xc = 0;', Xc=INT), need(d('struct s **pp;', pp=P(P(S))), '#s'), setv('pp = &p;', lambda s: s['pp'], lambda s: s['p'], 'pp', 'p'),
     d('struct a { int a; } a;', a=('s', 'a', (('a', INT),))), d('float _f1, f_1;', _f1=FLOAT, f_1=FLOAT), setv('v.a = 7;', lambda s: s['v'][1]['a'], 7, 'v'), ('?x', lambda st: None if 'x' in st else 'Object not found\n'),
     d('struct list { struct list *next; int n; } l1, l2;', l1=('s', 'list', (('next', P(('l',))), ('n', INT))), l2=('s', 'list', (('next', P(('l',))), ('n', INT)))),
     setv('l1.next = &l2;', lambda s: s['l1'][1]['next'], lambda s: s['l2'], 'l1')]
LENGTHS = (15, 16, 31, 32, 63, 64, 127, 128, 252, 254, 255, 256, 257, 511, 1023, 1024, 4095, 4096)
HUGE = (8191, 16384, 32768, 65520, 65527, 65528, 65536, 70000)


def long_names(n):
    """Names and members of n characters, that differ in the last one."""
    N, M = 'N' * (n - 1), 'm' * (n - 1)
    t = ('s', 'L%d' % n, ((M + '1', INT), (M + '2', P(CHAR)), ('z', INT)))
    return d('struct L%d { int %s1; char *%s2; int z; } %sv, %sw, l%d;' % (n, M, M, N, N, n), **{N + 'v': t, N + 'w': t, 'l%d' % n: t})


def huge_members(n):
    M = 'm' * (n - 1)
    t = ('s', 'H%d' % n, ((M + '1', INT), (M + '2', P(CHAR)), ('z', INT)))
    return d('struct H%d { int %s1; char *%s2; int z; } h%d;' % (n, M, M, n), **{'h%d' % n: t})


def huge_name(n):
    return d('int %s;' % ('N' * n), **{'N' * n: INT})


def many_members(n):
    t = ('s', 'M%d' % n, tuple(('i%d' % i, INT) for i in range(n)))
    return d('struct M%d { int %s; } m%d;' % (n, ', '.join(x for x, _ in t[2]), n), **{'m%d' % n: t})


def many_names(n):
    return d('int %s;' % ', '.join('k%d_%d' % (n, i) for i in range(n)), **{'k%d_%d' % (n, i): INT for i in range(n)})


def prefixes(n):
    if len(n) > 8000:
        return ['', n[:len(n) - 1]]
    return [n[:i] for i in (range(len(n) + 1) if len(n) < 14 else (0, 1, len(n) // 2, len(n) - 1, len(n)))]


HEAD = [('#include "f.h"', lambda st: (st.setdefault('hfun', [NAME, None]), st.setdefault('hobj', new(HS)), st.setdefault('HT', [NAME, None]), st.setdefault('HA', [NAME, None]), st.setdefault('hfn', [NAME, None]), ANY)[5]),
        need(d('struct hs hq;', hq=HS), 'hfun'), need(d('HT h;', h=INT), 'hfun'), ('#include "g.h"', lambda st: (HEAD[0][1](st), st.setdefault('hg', [NAME, None]), ANY)[2])]


def exprs(st):
    """Texts with the type of what they designate (None: nothing that has members)."""
    r = []
    LIST = ('s', 'list', (('next', P(('l',))), ('n', INT)))
    for n, o in st.items():
        if n[0] == '#':
            continue
        t = o[0]
        r.append((n, '.', t if t[0] in 'su' else None))
        if t[0] == 'p':
            e = t[1]
            r.append((n, '->', e if e[0] in 'su' else None))
            if e[0] in 'su':
                r += [('(*%s)' % n, '.', e), ('*%s' % n, '->', None)]
            if n == 'pp':
                if o[1] is not None:
                    r += [('(*pp)', '->', S), ('pp[0]', '->', S), ('(**pp)', '.', S)]
        elif t[0] in 'su':
            r += [('(&%s)' % n, '->', t), ('(%s)' % n, '.', t), (n, '->', None)]
            for m, u in t[2] if len(t[2]) < 300 else t[2][:2] + t[2][-1:]:
                if u[0] in 'su':
                    r.append(('%s.%s' % (n, m), '.', u))
                elif u[0] == 'p' and u[1][0] == 'l':
                    r.append(('%s.%s' % (n, m), '->', LIST))
                    if o[1][m][1] is not None:
                        r += [('%s.%s->%s' % (n, m, m), '->', LIST), ('(*%s.%s)' % (n, m), '.', LIST)]
                elif u[0] == 'p':
                    r.append(('%s.%s' % (n, m), '->', u[1] if u[1][0] in 'su' else None))
                    if u[1][0] == 's' and o[1][m][1] is not None:
                        r += [('%s.%s->in' % (n, m), '.', IN), ('(*%s.%s).in' % (n, m), '.', IN)]
                elif u[0] == 'a' and u[1][0] == 's':
                    r += [('%s.%s[1]' % (n, m), '.', u[1]), ('%s.%s[0].in' % (n, m), '.', IN), ('(&%s.%s[1])' % (n, m), '->', u[1])]
                else:
                    r.append(('%s.%s' % (n, m), '.', None))
        elif t[0] == 'a':
            r += [('%s[1]' % n, '.', t[1]), ('%s[0].in' % n, '.', IN), ('(&%s[1])' % n, '->', t[1]), ('%s[1].a' % n, '.', None)]
            if 'x' in st and st['x'][1] == 0:
                r += [('%s[x]' % n, '.', t[1]), ('%s[++x]' % n, '.', t[1]), ('%s[x=1].in' % n, '.', IN), ('%s[xy=x]' % n, '.', t[1] if 'xy' in st else None)]
    if 'p' in st and 'v' in st:
        r += [('(p=&v)', '->', S), ('(p=0,&v)', '->', S), ('(v.a=9,v)', '.', S), ('(v.a++,&v)', '->', S)]
    if 'abs' in st and 'arr' in st:
        r += [('arr[abs(-1)]', '.', S), ('arr[abs()]', '.', None)]
    r += [('nosuch', '.', None), ('nosuch', '->', None), ('5', '->', None), ('(', '.', None), ('"a', '.', None), ("'", '->', None), ('x+', '.', None), ('struct', '.', None), ('v.', '.', None), ('1;int', '.', None), ('$', '.', None)]
    return r


def offers(st):
    """All completions to ask for in a state."""
    names = sorted(n for n in st if n[0] != '#')
    r = []
    for t in sorted({x for n in names for x in prefixes(n)} | {n + 'x' for n in names} | {'', 'X', 'q', 'int', 'stru', 'nope', 's', 'ab', 'a', '_', 'A', 'main', 'argc'}):
        # names that the program itself has might be offered, too
        r.append(('\t' + t, Offer(t, [n for n in names if n.startswith(t)], lambda m, t=t: m.startswith('__builtin') and m.startswith(t))))
    for e, op, t in exprs(st):
        ms = members(t) if t else []
        some = ms if len(ms) < 300 else ms[:3] + ms[-2:]
        for pre in sorted({x for m in some for x in prefixes(m)} | {m + 'b' for m in some} | {'', 'zz'}):
            x = e + op + pre
            r.append(('\t' + x, Offer(x, [e + op + m for m in ms if m.startswith(pre)])))
    return r


# what is asked for between the lines
BETWEEN = ['', 'arr[x=1].', '(v.a=9,v).', '(p=0)->', 'nosuch.', '"a.', 'x', '(x=8).', '1;int q;x.', 'abs(x++).']


class C18(sess.Sessions):
    pid = 'C18'
    prefixes = True
    rule = ('a case is a session: after its last line every completion of the model is asked for and must offer exactly the names of the model; completions whose '
            'text has side effects come between the lines; at the end every object is printed and must have the value it would have without them. A transition is one line or completion')
    space = ('all sessions of <= 2 lines (thorough 3) over 30 kinds of line from an empty session and from one with structs, <= 3 over 9 (thorough 4) and 2 with headers; names and members of <= 70000 characters, <= 6000 members; '
             'per session all prefixes of all names, all prefixes of all members behind every expression form (name, (*p), p->, array element, nested, comma, assignment, call, 11 that have no members)')
    assumptions = ["names of the program's own built-in functions might also be offered", 'the order of what is offered is not compared']

    def setup(self, scratch):
        self.dir = scratch + '/inc'
        os.makedirs(self.dir)
        open(self.dir + '/f.h', 'w').write('#ifndef F\n#define F\n#define MAC 3\nint hfun(int x) { int hlocal; hlocal = x; return hlocal; }\ntypedef int HT;\nstruct hs { int hm; char *hp; } hobj;\nenum { HA };\nint hfn(int harg);\n#endif\n')
        open(self.dir + '/g.h', 'w').write('#ifndef G\n#define G\n#include "f.h"\nint hg(int x) { return hfun(x); }\n#endif\n')

    def options(self, label):
        return dict(args=['-I', self.dir]) if label == 'inc' else {}

    def alphabets(self):
        deep = self.deep
        yield 'new', [], L, 3 if deep else 2
        few = [L[i] for i in (0, 2, 3, 4, 5, 6, 7, 14, 18)]
        yield 'few', [], few, 4 if deep else 3
        base = [L[i] for i in (0, 1, 2, 3, 5, 6, 22, 28)]
        yield 'structs', base, L, 3 if deep else 2
        yield 'inc', [], HEAD + [L[0], L[18]], 3 if deep else 2
        many = [L[i] for i in range(len(L)) if i not in (4, 7, 14, 23, 26, 27, 18, 19)]
        yield 'many', many, L, 2 if deep else 1

        yield 'long', [], [long_names(n) for n in LENGTHS], 2 if deep else 1
        yield 'huge', [], [f(n) for n in HUGE for f in (huge_members, huge_name)], 1
        yield 'throng', [], [many_members(3000), many_members(7000)], 1
        yield 'crowd', [], [f(n) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) for f in (many_members, many_names)], 2 if deep else 1

    def steps(self, c):
        t = self.tables()[c[0]]
        st = self.initial()
        r = []
        for i, (text, m) in enumerate(list(t[1]) + [t[2][i] for i in c[1]]):
            r.append((text, m))
            m(st)
            b = BETWEEN[(i + len(c[1]) + sum(c[1])) % len(BETWEEN)]
            r.append(('\t' + b, lambda st: None))
        # the model of these is what the state says at that point
        steps = []
        st = self.initial()
        for text, m in r:
            if text[0] == '\t':
                steps.append((text, lambda st, x=text[1:]: next((o for t, o in offers(st) if t[1:] == x), None) or Offer(x, [], lambda m: True)))
            else:
                steps.append((text, m))
                m(st)
        for text, o in offers(st) if not self.brief else ():
            steps.append((text, lambda st, o=o: o))
        for n in sorted(st):
            if n[0] != '#' and st[n][0][0] in 'ifpsu' and st[n][0] not in (NAME, AN, U) and 'l' not in str(st[n][0][2:]):
                steps.append((n + ';', lambda st, n=n: show(st[n]) + '\n'))
        return steps

    brief = False

    def key(self, c):
        self.brief = True
        k = c[0] + ': ' + ' | '.join(x for x in self.lines(c) if x[0] != '\t')
        self.brief = False
        return k


if __name__ == '__main__':
    sys.exit(engine.main(C18))
