"""C04: statements execute in C's order, whatever the nesting.

Family T enumerates every statement tree up to a size (if, if/else, while, for
in four forms, blocks, break, return, calls) as the body of a function; each
is run under every sequence of outcomes of its conditions (explored depth first
up to a number of decisions), and the trace of executed statements, the number
of decisions taken, the value returned and the loop counter are compared with
the model. Family M puts the same trees in the top-level code of a script.
Family V drives every controlling expression with values of every type.
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import effects
import engine
import scale
from minic import Machine, Undefined, StepLimit, stext, always_else, Cell
from minic import _Return, _Break

D = ('call', 'd', [])
TAG = [0]


def leafs(loop, ret):
    yield ('T',)
    yield (';',)
    if loop:
        yield ('k',)
    if ret:
        yield ('R',)


def trees(n, loop, ret):
    """Statement trees of exactly n nodes."""
    if n == 1:
        yield from leafs(loop, ret)
        return
    for kids in seqs(n - 1, loop, ret):
        yield ('b', kids)
    for s in trees(n - 1, loop, ret):
        yield ('if', D, s, None)
    for i in range(1, n - 1):
        for a in trees(i, loop, ret):
            if always_else(a):
                continue
            for b in trees(n - 1 - i, loop, ret):
                yield ('if', D, a, b)
    for s in trees(n - 1, True, ret):
        yield ('w', D, s)
        yield ('w', ('n', 1), s)
        yield ('f', None, None, None, s)
        yield ('f', 'T', D, 'T', s)
        yield ('f', 'I', ('bin', '<', ('v', 'i'), ('n', 2)), ('post', '++', 'i'), s)
        yield ('f', 'J', ('bin', '<', ('v', 'j'), ('n', 2)), ('post', '++', 'j'), s)


def seqs(n, loop, ret, k=3):
    """Sequences of up to k statements with n nodes in all (0 for none)."""
    if n == 0:
        yield []
        return
    if k == 0:
        return
    for i in range(1, n + 1):
        for a in trees(i, loop, ret):
            for r in seqs(n - i, loop, ret, k - 1):
                yield [a] + r


def dull(s):
    """Every leaf an empty statement?"""
    if s == (';',):
        return True
    if not isinstance(s, (tuple, list)):
        return False
    return False


def label(s, n):
    """Give the leaves their numbers."""
    k = s[0]
    if k == 'T':
        n[0] += 1
        return ('e', ('call', 't', [('n', n[0])]))
    if k == 'R':
        n[0] += 1
        return ('r', ('n', n[0]))
    if k == 'b':
        return ('b', [label(x, n) for x in s[1]])
    if k == 'if':
        return ('if', s[1], label(s[2], n), None if s[3] is None else label(s[3], n))
    if k == 'w':
        return ('w', s[1], label(s[2], n))
    if k == 'f':
        def call():
            n[0] += 1
            return ('call', 't', [('n', n[0])])
        init, step = s[1], s[3]
        if init == 'T':
            init = call()
        elif init == 'I':
            init = ('as', '=', 'i', ('n', 0))
        elif init == 'J':
            init = ('d', 'j', ('n', 0))
        if step == 'T':
            step = call()
        return ('f', init, s[2], step, label(s[4], n))
    return s


class Need(Exception):
    pass


class Run:
    """One run of a tree under a prefix of decisions; further ones are 0."""

    def __init__(self, body, toplevel):
        self.body, self.top = body, toplevel

    def __call__(self, bits, limit):
        self.n = 0
        self.h = 0

        def d(m, a):
            self.n += 1
            if self.n > len(bits):
                raise Need
            return bits[self.n - 1]

        def t(m, a):
            self.h = (self.h * 31 + a[0] + 1) % 1000003
            return self.h

        m = Machine({'d': d, 't': t}, limit=600)
        m.globals['i'] = Cell(0)
        if self.top:
            v = None
            try:
                for s in self.body:
                    m.st(s)
            except _Return as r:
                v = r.args[0]
        else:
            m.funcs['p'] = ([], self.body)
            v, _ = m.run('p')
        self.m = m
        return v, self.h, self.n, m.globals['i'].v, len(m.states), m.steps


def schedules(body, toplevel, limit):
    """Every complete sequence of at most `limit' decisions."""
    r = Run(body, toplevel)
    stack = [()]
    while stack:
        bits = stack.pop()
        try:
            yield bits, r(bits, limit)
        except Need:
            if len(bits) < limit:
                stack += [bits + (0,), bits + (1,)]
        except (StepLimit, Undefined):
            pass


TYPES = ['char', 'short', 'int', 'long', 'long long', 'unsigned char', 'unsigned short', 'unsigned int',
         'unsigned long', 'unsigned long long']
W = {'char': 8, 'short': 16, 'int': 32, 'long': 64}
CONS = ['if (%s) r=1; else r=2;', 'r=2; if (%s) r=1;', 'r=2; while (%s) { r=1; break; }', 'r=2; for (;%s;) { r=1; break; }',
        'r = %s ? 1 : 2;', 'r=2; if (!(%s)) r=2; else r=1;', 'r=2; if (1 && %s) r=1;', 'r=2; if (0 || %s) r=1;',
        'r=2; if (%s && 1) r=1;', 'r=2; if (%s || 0) r=1;', 'r = 2 - !!(%s);', 'r=2; if (two, %s) r=1;', 'r=2; if (r == 2 && (%s)) { r=1; }']


class C04(engine.Check):
    pid = 'C04'
    level = 'model_checking'
    rule = 'a case is a program (statement tree); it is run once per complete sequence of condition outcomes'
    space = ('statement trees: functions of <= 5 (thorough 6) nodes, top-level code of <= 4 (5) nodes, decision '
             'sequences of <= 5 (6); controlling expressions: 10 types x values x 13 constructs')
    assumptions = ['trees in which no decision sequence within the bound terminates are left out']

    def groups(self):
        lim = 6 if self.deep else 5
        g = []
        for n in range(0, 7 if self.deep else 6):
            for i, b in enumerate(seqs(n, False, True, 4)):
                g.append(('T', n, i, b, lim if n < 6 else 4))
                if len(g) == 24:
                    yield g
                    g = []
        if g:
            yield g
        for n in range(1, 6 if self.deep else 5):
            for i, b in enumerate(seqs(n, False, True, 3)):
                yield [('M', n, i, b, 3)]
        g = []
        for t in TYPES:
            n = W[t.replace('unsigned ', '').replace('long long', 'long')]
            for v in sorted({0, 1, 2, 3, 64, 100} | {(1 << k) for k in range(n - 1)} | {(1 << n - 1) - 1} |
                            ({-1, -2, -(1 << n - 1)} if t[0] != 'u' else {1 << n - 1, (1 << n) - 1})):
                g.append(('V', t, v))
                if len(g) == 20:
                    yield g
                    g = []
        for v in ('0', '&two', 'arr', 'fun', '"x"', 'np'):
            g.append(('V', 'ptr', v))
        yield g

    def key(self, c):
        if c[0] == 'V':
            return 'condition of type %s, %s' % (c[1], c[2])
        return '%s: %s' % ('function' if c[0] == 'T' else 'top-level code', self.text(c).replace('\n', ' '))

    _cache = (None, None)

    def tree(self, c):
        n = [0]
        return [label(s, n) for s in c[3]]

    def text(self, c):
        return ''.join(stext(s) for s in self.tree(c))

    def runs(self, c):
        if self._cache[0] is not c:
            C04._cache = (c, list(schedules(self.tree(c), c[0] == 'M', c[4])))
        return self._cache[1]

    def stats(self, cases):
        if cases[0][0] == 'V':
            return len(cases) * len(CONS), len(cases) * len(CONS)
        s = t = 0
        for c in cases:
            for b, r in self.runs(c):
                s += r[4]
                t += r[5]
        return s, t

    PRE = ('int printf(const char *f, ...);\nint i; int n; long s; int h;\n'
           'int d() { int r; r = s % 2; s = s / 2; n = n + 1; return r; }\n'
           'int t(int k) { h = (h * 31 + k + 1) % 1000003; return h; }\n')

    def request(self, cases):
        k = cases[0][0]
        if k == 'V':
            t = 'int printf(const char *f, ...);\nint fun(int a) { return a; }\nint main()\n{\nint r; int two; int arr[2]; int *np; int *q; two=2; np=0;\n'
            for c in cases:
                if c[1] == 'ptr':
                    e = c[2] if c[2] != '0' else 'np'
                    if e not in ('np', 'arr', '&two'):
                        e = None
                    if e is None:
                        continue
                else:
                    t += '{ %s x; x=%s;\n' % (c[1], c[2])
                    e = 'x'
                for con in CONS:
                    t += con % e + ' printf("%d",r);\n'
                t += 'printf("\\n");\n'
                if c[1] != 'ptr':
                    t += '}\n'
            return 'script', dict(text=t + 'return 0;\n}\n')
        if k == 'T':
            t, m = self.PRE, ''
            for j, c in enumerate(cases):
                t += 'int p%d()\n{\n%s}\n' % (j, self.text(c))
                for bits, r in self.runs(c):
                    s = sum(b << x for x, b in enumerate(bits))
                    call = 'r=p%d();' % j if r[0] is not None else 'r=-1; p%d();' % j
                    m += 's=%d; n=0; h=0; i=0; %s printf("%%d %%d %%d %%d\\n",r,h,n,i);\n' % (s, call)
            return 'script', dict(text=t + 'int main()\n{\nint r;\n%sreturn 0;\n}\n' % m)
        c = cases[0]
        # all schedules one after the other is not possible at the top level:
        # one program runs the tree once
        return 'script', dict(text=self.PRE + 's=%d; n=0; h=0; i=0;\n' % 0 + self.text(c) + 'printf("%d %d %d\\n",h,n,i);\n')

    def execute(self, h, cases):
        if cases[0][0] != 'M':
            return super().execute(h, cases)
        c = cases[0]
        rs = []
        for bits, r in self.runs(c):
            rs.append(h.script(text=self.mtext(c, bits)))
        return rs

    def mtext(self, c, bits):
        s = sum(b << x for x, b in enumerate(bits))
        return self.PRE + 's=%d; n=0; h=0; i=0;\n' % s + self.text(c) + 'printf("%d %d %d\\n",h,n,i);\n'

    def execute_real(self, h, cases):
        if cases[0][0] != 'M':
            return super().execute_real(h, cases)
        return [h.real_script(text=self.mtext(cases[0], b)) for b, r in self.runs(cases[0])]

    def judge(self, cases, res):
        if cases[0][0] == 'M':
            for (bits, r), x in zip(self.runs(cases[0]), res):
                # a top-level return ends the program with that status
                if r[0] is not None:
                    want, rc = '', r[0]
                else:
                    want, rc = '%d %d %d\n' % (r[1], r[2], r[3]), 0
                if x.rc != rc or x.out != want:
                    return 'decisions %s: expected %r and exit status %d, got %r and %s %s' % (
                        bits, want, rc, x.out, x.ended, x.err[:100])
            return None
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = []
        if cases[0][0] == 'V':
            for c in cases:
                if c[1] == 'ptr':
                    if c[2] in ('fun', '"x"'):
                        continue
                    r = c[2] not in ('0', 'np')
                else:
                    r = c[2] != 0
                want.append((('1' if r else '2') * len(CONS), c, ''))
        else:
            for c in cases:
                for bits, r in self.runs(c):
                    want.append(('%d %d %d %d' % (-1 if r[0] is None else r[0], r[1], r[2], r[3]), c, bits))
        got = res.out.split('\n')[:-1]
        for (w, c, b), g in zip(want, got):
            if w != g:
                return 'decisions %s of (%s): expected %r, got %r' % (b, self.key(c), w, g)
        if len(want) != len(got):
            return 'expected %d lines, got %d' % (len(want), len(got))
        return None


if __name__ == '__main__':
    sys.exit(engine.main(effects.everywhere(scale.scaled(C04))))
