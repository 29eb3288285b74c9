"""C11: interpreted functions work as callbacks of native code.

A probe library is generated and compiled. For every signature it has a driver
that calls the function it is given with values at the ends of the range of the
types and prints what comes back; and a set of functions that keep callbacks and
call them later, for the sequences of operations. The sequences run with the
collector at every allocation.
"""
import itertools, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import scale
from opseq import OpSeq
from cint import *
from c10 import T, T3, INT, fm, values, use

TC = [t for t in T if t != 'struct st *']
RET = ['void'] + T


class Sig:
    def __init__(self, n, ret, params):
        self.n, self.ret, self.params = n, ret, params

    def list(self, names=False):
        return ', '.join('%s%s' % (t, ' p%d' % i if names else '') for i, t in enumerate(self.params)) or 'void'

    def ptr(self, name):
        return '%s%s(*%s)(%s)' % (self.ret, '' if self.ret[-1] == '*' else ' ', name, self.list())


def cvalues(t, n):
    """What the driver passes: [(C expression, printed)]."""
    if t == 'char *':
        return values(t, n)[:2] + [('(char *)cbuf + %d' % (n % 13), 'buffer-of-chars'[n % 13:])]
    if t == 'int *':
        return [('(int *)ibuf + %d' % ((n + k) % 4), str(60 + (n + k) % 4)) for k in range(3)]
    if t == 'struct st *':
        return [('sbuf + %d' % ((n + k) % 3), str(70 + (n + k) % 3)) for k in range(3)]
    return values(t, n)


def rvalues(t):
    """What the callback returns: [(expression in bic, printed)]."""
    if t == 'char *':
        return [('"first"', 'first'), ('""', ''), ('gs', 'global string')]
    if t == 'int *':
        return [('gi', '30'), ('&gi[1]', '31'), ('gi + 2', '32')]
    if t == 'struct st *':
        return [('&ga', '41'), ('gp', '42'), ('&gv[1]', '43')]
    return values(t, 0)


class C11(OpSeq):
    pid = 'C11'
    level = 'exploration'
    rule = 'a case is a callback signature with 3 sets of values, or a sequence of operations on callbacks'
    depth = {'quick': 3, 'thorough': 4}
    batch = 8

    def __init__(self, tier, seed):
        super().__init__(tier, seed)
        self.space = ('all callback signatures with 1 and 2 of 16 parameter types returning int, 3 of 9 types, 0..12 parameters of 6 patterns, '
                      'and every return type x 5 parameter lists, each with 3 value sets through a name, an address and a pointer variable; '
                      'all sequences of %d of %d operations (registering, firing, nested and re-entrant calls, sorting, direct calls, '
                      'discarded scopes) with a collection at every allocation; all sequences of %d of %d operations with one at every 11th' % (self.depth[tier] - 1, len(OPS), self.depth[tier], len(CORE)))

    def sigs(self):
        if hasattr(self, '_s'):
            return self._s
        s = []
        for k in (1, 2):
            for ts in itertools.product(T, repeat=k):
                s.append(Sig(len(s), 'int', ts))
        for ts in itertools.product(T3 if not self.deep else TC[:5] + T3, repeat=3):
            s.append(Sig(len(s), 'int', ts))
        for n in range(0, 13):
            for pat in (['int'], ['double'], ['int', 'double'], ['long', 'char', 'float'], ['unsigned char', 'char *', 'double', 'double'], ['float']):
                if n > 3:
                    s.append(Sig(len(s), 'int', [pat[i % len(pat)] for i in range(n)]))
        for r in RET:
            for ps in ([], ['int'], ['double'], ['char', 'float', 'long'], ['int *'], ['int'] * 7, ['double'] * 9):
                s.append(Sig(len(s), r, ps))
        self._s = s
        return s

    def setup(self, scratch):
        self.lib = os.path.join(scratch, 'libcallback.so')
        head = ('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\nstruct st { char a; int b; double c; struct st *n; char z[3]; };\n'
                'static char cbuf[] = "buffer-of-chars"; static int ibuf[] = { 60, 61, 62, 63 };'
                'static struct st sbuf[] = { { 1, 70 }, { 2, 71 }, { 3, 72 } };\n')
        parts = []
        for s in self.sigs():
            body = ''
            for k in range(3):
                args = ', '.join('(%s)%s' % (t, cvalues(t, i)[k][0]) for i, t in enumerate(s.params))
                if s.ret == 'void':
                    body += 'f(%s); printf("back\\n");\n' % args
                else:
                    body += '{ %s r = f(%s); printf("%s\\n", %s); }\n' % (s.ret, args, fm(s.ret), use(s.ret, 'r'))
            parts.append('void d%d(%s) { %s }\n' % (s.n, s.ptr('f'), body))
        hist = '''
typedef int (*cb)(int);
static cb kept[4]; static int depth;
void keep(int i, cb f) { kept[i] = f; }
int fire(int i, int n) { int r; if (depth > 40) return -1; depth++; r = kept[i] ? kept[i](n) : -77; depth--; return r + depth; }
int level(void) { return depth; }
int same(cb a, cb b) { return a == b; }
int twice(cb f, int n) { return f(f(n)); }
int compose(cb f, cb g, int n) { return f(g(n)); }
void each(int *a, int n, void (*f)(int *, int)) { int i; for (i = 0; i < n; i++) f(&a[i], i); }
int table(cb *t, int n, int v) { int i; for (i = 0; i < n; i++) v = t[i](v); return v; }
struct obj { int v; int (*get)(struct obj *); void (*set)(struct obj *, int); };
int use_obj(struct obj *o, int n) { int a = o->get(o); o->set(o, n); return a * 100 + o->get(o); }
double fold(double (*f)(double, double), double *v, int n) { double r = v[0]; int i; for (i = 1; i < n; i++) r = f(r, v[i]); return r; }
cb kept_at(int i) { return kept[i]; }
'''
        procs = []
        n = 8
        for i in range(n):
            p = os.path.join(scratch, 'p%d.c' % i)
            with open(p, 'w') as f:
                f.write(head + ''.join(parts[i::n]) + (hist if i == 0 else ''))
            procs.append(subprocess.Popen(['gcc', '-w', '-O1', '-fPIC', '-c', p, '-o', p[:-1] + 'o']))
        for p in procs:
            if p.wait():
                raise RuntimeError('probe library')
        subprocess.run(['gcc', '-shared', '-o', self.lib] + [os.path.join(scratch, 'p%d.o' % i) for i in range(n)], check=True)

    def groups(self):
        g = []
        for s in self.sigs():
            g.append(('S', s.n))
            if len(g) == 25:
                yield g
                g = []
        yield g
        yield from OpSeq.groups(self)

    def alphabets(self):
        d = self.depth[self.tier]
        core = [i for i, o in enumerate(OPS) if o[0] in CORE]
        yield ('collecting at every allocation', list(range(len(OPS))), d - 1)
        yield ('collecting at every 11th allocation', core, d)

    OPS = []
    PRELUDE = '''int printf(const char *f, ...);
void qsort(void *, unsigned long, unsigned long, int (*)(const void *, const void *));
void *bsearch(const void *, const void *, unsigned long, unsigned long, int (*)(const void *, const void *));
void keep(int i, int (*f)(int));
int fire(int i, int n);
int level(void);
int same(int (*a)(int), int (*b)(int));
int twice(int (*f)(int), int n);
int compose(int (*f)(int), int (*g)(int), int n);
void each(int *a, int n, void (*f)(int *, int));
int table(int (**t)(int), int n, int v);
struct obj { int v; int (*get)(struct obj *); void (*set)(struct obj *, int); };
int use_obj(struct obj *o, int n);
double fold(double (*f)(double, double), double *v, int n);
int g;
int inc(int n) { int l = n; g = g + l; return l + 1; }
int sta(int n) { static int s = 5; s = s + n; return s; }
int nest(int n) { if (n <= 0) return g; return fire(1, n - 1) + 2; }
int loop(int n) { int i; for (i = 0; i < 50; i++) { while (1) { int k; k = i; if (k == n) { int r = k * 10; return r; } break; } } return -5; }
void sq(int *p, int i) { if (i == 2) return; *p = *p + i * i; g = g + 1; }
int cmp(int *a, int *b) { return *a - *b; }
int rcmp(int *a, int *b) { return -cmp(a, b); }
int fcmp(int *a, int *b) { g = fire(0, 1) + g; return *b - *a; }
int get(struct obj *o) { return o->v; }
void set(struct obj *o, int n) { o->v = n + g; }
double fadd(double a, double b) { g++; return b; }
'''
    LOCALS = '''int r; int a[4]; int i; int (*q)(int); int (*qt[3])(int); int *found; int key; struct obj o; double dv[3];
a[0] = 3; a[1] = -1; a[2] = 7; a[3] = 0; g = 1; q = inc; r = 0; i = 9; qt[0] = inc; qt[1] = sta; qt[2] = loop; o.v = 4; dv[0] = 1.5; dv[1] = 2.5; dv[2] = 3.5;
'''
    SHOW = 'printf(" %d %d %d %d %d %d %d|\\n", r, g, i, a[0], a[1], a[2], a[3]);'

    def initial(self):
        return State()

    def show(self, st):
        return ' %d %d %d %d %d %d %d|\n' % (st.r, st.g, 9, *st.a)

    def key(self, c):
        if c[0] == 'S':
            s = self.sigs()[c[1]]
            return 'callback ' + s.ptr('f')
        return OpSeq.key(self, c)

    _c = (None, None)

    def part(self, c):
        s = self.sigs()[c[1]]
        top = 'void d%d(%s);\n' % (s.n, s.ptr('f'))
        sep = '' if s.ret[-1] == '*' else ' '
        shown = 'printf("h%d %s\\n"%s); ' % (s.n, ' '.join(fm(t) for t in s.params), ''.join(', ' + use(t, 'p%d' % i) for i, t in enumerate(s.params)))
        body = 'int before = 11; rk = rk + 1; ' + shown
        ret = rvalues(s.ret) if s.ret != 'void' else []
        if ret:
            body += 'if (rk %% 3 == 1) return %s; while (rk %% 3 == 2) { int inner = 4; return %s; } return %s;' % tuple(v[0] for v in ret)
        else:
            body += 'if (rk % 3 == 1) return; g = g + before;'
        top += '%s%sh%d(%s) { %s }\n' % (s.ret, sep, s.n, s.list(True), body)
        out = '{ int keep1 = 21; rk = 0; %s; q = h%d;\nd%d(h%d); printf("%%d\\n", keep1); d%d(q); d%d(&h%d); printf("%%d\\n", keep1); }\n' % (
            s.ptr('q'), s.n, s.n, s.n, s.n, s.n, s.n)
        want = ''
        for rep in range(3):
            for k in range(3):
                want += 'h%d %s\n' % (s.n, ' '.join(cvalues(t, i)[k][1] for i, t in enumerate(s.params)))
                want += (ret[k][1] if ret else 'back') + '\n'
            if rep != 1:
                want += '21\n'
        return top, out, want

    def parts(self, cases):
        if self._c[0] is not cases:
            self._c = (cases, [self.part(c) for c in cases])
        return self._c[1]

    def stats(self, cases):
        if cases[0][0] == 'S':
            return len(cases) * 9, len(cases) * 18
        return OpSeq.stats(self, cases)

    def request(self, cases):
        if cases[0][0] == 'S':
            ps = self.parts(cases)
            t = ('int printf(const char *f, ...);\nint rk; int g; struct st { char a; int b; double c; struct st *n; char z[3]; };\n'
                 'char *gs = "global string"; int gi[3]; struct st ga; struct st gv[2]; struct st *gp;\n' +
                 ''.join(p[0] for p in ps) +
                 'int main()\n{\ngi[0] = 30; gi[1] = 31; gi[2] = 32; ga.b = 41; gv[0].b = 42; gv[1].b = 43; gp = gv;\n' +
                 ''.join(p[1] for p in ps) + 'return 0;\n}\n')
            return 'script', dict(text=t, pre=('-l', self.lib), gc=(97, 0, ()))
        return 'script', dict(text=self.text(cases[0]), pre=('-l', self.lib), gc=(GC[cases[0][0]], 0, ()))

    def execute(self, h, cases):
        if cases[0][0] == 'S':
            return engine.Check.execute(self, h, cases)
        return OpSeq.execute(self, h, cases)

    def execute_real(self, h, cases):
        if cases[0][0] == 'S':
            return engine.Check.execute_real(self, h, cases)
        return OpSeq.execute_real(self, h, cases)

    def judge(self, cases, res):
        if cases[0][0] != 'S':
            return OpSeq.judge(self, cases, res)
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = ''.join(p[2] for p in self.parts(cases))
        if res.out == want:
            return None
        for i, (x, y) in enumerate(zip(want.split('\n'), res.out.split('\n'))):
            if x != y:
                return 'line %d: expected %r, got %r' % (i + 1, x, y)
        return 'expected %d lines, got %d' % (want.count('\n'), res.out.count('\n'))


GC = {'collecting at every allocation': 1, 'collecting at every 11th allocation': 11}
CORE = {'keep(0, nest)', 'keep(1, nest)', 'keep(0, sta)', 'keep(1, loop)', 'keep(1, inc)', 'fire(0, 3)', 'fire(1, fire(0, 2))', 'sort by a callback that fires',
        'twice(q, 2)', 'q = sta', 'q = nest', 'keep(1, q)', 'keep(0, ...) in a block', 'table(qt, 3, 2)', 'qt[1] = q', 'churn'}


class Deep(Exception):
    pass


class State:
    def __init__(self):
        self.g, self.r, self.s, self.ov = 1, 0, 5, 4
        self.a = [3, -1, 7, 0]
        self.kept = [None] * 4
        self.q = 'inc'
        self.qt = ['inc', 'sta', 'loop']
        self.depth = 0

    def __repr__(self):
        return repr(sorted(self.__dict__.items()))

    def fire(self, i, n):
        if self.depth > 40:
            return -1
        self.depth += 1
        if self.depth > 12:
            raise Deep
        r = self.call(self.kept[i], n) if self.kept[i] else -77
        self.depth -= 1
        return r + self.depth

    def call(self, f, n):
        if f == 'inc':
            self.g += n
            return n + 1
        if f == 'sta':
            self.s += n
            return self.s
        if f == 'nest':
            return self.g if n <= 0 else self.fire(1, n - 1) + 2
        if f == 'loop':
            return n * 10 if 0 <= n < 50 else -5


def op(name, code, fn):
    def model(st):
        try:
            r = fn(st)
        except Deep:
            return None
        return None if r is False else ''
    OPS.append((name, code, model))


OPS = []
FN = ['inc', 'sta', 'nest', 'loop']
for i in (0, 1):
    for f in FN:
        def m(st, i=i, f=f):
            st.kept[i] = f
        op('keep(%d, %s)' % (i, f), 'keep(%d, %s%s);' % (i, '&' if f in ('sta', 'loop') else '', f), m)


def fire(st, i, n):
    st.r = st.fire(i, n)


op('fire(0, 3)', 'r = fire(0, 3);', lambda st: fire(st, 0, 3))
op('fire(1, fire(0, 2))', 'r = fire(1, fire(0, 2));', lambda st: fire(st, 1, st.fire(0, 2)))


def setr(fn):
    def f(st):
        st.r = fn(st)
    return f


op('sort', 'qsort(a, 4, sizeof(int), cmp);', lambda st: st.a.sort())
op('reverse sort by two callbacks', 'qsort(a, 4, sizeof(int), &rcmp);', lambda st: st.a.sort(reverse=True))
op('each', 'each(a, 4, sq);', lambda st: (st.a.__setitem__(slice(None), [x if i == 2 else x + i * i for i, x in enumerate(st.a)]), setattr(st, 'g', st.g + 3))[1])
op('direct calls', 'r = inc(2) + sta(1) + nest(1);', setr(lambda st: st.call('inc', 2) + st.call('sta', 1) + st.call('nest', 1)))
op('twice(q, 2)', 'r = twice(q, 2);', setr(lambda st: st.call(st.q, st.call(st.q, 2))))
op('twice(loop, 1)', 'r = twice(loop, 1);', setr(lambda st: st.call('loop', st.call('loop', 1))))
op('compose(inc, sta, 4)', 'r = compose(inc, sta, 4);', setr(lambda st: st.call('inc', st.call('sta', 4))))
op('q = sta', 'q = sta;', lambda st: setattr(st, 'q', 'sta'))
op('q = &inc', 'q = &inc;', lambda st: setattr(st, 'q', 'inc'))
op('q = nest', 'q = nest;', lambda st: setattr(st, 'q', 'nest'))


def keepq(st):
    st.kept[1] = st.q


op('keep(1, q)', 'keep(1, q);', keepq)
op('keep(0, ...) in a block', '{ int (*t)(int); int x[5]; x[2] = 5; t = sta; keep(0, t); t = loop; r = t(x[2]); }',
   lambda st: (st.kept.__setitem__(0, 'sta'), setattr(st, 'r', 50))[1])


def table(st):
    v = 2
    for f in st.qt:
        v = st.call(f, v)
    st.r = v


op('table(qt, 3, 2)', 'r = table(qt, 3, 2);', table)
op('qt[1] = q', 'qt[1] = q;', lambda st: st.qt.__setitem__(1, st.q))


def obj(st):
    a = st.ov
    st.ov = 7 + st.g
    st.r = a * 100 + st.ov


op('use_obj', 'o.get = get; o.set = &set; r = use_obj(&o, 7);', obj)
op('fold', 'r = fold(fadd, dv, 3);', lambda st: (setattr(st, 'g', st.g + 2), setattr(st, 'r', 3))[1])
op('same', 'r = same(inc, q) * 10 + same(inc, &inc);', setr(lambda st: (st.q == 'inc') * 10 + 1))
op('churn', '{ int k; int x[8]; for (k = 0; k < 8; k++) { char *s; s = "abc"; x[k] = s[k % 3]; } r = x[4]; }', setr(lambda st: 98))


def fcmp(st):
    # two elements: the comparison is called exactly once
    st.g = st.fire(0, 1) + st.g if st.kept[0] else -77 + st.g
    if st.a[1] - st.a[0] > 0:
        st.a[0], st.a[1] = st.a[1], st.a[0]


def fcmp_model(st):
    # g = fire(0, 1) + g reads g after the call has been made
    r = st.fire(0, 1)
    st.g = r + st.g
    if st.a[1] - st.a[0] > 0:
        st.a[0], st.a[1] = st.a[1], st.a[0]


op('sort by a callback that fires', 'qsort(a, 2, sizeof(int), fcmp);', fcmp_model)


def search(st):
    if st.a != sorted(st.a):
        return False
    st.r = st.a.index(st.a[2]) if st.a.count(st.a[2]) == 1 else False
    return None if st.r is not False else False


op('search', 'key = a[2]; found = bsearch(&key, a, 4, sizeof(int), cmp); r = found - a;', search)
C11.OPS = OPS


# -- functions that run when the program ends
EXIT = '''int printf(const char *f, ...);
int fflush(void *f);
int atexit(void (*f)(void));
int at_quick_exit(void (*f)(void));
void exit(int n);
void quick_exit(int n);
void _Exit(int n);
int n = 1;
int depth(int k) { int l; l = k; if (k) return depth(k - 1) + (l == k); return 0; }
void a(void) { n = n * 3 + 1; printf("a%d\\n", n); fflush(0); }
void b(void) { int i, t; t = 0; for (i = 0; i < 5; i++) t = t + i; n = n + t; printf("b%d\\n", n); fflush(0); }
void c(void) { printf("c\\n"); fflush(0); atexit(a); }
void d(void) { static int times; times++; n = n + depth(4) + times; printf("d%d\\n", n); fflush(0); }
void reg(void (*f)(void)) { int local; local = 3; @(f); }
'''
ENDS = {'return': 'return 7;', 'exit': 'exit(7);', 'nested exit': 'leave(3);', 'exit in a loop': 'while (1) { int z; z = 7; exit(z); }', '_Exit': '_Exit(7);', 'quick_exit': 'quick_exit(7);', 'end': '', 'top return': 'return 7;'}
FORMS = {'name': '@(%s);', 'address': '@(&%s);', 'variable': 'fp = %s; @(fp);', 'function': 'reg(%s);', 'block': '{ void (*q)(void); q = &%s; { int z; z = 1; if (z) @(q); } }'}


def at_exit(regs, form, end):
    """(program, what it prints)."""
    f = 'at_quick_exit' if end == 'quick_exit' else 'atexit'
    body = 'void (*fp)(void); ' + ' '.join(FORMS[form] % r for r in regs) + (' atexit(b);' if end == 'quick_exit' else '') + ' n = n + 1; printf("end %d\\n", depth(3)); fflush(0); '
    text = EXIT.replace('\\\\', '\\') + 'int leave(int k) { if (k) return leave(k - 1); exit(7); return 1; }\n'
    text = text + (body + ENDS[end] if end in ('end', 'top return') else 'int main() { %s%s return 1; }' % (body, ENDS[end])) + '\n'
    out, n, t, todo = ['end 3'], 2, 0, [] if end == '_Exit' else list(regs)
    while todo:
        r = todo.pop()
        if r == 'a':
            n = n * 3 + 1
        elif r == 'b':
            n += 10
        elif r == 'd':
            t += 1
            n += 4 + t
        elif end != 'quick_exit':
            todo.append('a')
        out.append(r + (str(n) if r != 'c' else ''))
    return text.replace('@', f), '\n'.join(out) + '\n', 0 if end == 'end' else 7


class AtExit(C11):
    def __init__(self, tier, seed):
        super().__init__(tier, seed)
        self.space += '; all sequences of 1..3 registrations (4: thorough) of 4 functions to run at exit x 8 ways to end x 5 ways to register'

    def groups(self):
        yield from super().groups()
        for k in range(1, 5 if self.deep else 4):
            for regs in itertools.product('abcd', repeat=k):
                for i, end in enumerate(ENDS):
                    for j, form in enumerate(FORMS):
                        if k < 3 or (i + j + sum(map(ord, regs))) % 5 == 0:
                            yield [('#exit', regs, form, end)]

    def key(self, c):
        return 'at exit: %s, by %s, %s' % (' '.join(c[1]), c[2], c[3]) if c[0] == '#exit' else super().key(c)

    def stats(self, cs):
        return (len(cs[0][1]) + 1, len(cs[0][1]) + 1) if cs[0][0] == '#exit' else super().stats(cs)

    def request(self, cs):
        if cs[0][0] != '#exit':
            return super().request(cs)
        return 'script', dict(text=at_exit(*cs[0][1:])[0], gc=(1, 0, ()))

    def execute(self, h, cs):
        return engine.Check.execute(self, h, cs) if cs[0][0] == '#exit' else super().execute(h, cs)

    def execute_real(self, h, cs):
        return engine.Check.execute_real(self, h, cs) if cs[0][0] == '#exit' else super().execute_real(h, cs)

    def judge(self, cs, r):
        if cs[0][0] != '#exit':
            return super().judge(cs, r)
        _, want, rc = at_exit(*cs[0][1:])
        if (r.ended, r.out) != ('exit %d' % rc, want):
            return 'must print %r and end with %d, printed %r; %s, %s' % (want, rc, r.out[-300:], r.ended, r.err[-200:])


AtExit.__name__ = AtExit.__qualname__ = 'C11'

if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(AtExit)))
