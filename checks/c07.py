"""C07: static and file-scope objects live and keep their value for the whole run.

Every sequence of calls up to a depth over functions whose static objects have
the same names, in bodies, blocks, loops, branches and recursion, against a
model in which every declaration is one object.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine, opseq
import scale
from cint import conv

PRELUDE = r'''int printf(const char *f, ...);
int c = 100;
int z;
static int fs = 4;
static char fc;
long fl = -1;
int ga[3];
struct pr { int a; long b; };
struct pr gs;
static struct pr *gp;
double gd = 1.5;
char *gstr = "hello";
int plain() { static int c; c = c + 1; return c; }
int withinit() { static int c = 5; c = c + 2; return c; }
int blocks(int k)
{
    int t;
    t = 0;
    { static int c = 10; c = c + k; t = t + c; }
    { static int c = 20; c = c - k; t = t * 100 + c; }
    if (k > 1) { static int c = 30; c++; t = t * 100 + c; }
    return t;
}
int rec(int n)
{
    static int d;
    int l = n;
    d++;
    if (n > 0) { static int e = 7; e = e + rec(n - 1); l = e; }
    return d * 1000 + l;
}
int loop(int n)
{
    int t = 0;
    int i;
    for (i = 0; i < n; i++) { static int s = 1; int u = 1; s = s + 1; u = u + 1; t = t + s * 10 + u; }
    return t;
}
int arr(int i, int v) { static int a[3]; a[i] = a[i] + v; return a[0] + a[1] * 10 + a[2] * 100; }
int *addr() { static int p = 3; p = p + 1; return &p; }
int late(int k) { if (k) { static int z = 40; z++; return z; } return z; }
int st(int k) { static struct pr s; s.a = s.a + k; s.b = s.b - k; return s.a * 10 + (int)s.b; }
int wrap() { static unsigned char c = 254; c++; return c; }
int nar() { static char n = 300; n++; return n; }
int str() { static char *s = "abcdefgh"; s++; return *s; }
int dbl() { static double d = 0.5; static float f; f = d; d = 2.5; return (int)(f) + 10; }
int two() { static int a = 1, b; b = a; a = 3; return a * 10 + b; }
static int hidden() { static int fs = 60; fs++; return fs; }
int setc(int v) { int o = c; c = v; z = z + 1; return o; }
int getc2() { return c + fs; }
int expr() { static int q = 2 * 3 + 1; static long w = sizeof(long); q = q + w; return q; }
int again(int k) { static int n = 50; int r = n; n = k; if (k) r = r + again(0); return r * 10 + n; }
struct nd { int v; struct nd *next; char w[3]; };
typedef struct nd node;
enum col { RED, GREEN = 4, BLUE };
struct nd *sref(int k) { static struct nd v; v.v = v.v + k; v.w[1] = k; return &v; }
int chain(int k) { static node a, b; static node *head = &a; if (!a.next) { a.next = &b; a.v = 1; b.v = 2; } head = head->next ? head->next : &a; head->v = head->v + k; return a.v * 100 + b.v; }
int sarr(int i) { static struct nd t[2]; t[i].v++; t[i].w[2] = t[i].w[2] + 2; return t[0].v * 1000 + t[0].w[2] * 100 + t[1].v * 10 + t[1].w[2]; }
char *text(int k) { static char buf[4]; buf[0] = 'a' + k; buf[1] = buf[1] ? buf[1] + 1 : 'm'; return buf; }
int tagged(int k) { static struct loc { int a; char c; } v; struct loc w; w.a = k; v.a = v.a + w.a; v.c = v.c + sizeof(struct loc); return v.a * 100 + v.c; }
int enumd(int k) { static enum { OFF, ON = 7 } st = ON; static enum col e = BLUE; int o = st * 10 + e; st = k ? ON : OFF; e = GREEN; return o; }
int un(int k) { static union { int i; char c[4]; } u; u.c[k] = u.c[k] + 1; return u.i; }
int sub(int k) { return k - 1; }
int fnp(int k) { static int (*f)(int) = 0; int r = f ? f(k) : -1; f = sub; return r; }
int ptrs(int k) { static int a = 1, *p = &a, **q = &p; static int b = 8; **q = **q + k; *q = &b; return a * 100 + b; }
int whil(int n) { int t = 0; while (n > 0) { static int s = 2; static struct pr v; s = s * 2; v.a = v.a + n; t = t + s + v.a; n--; } return t; }
int early(int k) { static int s = 3; s++; if (k) return s; { static int s = 90; s--; return s; } }
int deep(int n, int *up) { static int base = 5; int l = n; int *p = up ? up : &l; base++; *p = *p + base; if (n) deep(n - 1, p); return l; }
int names(int k) { { static int k = 1; k = k * 2; { static char k = 126; k++; } { static int k = 9; k++; } } return k; }
int same() { static int v; static int *first; if (!first) first = &v; return first == &v; }
int same2() { static struct pr v; static struct pr *first; if (!first) { first = &v; v.b = 5; } first->b = v.b + 1; return (first == &v) * 100 + (int)v.b; }
int big() { static long t[40]; int i; for (i = 0; i < 40; i++) t[i] = t[i] + i; return (int)t[39] + (int)t[1]; }
int burn() { int i, k = 1; for (i = 0; i < 60; i++) { struct pr x; x.a = i; k = (k * 3 + x.a) % 1009; } return k; }
int other() { static int n = 60; return n + plain(); }
'''


def model():
    return dict(c=100, z=0, fs=4, fl=-1, ga=[0, 0, 0], gs=[0, 0], gd=1.5, gp=0, S={})


OPS = []


def op(name, code, fn):
    def m(st, fn=fn):
        S = st['S']
        r = fn(st, S)
        return r
    OPS.append((name, code, m))


def call(text, fn, fmt='%d'):
    op(text, 'printf("%s ",%s);' % (fmt, text), lambda st, S: '%s ' % (fn(st, S),))


def sv(S, k, init):
    if k not in S:
        S[k] = init
    return S[k]


def plain(st, S):
    S['plain'] = sv(S, 'plain', 0) + 1
    return S['plain']


def withinit(st, S):
    S['wi'] = sv(S, 'wi', 5) + 2
    return S['wi']


def blocks(k):
    def f(st, S):
        S['b1'] = sv(S, 'b1', 10) + k
        S['b2'] = sv(S, 'b2', 20) - k
        t = S['b1'] * 100 + S['b2']
        if k > 1:
            S['b3'] = sv(S, 'b3', 30) + 1
            t = t * 100 + S['b3']
        return t
    return f


def rec(n):
    def f(st, S, n=n):
        S['d'] = sv(S, 'd', 0) + 1
        l = n
        if n > 0:
            sv(S, 'e', 7)
            r = f(st, S, n - 1)
            return_e = S['e'] = S['e'] + r
            l = return_e
        return S['d'] * 1000 + l
    return f


def rec_(n):
    # the order of `e + rec()` is unspecified, so only depths at which the
    # nested call doesn't change e are used
    return rec(n)


def loop(n):
    def f(st, S):
        t = 0
        for i in range(n):
            S['s'] = sv(S, 's', 1) + 1
            t += S['s'] * 10 + 2
        return t
    return f


def arr(i, v):
    def f(st, S):
        a = sv(S, 'a', [0, 0, 0])
        a[i] += v
        return a[0] + a[1] * 10 + a[2] * 100
    return f


def addr(st, S):
    S['p'] = sv(S, 'p', 3) + 1
    return S['p']


def late(k):
    def f(st, S):
        if k:
            S['late'] = sv(S, 'late', 40) + 1
            return S['late']
        return st['z']
    return f


def stf(k):
    def f(st, S):
        s = sv(S, 'st', [0, 0])
        s[0] += k
        s[1] -= k
        return s[0] * 10 + s[1]
    return f


def cnt(name, init, step, t):
    def f(st, S):
        S[name] = conv(t, sv(S, name, conv(t, init)) + step)
        return S[name]
    return f


def strf(st, S):
    S['str'] = sv(S, 'str', 0) + 1
    return ord('abcdefgh'[S['str']])


def dbl(st, S):
    f = sv(S, 'dd', 0.5)
    S['dd'] = 2.5
    return int(f) + 10


def two(st, S):
    a = sv(S, 'ta', 1)
    S['ta'] = 3
    return 30 + a


def setc(v):
    def f(st, S):
        o, st['c'] = st['c'], v
        st['z'] += 1
        return o
    return f


def again(k):
    def f(st, S, k=k):
        r = sv(S, 'n', 50)
        S['n'] = k
        if k:
            r += f(st, S, 0)
        return r * 10 + S['n']
    return f


call('plain()', plain)
call('withinit()', withinit)
call('blocks(1)', blocks(1))
call('blocks(2)', blocks(2))
call('rec(0)', rec(0))
call('rec(1)', rec(1))
call('loop(1)', loop(1))
call('loop(3)', loop(3))
call('arr(0,1)', arr(0, 1))
call('arr(2,3)', arr(2, 3))
op('pointer', '{ int *p; p = addr(); *p = *p + 10; printf("%d ",*p); }', lambda st, S: (S.__setitem__('p', addr(st, S) + 10), '%d ' % S['p'])[1])
call('late(0)', late(0))
call('late(1)', late(1))
call('st(2)', stf(2))
call('wrap()', cnt('wrap', 254, 1, 'unsigned char'))
call('nar()', cnt('nar', 300, 1, 'char'))
call('str()', strf)
call('dbl()', dbl)
call('two()', two)
call('hidden()', cnt('hidden', 60, 1, 'int'))
call('setc(7)', setc(7))
call('again(1)', again(1))
call('expr()', cnt('expr', 7, 8, 'int'))
call('other()', lambda st, S: 60 + plain(st, S))


def more(text, fn, fmt='%d'):
    call(text, fn, fmt)
    MORE.append(len(OPS) - 1)


MORE = []


def sref(k):
    def f(st, S):
        S['sref'] = sv(S, 'sref', 0) + k
        return '%d %d' % (S['sref'], k)
    return f


def chain(k):
    def f(st, S):
        c = sv(S, 'chain', [1, 2, 0])
        c[2] = 1 - c[2] if c[2] < 1 else 0
        c[c[2]] += k
        return c[0] * 100 + c[1]
    return f


def sarr(i):
    def f(st, S):
        t = sv(S, 'sarr', [0, 0])
        t[i] += 1
        return t[0] * 1200 + t[1] * 12
    return f


def text(k):
    def f(st, S):
        S['text'] = sv(S, 'text', ord('l')) + 1
        return chr(97 + k) + chr(S['text'])
    return f


def tagged(k):
    def f(st, S):
        t = sv(S, 'tagged', [0, 0])
        t[0] += k
        t[1] = conv('char', t[1] + 8)
        return t[0] * 100 + t[1]
    return f


def enumd(k):
    def f(st, S):
        o = sv(S, 'enumd', 75)
        S['enumd'] = 74 if k else 4
        return o
    return f


def un(k):
    def f(st, S):
        S['un'] = sv(S, 'un', 0) + (1 << (8 * k))
        return S['un']
    return f


def fnp(st, S):
    r = 4 if sv(S, 'fnp', 0) else -1
    S['fnp'] = 1
    return r


def ptrs(k):
    def f(st, S):
        t = sv(S, 'ptrs', [1, 8, 0])
        t[t[2]] += k
        t[2] = 1
        return t[0] * 100 + t[1]
    return f


def whil(n):
    def f(st, S):
        w = sv(S, 'whil', [2, 0])
        t = 0
        for i in range(n, 0, -1):
            w[0] = conv('int', w[0] * 2)
            w[1] += i
            t += w[0] + w[1]
        return t
    return f


def early(k):
    def f(st, S):
        e = sv(S, 'early', [3, 90])
        e[0] += 1
        if k:
            return e[0]
        e[1] -= 1
        return e[1]
    return f


def deep(n):
    def f(st, S):
        l = n
        for i in range(n + 1):
            S['deep'] = sv(S, 'deep', 5) + 1
            l += S['deep']
        return l
    return f


def same2(st, S):
    S['same2'] = sv(S, 'same2', 5) + 1
    return 100 + S['same2']


def big(st, S):
    S['big'] = sv(S, 'big', 0) + 40
    return S['big']


def burn(st, S):
    k = 1
    for i in range(60):
        k = (k * 3 + i) % 1009
    return k


op('sref(3)', '{ struct nd *p = sref(3); printf("%d %d ", p->v, p->w[1]); }', lambda st, S: sref(3)(st, S) + ' ')
MORE.append(len(OPS) - 1)
more('chain(1)', chain(1))
more('chain(5)', chain(5))
more('sarr(0)', sarr(0))
more('sarr(1)', sarr(1))
more('text(2)', text(2), '%s')
more('tagged(2)', tagged(2))
more('enumd(0)', enumd(0))
more('enumd(1)', enumd(1))
more('un(0)', un(0))
more('un(2)', un(2))
more('fnp(5)', fnp)
more('ptrs(2)', ptrs(2))
more('whil(2)', whil(2))
more('early(0)', early(0))
more('early(1)', early(1))
more('deep(2, 0)', deep(2))
more('names(4)', lambda st, S: 4)
more('same()', lambda st, S: 1)
more('same2()', same2)
more('big()', big)
more('burn()', burn)
op('file scope', 'c++; fs = fs + 2; ga[1] = ga[1] + c; gs.b = gs.b + 1; fl = fl * 2; gd = c; gp = &gs; gp->a = gs.a + 5; printf("! ");',
   lambda st, S: (st.update(c=st['c'] + 1, fs=st['fs'] + 2, fl=st['fl'] * 2, gd=float(st['c'] + 1), gp=1),
                  st['ga'].__setitem__(1, st['ga'][1] + st['c']), st['gs'].__setitem__(1, st['gs'][1] + 1),
                  st['gs'].__setitem__(0, st['gs'][0] + 5), '! ')[-1])


class C07(opseq.OpSeq):
    pid = 'C07'
    rule = 'a case is a sequence of calls; its prefixes are checked by the output after every call'
    space = ('all sequences of 3 (thorough 4) calls of 25, and of 22 others, of 2 of all 47, and of 5 (6) calls of 8; '
             'all sequences of 2 calls of the 22 with a collection at every allocation, and of the 47 at every 13th')
    OPS = OPS
    PRELUDE = PRELUDE
    SHOW = 'printf("%d %d %d %d %ld %d %d %d %ld %d %g %d %s;",c,z,getc2(),fs,fl,ga[0],ga[1],gs.a,gs.b,fc,gd,gp==0,gstr);'

    def initial(self):
        return model()

    def show(self, s):
        return '%d %d %d %d %d %d %d %d %d 0 %g %d hello;' % (
            s['c'], s['z'], s['c'] + s['fs'], s['fs'], s['fl'], s['ga'][0], s['ga'][1], s['gs'][0], s['gs'][1],
            s['gd'], not s['gp'])

    def alphabets(self):
        names = [o[0] for o in OPS]
        few = [names.index(x) for x in ('plain()', 'withinit()', 'blocks(2)', 'loop(3)', 'pointer', 'late(1)', 'again(1)', 'setc(7)')]
        old = [i for i in range(len(OPS)) if i not in MORE]
        return [('', old, 3), ('more', MORE, 3), ('all', list(range(len(OPS))), 2),
                ('collecting at every allocation', list(range(len(OPS))) if self.deep else MORE, 2), ('collecting at every 13th allocation', list(range(len(OPS))), 3 if self.deep else 2), ('long', few, 5 if not self.deep else 6)] + (
            [('deep', old, 4), ('deep, more', MORE, 4)] if self.deep else [])

    def request(self, cases):
        n = {'collecting at every allocation': 1, 'collecting at every 13th allocation': 13}.get(cases[0][0])
        return 'script', dict(text=self.text(cases[0]), **({'gc': (n, 0, ())} if n else {}))


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C07)))
