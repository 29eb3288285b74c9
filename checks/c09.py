"""C09: loads and stores touch exactly the object they designate.

M  every sequence of memory operations up to a depth over an int array, an int,
   two linked structures, pointers, a pointer to a pointer and a char pointer
   that aliases the others' bytes; the model is a byte-addressed memory. Objects
   are global, local or come from malloc.
P  every sequence of pointer operations over an array, for every element type
B  every store operation x boundary values x every type x every way to reach an
   object that has neighbours: all bytes around it, against the same program
   compiled by gcc
"""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine, opseq
import scale
import cint

# ---------------------------------------------------------------- family M
OBJECTS = 'int a[6]; int x; struct s s1; struct s s2; char ch[5]; int *p; int *q; int **pp; char *cp; struct s *sp; int *ap[3];\n'
STRUCT = 'struct s { char c; int v; int arr[2]; struct s *next; };\n'
RESET = ''.join('a[%d]=%d; ' % (i, 100 + i) for i in range(6)) + \
    'x=7; s1.c=1; s1.v=11; s1.arr[0]=12; s1.arr[1]=13; s1.next=&s2; s2.c=2; s2.v=21; s2.arr[0]=22; s2.arr[1]=23; s2.next=&s1;' + \
    ''.join('ch[%d]=%d; ' % (i, 60 + i) for i in range(5)) + \
    'p=&a[1]; q=&a[3]; pp=&p; cp=&ch[1]; sp=&s1; ap[0]=&x; ap[1]=&a[2]; ap[2]=&s1.v;\n'
IDX = '''int idx(int *r)
{
    long d;
    d = (long)r - (long)a;
    if (d >= 0 && d < 24) return d / 4;
    d = (long)r - (long)&s1;
    if (d >= 0 && d < 24) return 10 + d / 4;
    d = (long)r - (long)&s2;
    if (d >= 0 && d < 24) return 20 + d / 4;
    return r == &x ? 10 : 99;
}
'''
NUM = {('a', 4 * i): i for i in range(6)}
NUM.update({('x', 0): 10, ('s1', 4): 11, ('s1', 8): 12, ('s1', 12): 13, ('s2', 4): 21, ('s2', 8): 22, ('s2', 12): 23})
SIZES = {'a': 24, 'x': 4, 's1': 16, 's2': 16, 'ch': 5}


class Bad(Exception):
    pass


def i32(v):
    return (v + (1 << 31)) % (1 << 32) - (1 << 31)


class Mem:
    """State: bytes of the objects, values of the pointers."""

    def __init__(self):
        self.m = {k: bytearray(n) for k, n in SIZES.items()}
        for i in range(6):
            self.wi(('a', 4 * i), 100 + i)
        self.wi(('x', 0), 7)
        for n, o in ((1, 's1'), (2, 's2')):
            self.m[o][0] = n
            for j in range(3):
                self.wi((o, 4 + 4 * j), 10 * n + 1 + j)
        self.m['ch'][:] = bytes(range(60, 65))
        self.p = {'p': ('a', 4), 'q': ('a', 12), 'pp': 'p', 'cp': ('ch', 1), 'sp': 's1',
                  'n1': 's2', 'n2': 's1', 'ap': [('x', 0), ('a', 8), ('s1', 4)]}

    def __repr__(self):
        return repr(([bytes(b) for b in self.m.values()], list(self.p.values())))

    def at(self, ptr, n):
        o, off = ptr
        if not 0 <= off <= len(self.m[o]) - n:
            raise Bad
        return o, off

    def ri(self, ptr):
        o, off = self.at(ptr, 4)
        return int.from_bytes(self.m[o][off:off + 4], 'little', signed=True)

    def wi(self, ptr, v):
        o, off = self.at(ptr, 4)
        self.m[o][off:off + 4] = i32(v).to_bytes(4, 'little', signed=True)

    def rc(self, ptr):
        o, off = self.at(ptr, 1)
        v = self.m[o][off]
        return v - 256 if v > 127 else v

    def wc(self, ptr, v):
        o, off = self.at(ptr, 1)
        self.m[o][off] = v & 255

    def mv(self, name, ptr):
        """Set an int pointer; it has to designate an int object."""
        if ptr not in NUM:
            raise Bad
        self.p[name] = ptr

    def mvc(self, ptr):
        if not 0 <= ptr[1] < len(self.m[ptr[0]]):
            raise Bad
        self.p['cp'] = ptr

    def nxt(self, o):
        return self.p['n1' if o == 's1' else 'n2']


def same(x, y):
    if x[0] != y[0]:
        raise Bad


def off(ptr, n, sz=4):
    return (ptr[0], ptr[1] + n * sz)


MOPS = []


def mop(code, fn):
    def m(st, fn=fn):
        try:
            fn(st)
        except Bad:
            return None
        return ''
    MOPS.append((code.strip(), code if code.rstrip()[-1] in ';}' else code + ';', m))


mop('p = a', lambda s: s.mv('p', ('a', 0)))
mop('p = &a[4]', lambda s: s.mv('p', ('a', 16)))
mop('q = a + 2', lambda s: s.mv('q', ('a', 8)))
mop('p = &x', lambda s: s.mv('p', ('x', 0)))
mop('p++', lambda s: s.mv('p', off(s.p['p'], 1)))
mop('--q', lambda s: s.mv('q', off(s.p['q'], -1)))
mop('p += 2', lambda s: s.mv('p', off(s.p['p'], 2)))
mop('p = q - 1', lambda s: s.mv('p', off(s.p['q'], -1)))
mop('q = p', lambda s: s.mv('q', s.p['p']))
mop('*p = 31', lambda s: s.wi(s.p['p'], 31))
mop('*p++ = 32', lambda s: (s.wi(s.p['p'], 32), s.mv('p', off(s.p['p'], 1))))
mop('(*q)++', lambda s: s.wi(s.p['q'], s.ri(s.p['q']) + 1))
mop('*q += *p', lambda s: s.wi(s.p['q'], s.ri(s.p['q']) + s.ri(s.p['p'])))
mop('p[1] = 33', lambda s: s.wi(off(s.p['p'], 1), 33))
mop('*(q-1) = 34', lambda s: s.wi(off(s.p['q'], -1), 34))
mop('x = *p', lambda s: s.wi(('x', 0), s.ri(s.p['p'])))
mop('x = p[1] + *q', lambda s: s.wi(('x', 0), s.ri(off(s.p['p'], 1)) + s.ri(s.p['q'])))
mop('a[a[1] & 3] = 35', lambda s: s.wi(('a', 4 * (s.ri(('a', 4)) & 3)), 35))
mop('pp = &q', lambda s: s.p.__setitem__('pp', 'q'))
mop('*pp = &a[2]', lambda s: s.mv(s.p['pp'], ('a', 8)))
mop('**pp = 36', lambda s: s.wi(s.p[s.p['pp']], 36))
mop('(*pp)++', lambda s: s.mv(s.p['pp'], off(s.p[s.p['pp']], 1)))
mop('(*pp)[1] = 37', lambda s: s.wi(off(s.p[s.p['pp']], 1), 37))
mop('sp = sp->next', lambda s: s.p.__setitem__('sp', s.nxt(s.p['sp'])))
mop('sp->v = 38', lambda s: s.wi((s.p['sp'], 4), 38))
mop('sp->next->arr[1] = 39', lambda s: s.wi((s.nxt(s.p['sp']), 12), 39))
mop('sp->next = sp', lambda s: s.p.__setitem__('n1' if s.p['sp'] == 's1' else 'n2', s.p['sp']))
mop('sp->arr[x & 1]++', lambda s: s.wi((s.p['sp'], 8 + 4 * (s.ri(('x', 0)) & 1)), s.ri((s.p['sp'], 8 + 4 * (s.ri(('x', 0)) & 1))) + 1))
mop('p = &sp->v', lambda s: s.mv('p', (s.p['sp'], 4)))
mop('q = sp->arr', lambda s: s.mv('q', (s.p['sp'], 8)))
mop('s2.c = sp->c + 300', lambda s: s.wc(('s2', 0), s.rc((s.p['sp'], 0)) + 300))
mop('(*sp).arr[0] = s2.v', lambda s: s.wi((s.p['sp'], 8), s.ri(('s2', 4))))
mop('cp = (char *)p', lambda s: s.mvc(s.p['p']))
mop('cp = (char *)&sp->arr[1]', lambda s: s.mvc((s.p['sp'], 12)))
mop('cp = &ch[3]', lambda s: s.mvc(('ch', 3)))
mop('cp++', lambda s: s.mvc(off(s.p['cp'], 1, 1)))
mop('*cp = -2', lambda s: s.wc(s.p['cp'], -2))
mop('cp[1] = *cp', lambda s: s.wc(off(s.p['cp'], 1, 1), s.rc(s.p['cp'])))
mop('cp[-1]++', lambda s: s.wc(off(s.p['cp'], -1, 1), s.rc(off(s.p['cp'], -1, 1)) + 1))
mop('ap[1] = p', lambda s: s.p['ap'].__setitem__(1, s.p['p']))
mop('*ap[2] = 40', lambda s: s.wi(s.p['ap'][2], 40))
mop('p = ap[1]', lambda s: s.mv('p', s.p['ap'][1]))
mop('ap[1]++', lambda s: (_ for _ in ()).throw(Bad) if off(s.p['ap'][1], 1) not in NUM else s.p['ap'].__setitem__(1, off(s.p['ap'][1], 1)))
mop('ap[1][1] = ap[2][0]', lambda s: s.wi(off(s.p['ap'][1], 1), s.ri(s.p['ap'][2])))
mop('{ int *t; t = p; p = q; q = t; }', lambda s: s.p.update(p=s.p['q'], q=s.p['p']))
mop('x = set(p, 41)', lambda s: (lambda o: (s.wi(s.p['p'], 41), s.wi(('x', 0), o)))(s.ri(s.p['p'])))
mop('move(&p, q)', lambda s: s.mv('p', off(s.p['q'], 1)))
mop('fill(sp, a)', lambda s: (s.wi((s.p['sp'], 8), s.ri(('a', 0))), s.wi((s.p['sp'], 12), s.ri(('a', 4))), s.wi(('a', 4), 42)))
mop('p = at(a, 3)', lambda s: s.mv('p', ('a', 12)))
mop('*at(p, 1) = 43', lambda s: s.wi(off(s.p['p'], 1), 43))
HELP = '''int set(int *r, int v) { int o; o = *r; *r = v; return o; }
int move(int **r, int *v) { *r = v + 1; return 0; }
int fill(struct s *r, int b[6]) { r->arr[0] = b[0]; r->arr[1] = b[1]; b[1] = 42; return 0; }
int *at(int *b, int i) { return b + i; }
'''
SHOW = ('printf("%d %d %d %d %d %d,%d,%d %d %d %d %d,%d %d %d %d %d,%d %d %d %d %d,%d %d %d %d %d %d %d\\n",'
        'a[0],a[1],a[2],a[3],a[4],a[5],x,s1.c,s1.v,s1.arr[0],s1.arr[1],s1.next==&s1,s2.c,s2.v,s2.arr[0],s2.arr[1],s2.next==&s1,'
        'ch[0],ch[1],ch[2],ch[3],ch[4],idx(p),idx(q),pp==&q,*cp,idx(ap[0]),idx(ap[1]),idx(ap[2]));')

# ---------------------------------------------------------------- family P
ELEMS = {   # element type: (values a..f as text, format or None, extra declarations)
    'char': '%d', 'unsigned char': '%d', 'short': '%d', 'unsigned short': '%d', 'int': '%d', 'unsigned int': '%u',
    'long': '%ld', 'unsigned long': '%lu', 'long long': '%lld', 'float': '%g', 'double': '%g',
    'int *': None, 'char *': None, 'struct e': None, 'struct f': None, 'union g': None, 'tl': '%ld',
}
NEL = 6


class Arr:
    def __init__(self):
        self.v = [3 + i for i in range(NEL)]
        self.p, self.q, self.r = 1, 4, 0

    def __repr__(self):
        return repr((self.v, self.p, self.q, self.r))

    def ok(self, i):
        if not 0 <= i < NEL:
            raise Bad
        return i


POPS = []


def pop(name, fn):
    def m(st, fn=fn):
        try:
            fn(st)
            st.ok(st.p)
            st.ok(st.q)
        except Bad:
            return None
        return ''
    POPS.append((name, fn, m))


def setp(s, n):
    s.p = n


def setq(s, n):
    s.q = n


def wr(s, i, v):
    s.v[s.ok(i)] = v


pop('p++;', lambda s: setp(s, s.p + 1))
pop('--p;', lambda s: setp(s, s.p - 1))
pop('p = p + 2;', lambda s: setp(s, s.p + 2))
pop('p = 1 + q;', lambda s: setp(s, s.q + 1))
pop('p -= 1;', lambda s: setp(s, s.p - 1))
pop('q += two;', lambda s: setq(s, s.q + 2))
pop('q = p - one;', lambda s: setq(s, s.p - 1))
pop('q = &p[1];', lambda s: setq(s, s.p + 1))
pop('q = b;', lambda s: setq(s, 0))
pop('r = q - p;', lambda s: setattr(s, 'r', s.q - s.p))
pop('r = &b[5] - q;', lambda s: setattr(s, 'r', 5 - s.q))
pop('r = (p < q) + 2 * (p == q) + 4 * (p >= q);', lambda s: setattr(s, 'r', (s.p < s.q) + 2 * (s.p == s.q) + 4 * (s.p >= s.q)))
pop('SET(*p, 21)', lambda s: wr(s, s.p, 21))
pop('SET(*p++, 22)', lambda s: (wr(s, s.p, 22), setp(s, s.p + 1)))
pop('SET(*++q, 23)', lambda s: (wr(s, s.q + 1, 23), setq(s, s.q + 1)))
pop('SET(p[1], 24)', lambda s: wr(s, s.p + 1, 24))
pop('SET(q[-1], 25)', lambda s: wr(s, s.q - 1, 25))
pop('SET(*(b + 2), 26)', lambda s: wr(s, 2, 26))
pop('SET(*(q - two), 27)', lambda s: wr(s, s.q - 2, 27))
pop('CPY(*p, *q)', lambda s: wr(s, s.p, s.v[s.q]))
pop('CPY(b[0], p[one])', lambda s: wr(s, 0, s.v[s.ok(s.p + 1)]))


def pcode(t, code):
    """The operation for elements of type t. Elements that aren't numbers hold
    a number in a way of their own."""
    import re
    m = re.match(r'(SET|CPY)\((.*), (.*)\)$', code)
    if not m:
        return code
    k, l, r = m.groups()
    if t in ('int *', 'char *'):
        return '%s = %s;' % (l, r if k == 'CPY' else 'base + ' + r)
    if t in ('struct e', 'struct f', 'union g'):
        mem = {'struct e': 'v', 'struct f': 'a[2]', 'union g': 'c'}[t]
        if l[0] == '*':
            l = '(%s)' % l
        if r[0] == '*':
            r = '(%s)' % r
        return '%s.%s = %s;' % (l, mem, r if k == 'SET' else r + '.' + mem)
    return '%s = %s;' % (l, r)


# ---------------------------------------------------------------- family B
BTYPES = list(cint.TYPES) + ['float', 'double', 'long double', 'char *', 'short *', 'struct z *', 'enum en']
# how the object is reached, the declarations, where the bytes around it begin
BPATHS = {
    'member of a global': ('', 'x.b', '&x', 'struct t x;\n', ''),
    'member through a pointer': ('', 'sp->b', 'sp', 'struct t *sp;\n', 'sp = malloc(96);'),
    'element of a local': ('T w[3];', 'w[1]', 'w', '', ''),
    'element of a global, index': ('int i; i = 1;', 'w[i]', 'w', 'T w[3];\n', ''),
    'through a pointer': ('', '*p', 'w', 'T w[3]; T *p;\n', 'p = &w[1];'),
    'through a pointer to a pointer': ('T **pp; pp = &p;', '**pp', 'w', 'T w[3]; T *p;\n', 'p = w + 1;'),
    'member of a nested union': ('struct v y[2];', 'y[1].u.x.b', '&y[1].u', '', ''),
    'member of an element': ('struct t *q; q = &z[1];', 'q[-1].b', 'z', 'struct t z[2];\n', ''),
    'through a parameter': ('', '*par', 'w', 'T w[3];\n', ''),
    'array member': ('', 'aw.m[1]', '&aw', 'struct aw { T m[3]; } aw;\n', ''),
    'static': ('static T w[3];', 'w[1]', 'w', '', ''),
}


def bops(t):
    """(statement on X, whether it is defined for the values)."""
    if t.endswith('*'):
        return [(i, o) for i in ('0', 'at + 3', 'at + 37', '(T)(long)-1') for o in ('X = at + 1', 'X++', '++X', 'X--', '--X', 'X += 3', 'X -= 2', 'X = X + 5', 'X = 0') if i[0] == 'a' or o in ('X = at + 1', 'X = 0')]
    if t in ('float', 'double', LD):
        return [(i, o) for i in ('0.0', '1.5', '-2.25', '255.0', '65535.0', '1000000.0') for o in ('X = 1', 'X = 2.5', 'X = -0.125', 'X++', '++X', 'X--', '--X', 'X = 4294967297', 'X = k')]
    if t.startswith('enum'):
        return [(i, o) for i in ('EA', 'EZ', 'EB') for o in ('X = EA', 'X = EZ', 'X = 1', 'X = k')]
    r = []
    b = cint.bits(t)
    l, h = cint.lo(t), cint.hi(t)
    ini = sorted({l, l + 1, h, h - 1, 0, 1, 127, 128, 255, 256} | ({-1, -128, -256} if l else set()) | {(1 << k) + d for k in (7, 8, 15, 16, 31, 32, 63) if k < b for d in (-1, 0)})
    p = cint.promote(t)
    for i in ini:
        if not cint.fits(t, i):
            continue
        for o in ('X++', '++X', 'X--', '--X'):
            if not cint.signed(p) or cint.fits(p, i + (1 if '+' in o else -1)):
                r.append((i, o))
        for k in (1, 2, 127, 255, 65535):
            for o in '+-':
                if not cint.signed(p) or cint.fits(p, i + k if o == '+' else i - k):
                    r.append((i, 'X %s= %d' % (o, k)))
        for k in (0, -1, l, h, 100, 511, 65537, 4294967297):
            r.append((i, 'X = %s' % cint.lit(k)))
        if i > 0:
            r += [(i, 'X >>= 3'), (i, 'X /= 7')]
        if 0 <= i <= 127:
            r.append((i, 'X <<= 1'))
    return [(cint.lit(i), o) for i, o in r]


LD = 'long double'


def btext(t, path, ops):
    loc, lv, base, glob, init = BPATHS[path]
    words = 7 if t == LD else 6
    head = ('int printf(const char *f, ...);\nvoid *malloc(unsigned long n);\nvoid *memset(void *p, int c, unsigned long n);\nenum en { EA, EB = 77, EZ = -3 };\n'
            'struct z { short a[3]; };\nlong at_;\nT at;\n' + 'struct t { T a; T b; T c; };\nunion u { struct t x; char fill[48]; };\nstruct v { T n; union u u; };\n')
    par = path == 'through a parameter'
    pre = '%sint f(T%s k)\n{\n%s\nunsigned char *bp; T r; int n; %s\nbp = (unsigned char *)%s; n = 3 * (int)sizeof(T);\n' % (glob, ' *par, T' if par else '', loc, init, base)
    if not t.endswith('*'):
        head = head.replace('T at;\n', '')
    else:
        pre += 'at = 0; at = at + 1000;\n'
    head, pre = head.replace('T ', t + ' ').replace('T;', t + ';'), pre.replace('T ', t + ' ').replace('T)', t + ')')
    body = ''
    fm = {'float': '%g', 'double': '%g', LD: '%Lg'}.get(t) or ('%ld' if t.endswith('*') else cint.fmt(t) if t in cint.TYPES else '%d')
    show = 'for (int j = 0; j < n; j++)%s printf("%%x ", bp[j]);\n' % (' if (j < 26 || j >= 32)' if t == LD else '')
    for c, (i, o) in enumerate(ops):
        x = '(%s)' % lv if lv[0] == '*' else lv
        body += 'memset(bp, %d, n); %s = %s;\n' % ((165, 90)[c % 2], lv, i.replace('T', t))
        body += 'r = (%s); printf("%s %s ", %s, %s);\n' % (o.replace('X', x if '+' in o[:2] or '+' in o[1:3] or '-' in o[1:3] else x), fm, fm, *(('(long)r', '(long)%s' % x) if t.endswith('*') else ('r', x)))
        body += show + 'printf("\\n");\n'
    return head + pre + body + 'return 0;\n}\nint main()\n{\nf(%s85);\nreturn 0;\n}\n'.replace('%s', '&w[1], ' if par else '') if not t.endswith('*') else \
        head + pre + body + 'return 0;\n}\nint main()\n{\nf(%s0);\nreturn 0;\n}\n'.replace('%s', '&w[1], ' if par else '')


class C09(opseq.OpSeq):
    pid = 'C09'
    OPS = MOPS + POPS
    rule = 'a case is a sequence of operations; all objects and the targets of all pointers are compared after each'
    space = ('M: all defined sequences of 2 (thorough: 3) of %d operations for objects that are global, local and from malloc, of 3 of each '
             'half of them, and of 4 (5) of 13; '
             'P: all defined sequences of 3 of %d operations for each of 17 element types; B: %d types x %d paths x every store operation (plain, increment, decrement, compound) x initial values at every byte boundary' % (len(MOPS), len(POPS), len(BTYPES), len(BPATHS)))
    batch = 24

    def initial(self):
        return Mem()

    def alphabets(self):
        m = list(range(len(MOPS)))
        names = [o[0] for o in MOPS]
        few = [names.index(x) for x in ('p = a', 'p++', 'q = p', '*p++ = 32', '(*q)++', '*(q-1) = 34', 'pp = &q', '(*pp)++',
                                        '**pp = 36', 'p = &sp->v', 'sp = sp->next', 'cp = (char *)p', '*cp = -2')]
        if self.deep:
            return [('globals', m, 3), ('locals', m, 3), ('malloc', m, 3), ('globals', few, 5), ('locals', few, 4)]
        return [('globals', m, 2), ('locals', m, 2), ('malloc', m, 2), ('globals', few, 4), ('globals', m[::2], 3), ('malloc', m[1::2], 3)]

    def groups(self):
        for t in BTYPES:
            for p in BPATHS:
                ops = bops(t)
                for i in range(0, len(ops), 40):
                    yield [('bytes', t, p, o) for o in ops[i:i + 40]]
        yield from super().groups()
        import copy
        # all element types at once: one program per sequence
        g = []
        stack = [((), Arr())]
        depth = 4 if self.deep else 3
        base = len(MOPS)
        while stack:
            seq, st = stack.pop()
            last = True
            if len(seq) < depth:
                for i in range(len(POPS)):
                    s2 = copy.deepcopy(st)
                    if POPS[i][2](s2) is None:
                        continue
                    last = False
                    stack.append((seq + (base + i,), s2))
            if last:
                g.append(('elements', seq))
                if len(g) == 2:
                    yield g
                    g = []
        if g:
            yield g

    def key(self, c):
        if c[0] == 'bytes':
            return 'bytes: %s, %s, X = %s; %s' % (c[1:3] + c[3])
        return c[0] + ': ' + '; '.join(self.OPS[i][0] for i in c[1])

    # -- family M
    def text(self, c):
        body = ''.join(MOPS[i][1] + '\n' + SHOW + '\n' for i in c[1])
        pre = 'int printf(const char *f, ...);\n' + STRUCT
        obj = OBJECTS
        if c[0] == 'globals':
            return pre + obj + HELP + IDX + 'int main()\n{\n' + RESET + body + 'return 0;\n}\n'
        if c[0] == 'malloc':
            pre += 'void *malloc(unsigned long n);\n'
            obj = obj.replace('int a[6];', 'int *a;').replace('char ch[5];', 'char *ch;')
            alloc = 'a = malloc(24); ch = malloc(5);\n'
            return pre + obj + HELP + IDX + 'int main()\n{\n' + alloc + RESET + body + 'return 0;\n}\n'
        # locals of a function that is called from a loop
        idx = IDX.replace('int *r)', 'int *r, int *a, int *xp, struct s *t1, struct s *t2)').replace('&x', 'xp')
        idx = idx.replace('&s1', 't1').replace('&s2', 't2')
        import re
        body = re.sub(r'idx\((ap\[\d\]|\w+)\)', r'idx(\1,a,&x,&s1,&s2)', body)
        return (pre + HELP + idx + 'int run(int k)\n{\n' + OBJECTS + RESET + 'if (k > 0) return run(k - 1);\n' + body +
                'return 0;\n}\nint main()\n{\nrun(1);\nreturn 0;\n}\n')

    def show(self, s):
        a = [s.ri(('a', 4 * i)) for i in range(6)]
        t = []
        for o, n in (('s1', 'n1'), ('s2', 'n2')):
            t.append('%d %d %d %d %d' % (s.rc((o, 0)), s.ri((o, 4)), s.ri((o, 8)), s.ri((o, 12)), s.p[n] == 's1'))
        return '%s,%d,%s,%s,%s,%d %d %d %d %d %d %d\n' % (
            ' '.join(map(str, a)), s.ri(('x', 0)), t[0], t[1], ' '.join(str(s.rc(('ch', i))) for i in range(5)),
            NUM[s.p['p']], NUM[s.p['q']], s.p['pp'] == 'q', s.rc(s.p['cp']), *[NUM[x] for x in s.p['ap']])

    # -- family P
    def elements(self, cases):
        if getattr(self, '_ec', (None,))[0] is not cases:
            self._ec = (cases, self.elements_(cases))
        return self._ec[1]

    def elements_(self, cases):
        text = ('int printf(const char *f, ...);\ntypedef long tl;\nstruct e { char c; int v; };\n'
                'struct f { short a[3]; };\nunion g { char c; long l[2]; };\n')
        want, calls = [], ''
        states, steps = set(), 0
        for ti, (t, f) in enumerate(ELEMS.items()):
            rd = 'b[%d]'
            fm = f
            pt = t + ' *' if t[-1] != '*' else t + '*'
            head = '%s b[%d]; %s p; %s q; long r; int one; int two; %s\n' % (
                t, NEL, pt, pt, {'int *': 'int store[40]; int *base;', 'char *': 'char store[40]; char *base;'}.get(t, ''))
            if t in ('int *', 'char *'):
                rd, fm = '(long)(b[%d] - base)', '%ld'
                head += 'base = store;\n'
            elif f is None:
                mem = {'struct e': 'v', 'struct f': 'a[2]', 'union g': 'c'}[t]
                rd, fm = 'b[%d].' + mem, '%d'
            show = 'printf("%s %%ld %%ld %%ld\\n", %s, (long)(p - b), (long)(q - b), r);\n' % (
                ' '.join([fm] * NEL), ', '.join(rd % i for i in range(NEL)))
            text += 'int t%d()\n{\n' % ti
            calls += 't%d();\n' % ti
            for j, c in enumerate(cases):
                body = head + 'one=1; two=2; r=0; p=&b[1]; q=b+4;\n'
                body += ''.join(pcode(t, 'SET(b[%d], %d)' % (i, 3 + i)) for i in range(NEL)) + '\n'
                st = Arr()
                for i in c[1]:
                    body += pcode(t, self.OPS[i][0]) + '\n' + show
                    self.OPS[i][2](st)
                    states.add(repr(st))
                    steps += 1
                    want.append('%s %d %d %d' % (' '.join(map(str, st.v)), st.p, st.q, st.r))
                text += '{\n%s}\n' % body
            text += 'return 0;\n}\n'
        return text + 'int main()\n{\n%sreturn 0;\n}\n' % calls, want, len(states), steps

    def stats(self, cases):
        if cases[0][0] == 'bytes':
            return 3 * len(cases), 2 * len(cases)
        if cases[0][0] == 'elements':
            return self.elements(cases)[2:]
        return super().stats(cases)

    def btext(self, cases):
        return btext(cases[0][1], cases[0][2], [c[3] for c in cases])

    def want(self, h, cases):
        d = os.path.join(h.scratch, 'o')
        with open(d + '.c', 'w') as f:
            f.write(self.btext(cases))
        subprocess.run(['gcc', '-w', '-O0', '-fno-strict-aliasing', '-fwrapv', '-o', d, d + '.c'], check=True)
        return subprocess.run([d], stdout=subprocess.PIPE, check=True).stdout.decode()

    def request(self, cases):
        if cases[0][0] == 'bytes':
            return 'script', dict(text=self.btext(cases))
        if cases[0][0] == 'elements':
            return 'script', dict(text=self.elements(cases)[0], timeout=60000)
        return super().request(cases)

    def execute(self, h, cases):
        if cases[0][0] == 'bytes':
            r = engine.Check.execute(self, h, cases)
            r.want = self.want(h, cases)
            return r
        if cases[0][0] == 'elements':
            return engine.Check.execute(self, h, cases)
        return super().execute(h, cases)

    def execute_real(self, h, cases):
        if cases[0][0] == 'bytes':
            r = engine.Check.execute_real(self, h, cases)
            r.want = self.want(h, cases)
            return r
        if cases[0][0] == 'elements':
            return engine.Check.execute_real(self, h, cases)
        return super().execute_real(h, cases)

    def judge(self, cases, res):
        if cases[0][0] == 'bytes':
            if res.rc != 0:
                return 'ended with %s, %s' % (res.ended, res.err[:200])
            for c, w, g in zip(cases, res.want.split('\n'), res.out.split('\n')):
                if w != g:
                    return '%s: gcc gives %r, bic gives %r' % (self.key(c), w, g)
            return None if res.want == res.out else 'different number of lines'
        if cases[0][0] != 'elements':
            return super().judge(cases, res)
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want, got = self.elements(cases)[1], res.out.split('\n')[:-1]
        n = sum(len(c[1]) for c in cases)
        for i, (w, g) in enumerate(zip(want, got)):
            if w != g:
                return 'elements of type %s, operation %d: expected %r, got %r' % (list(ELEMS)[i // n], i % n + 1, w, g)
        if len(want) != len(got):
            return 'expected %d lines, got %d' % (len(want), len(got))


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C09)))
