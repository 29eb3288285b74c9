"""C06: identifiers resolve lexically to the innermost declaration in scope.

B  every sequence of scope operations up to a length (declare, assign, use, open
   and close blocks of every kind, call functions that use the same names),
   executed by the model in lib/minic.py
T  the same for the tags of structures and unions
K  every pair of kinds of declaration of one name, outer and inner
L  every sequence of declarations of a function and an object with linkage
I  pairs of different names, of every length, as every kind of name; and all short
   names at once
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from minic import *


def V(n): return ('v', n)
def N(n): return ('n', n)
def B(op, a, b): return ('bin', op, a, b)
def A(n, e, op='='): return ('as', op, n, e)


OPEN = '{', 'F', 'I', 'W', 'E', 'G'
OPS = ['Dx', 'Dy', 'Ax', 'Ay', 'U', 'C', 'P', 'Sx', 'Q'] + list(OPEN)


def sequences(n, depth=3):
    """Token sequences of n operations with matched blocks; the last is a use."""
    def go(k, stack, seq, decl):
        # decl: names declared per open scope
        if k == 0:
            if seq and not stack:
                yield tuple(seq)
            return
        if len(stack) > k:
            return
        for op in OPS:
            if op[0] in 'DS':
                if op[1] in decl[-1]:
                    continue
                yield from go(k - 1, stack, seq + [op], decl[:-1] + [decl[-1] | {op[1]}])
            elif op in OPEN:
                if len(stack) < depth:
                    yield from go(k - 1, stack + [op], seq + [op], decl + [frozenset()])
            else:
                yield from go(k - 1, stack, seq + [op], decl)
        if stack and seq[-1] not in OPEN:
            yield from go(k - 1, stack[:-1], seq + ['}'], decl[:-1])
    yield from go(n, [], [], [frozenset()])


def interesting(seq):
    """Something is declared and something used after it."""
    d = [i for i, t in enumerate(seq) if t[0] in 'DSFG']
    if not d:
        return False
    return any(t in ('Ax', 'Ay', 'C', 'P', 'Q') or t == 'U' for t in seq[d[0]:])


def tree(seq):
    pos = [0]
    cnt = [0]

    def block():
        out = []
        while pos[0] < len(seq) and seq[pos[0]] != '}':
            t = seq[pos[0]]
            pos[0] += 1
            cnt[0] += 1
            k = cnt[0]
            if t[0] == 'D':
                out.append(('d', t[1], B('+', V('y' if t[1] == 'x' else 'x'), N(k))))
            elif t[0] == 'S':
                out.append(('ds', t[1], N(k)))
                out.append(('e', A(t[1], B('+', V(t[1]), N(2)))))
            elif t[0] == 'A':
                out.append(('e', A(t[1], B('+', B('-', V(t[1]), V('y' if t[1] == 'x' else 'x')), N(k)))))
            elif t == 'U':
                out.append(('o', 'u', [V('x'), V('y')]))
            elif t == 'C':      # uses file-scope names only
                out.append(('e', ('call', 'f', [])))
            elif t == 'P':      # a parameter called like a variable here
                out.append(('e', A('x', ('call', 'g', [V('y')]))))
            elif t == 'Q':      # passes x as y and y as x
                out.append(('e', A('y', ('call', 'q', [V('x'), V('y')]))))
            else:
                inner = block()
                pos[0] += 1
                b = ('b', inner)
                if t == '{':
                    out.append(b)
                elif t == 'F':
                    out.append(('f', ('d', 'x', N(0)), B('<', ('post', '++', 'i'), N(4)), ('post', '++', 'x'),
                                b if len(inner) != 1 or inner[0][0] in ('d', 'ds') else inner[0]))
                elif t == 'G':
                    out.append(('f', ('d', 'y', B('+', V('x'), N(1))), B('<', ('post', '++', 'i'), N(4)), ('post', '++', 'y'), b))
                elif t == 'I':
                    out.append(('if', N(1), b, ('e', A('x', N(99)))))
                elif t == 'E':
                    out.append(('if', N(0), ('b', [('d', 'x', N(98)), ('e', A('x', N(99)))]), b))
                elif t == 'W':
                    out.append(('w', B('<', ('post', '++', 'i'), N(4)), b))
        return out
    return block() + [('o', 'e', [V('x'), V('y')])]


FUNS = {
    'f': ('int', [], [('o', 'f', [V('x'), V('y')]), ('e', A('x', B('+', V('x'), N(1)))), ('r', N(0))]),
    'g': ('int', ['x'], [('e', A('x', B('+', V('x'), N(4)))), ('e', A('y', B('+', V('y'), N(1)))),
                         ('b', [('d', 'y', N(7)), ('o', 'g', [V('x'), V('y')])]), ('r', V('x'))]),
    'q': ('int', ['y', 'x'], [('o', 'q', [V('x'), V('y')]), ('e', ('call', 'f', [])), ('r', B('-', V('y'), V('x')))]),
}


def frender(name, ret, params, body):
    return '%s %s(%s)\n{\n%s}\n' % (ret, name, ', '.join('int ' + p for p in params), ''.join(stext(s) for s in body))


# --- tags
TOPS = ['s', 'u', 'r', 'v', '{', 'F']


def tseqs(n):
    def go(k, stack, seq, decl):
        if k == 0:
            if seq and not stack:
                yield tuple(seq)
            return
        if len(stack) > k:
            return
        for op in TOPS:
            if op in 'su':
                if decl[-1]:
                    continue
                yield from go(k - 1, stack, seq + [op], decl[:-1] + [True])
            elif op in '{F':
                if len(stack) < 2:
                    yield from go(k - 1, stack + [op], seq + [op], decl + [False])
            else:
                yield from go(k - 1, stack, seq + [op], decl)
        if stack and seq[-1] not in '{F':
            yield from go(k - 1, stack[:-1], seq + ['}'], decl[:-1])
    for s in go(n, [], [], [False]):
        if any(x in 'su' for x in s) and any(x in 'rv' for x in s):
            yield s


def tagprog(seq):
    """A structure T exists at file scope (3 bytes) as does an object T of 9."""
    out, want = '', []
    scopes = [('s', 3)]
    marks = []
    k = 3
    i = 0

    def emit(i, stack):
        nonlocal out, k
        while i < len(seq) and seq[i] != '}':
            t = seq[i]
            i += 1
            k += 1
            if t in 'su':
                # (k is its size)
                out += '%s T { char m[%d]; };\n' % ('struct' if t == 's' else 'union', k)
                stack = stack + [(t, k)]
            elif t == 'r':
                # structures and unions share their tags
                kind, sz = stack[-1]
                out += 'printf("%%d %%d ", (int)sizeof(%s T), (int)sizeof(T));\n' % ('struct' if kind == 's' else 'union')
                yield str(sz)
                yield '9'
            elif t == 'v':
                kind, sz = stack[-1]
                out += '{ %s T T; T.m[%d] = %d; printf("%%d %%d ", T.m[%d], (int)sizeof(T)); }\n' % (
                    'struct' if kind == 's' else 'union', sz - 1, k, sz - 1)
                yield str(k)
                yield str(sz)
            else:
                out += '{\n' if t == '{' else 'for (i = 0; i < 1; i++) {\n'
                i = yield from emit(i, list(stack))
                i += 1
                out += '}\n'
        return i
    want = list(emit(0, scopes))
    return out, ' '.join(want)


# --- kinds of declaration of the name n: text, how it's used, what that gives
OUTER = {
    'variable': ('int n;\nint setup() { n = 5; return 0; }\n', 'n', 5),
    'function': ('int n(int a) { return a + 6; }\nint setup() { return 0; }\n', 'n(1)', 7),
    'array': ('int n[3];\nint setup() { n[1] = 8; return 0; }\n', 'n[1]', 8),
    'constant': ('enum e { a, n = 9 };\nint setup() { return 0; }\n', 'n', 9),
    'tag': ('struct n { char c[11]; };\nint setup() { return 0; }\n', 'sizeof(struct n)', 11),
    'member': ('struct q { int p; int n; };\nstruct q o;\nint setup() { o.n = 12; return 0; }\n', 'o.n', 12),
    'pointer': ('int t;\nint *n;\nint setup() { n = &t; t = 13; return 0; }\n', '*n', 13),
    'union tag': ('union n { char c[14]; };\nint setup() { return 0; }\n', 'sizeof(union n)', 14),
    'object of tag': ('struct n { int n; };\nstruct n n;\nint setup() { n.n = 15; return 0; }\n', 'n.n', 15),
}
INNER = {
    'variable': ('int n = 21;', 'n', 21),
    'char': ('char n = 22;', 'n', 22),
    'array': ('char n[24]; n[2] = 23;', 'n[2] + sizeof(n)', 47),
    'pointer': ('int z = 25; int *n = &z;', '*n', 25),
    'static': ('static int n = 26;', 'n', 26),
    'structure': ('struct w { int n; }; struct w n; n.n = 27;', 'n.n', 27),
    'function pointer': ('int (*n)(int) = neg;', 'n(-28)', 28),
    'tag': ('struct n { char c[29]; };', 'sizeof(struct n)', 29),
    'union tag': ('union n { char c[30]; };', 'sizeof(union n)', 30),
    'member': ('struct v { int m; int n; }; struct v o; o.n = 31;', 'o.n', 31),
    'constant': ('enum { m, n = 32 };', 'n', 32),
    'enumeration': ('enum n { k1, k2 = 33 }; enum n o = k2;', 'o + sizeof(enum n)', 37),
    'tag of a member': ('struct w { struct n { char c[34]; } i; };', 'sizeof(struct n)', 34),
    'constant of a member': ('struct w { enum { m, n = 35 } i; };', 'n', 35),
    'object with a tag': ('struct n { int a; } n; n.a = 36;', 'n.a + sizeof(struct n)', 40),
    'static with a tag': ('static struct n { int a, b; } n; n.a = 37;', 'n.a + sizeof(struct n)', 45),
    'static constant': ('static enum { m, n = 38 } o = n;', 'n + o', 76),
    'forward tag': ('struct n; struct n *z; struct n { char c[39]; };', 'sizeof(struct n)', 39),
}
PLACES = {
    'block': 'int p() { int r; r = 0; { %(d)s r = %(u)s; } %(o)s return r; }\n',
    'body': 'int p() { int r; %(d)s r = %(u)s; return r; }\n',
    'for': 'int p() { int r; int k; for (k = 0; k < 2; k++) { %(d)s r = %(u)s; } %(o)s return r; }\n',
    'if': 'int p() { int r; if (1) { %(d)s r = %(u)s; } %(o)s return r; }\n',
    'nested': 'int p() { int r; { int n = 1; { %(d)s r = %(u)s; } r = r + n - 1; } %(o)s return r; }\n',
}


# --- linkage: declarations of one function and one object, at file scope and in the blocks of p
LFILE = {'p': 'int f(int a);', 'e': 'extern int f(int);', 's': 'static int f(int a);', 'd': 'int f(int a) { return a + 40; }', 'D': 'static int f(int a) { return a + 40; }',
         'v': 'int v = 50;', 'V': 'static int v = 50;', 'x': 'extern int v;', 'a': 'int w[2];', 'X': 'extern int w[];'}
LBLOCK = {'p': 'int f(int);', 'e': 'extern int f(int a);', 'x': 'extern int v;', 'X': 'extern int w[2];', 'l': 'int v = 60;', 'L': 'int f = 70;', 'S': 'static int v = 80;', '{': '{', '}': '}', 'u': None, 'U': None, '=': None}


def lfile():
    """Declarations of f and v at file scope, which p may stand anywhere between."""
    for n in range(1, 4):
        for s in itertools.product('pesdD', repeat=n):
            if sum(c in 'dD' for c in s) != 1:
                continue
            # what isn't static first mustn't be later
            if any(c in 'sD' for c in s) and s[0] not in 'sD':
                continue
            for at in range(n + 1):
                yield s[:at] + ('P',) + s[at:]


def lobj():
    for n in range(1, 4):
        for s in itertools.product('vVx', repeat=n):
            if s[0] in 'vV' and sum(c in 'vV' for c in s) == 1:
                yield s


def lblocks(n):
    """The declarations in p, each name once per block."""
    def go(k, stack, seq, locs):
        if k == 0:
            if not stack:
                yield tuple(seq)
            return
        if len(stack) > k:
            return
        for t in 'peLxlSX{=uU':
            if t in 'peLxlSX':
                name = {'p': 'f', 'e': 'f', 'L': 'f', 'X': 'w'}.get(t, 'v')
                # declarations with linkage may be repeated
                if name in locs[-1] and not (t in 'pexX' and locs[-1][name]):
                    continue
                yield from go(k - 1, stack, seq + [t], locs[:-1] + [{**locs[-1], name: t in 'pexX'}])
            elif t == '{':
                if len(stack) < 2:
                    yield from go(k - 1, stack + [t], seq + [t], locs + [{}])
            else:
                yield from go(k - 1, stack, seq + [t], locs)
        if stack and seq[-1] != '{':
            yield from go(k - 1, stack[:-1], seq + ['}'], locs[:-1])
    yield from go(n, [], [], [{}])


def lprog(fseq, oseq, bseq, known, statics):
    """None if it isn't defined what is declared, or (text of p, what its first call prints). v is the file's value before."""
    out = ''
    scopes = [{'f': 'fn', 'v': 'v'} if known else {'v': 'v'}]
    mem = statics
    cnt = [0]
    printed = []
    for i, t in enumerate(bseq):
        if t in '{}':
            out += t
            if t == '{':
                scopes.append({})
            else:
                scopes.pop()
            continue
        d = next((s['f'] for s in reversed(scopes) if 'f' in s), None), next(s['v'] for s in reversed(scopes) if 'v' in s)
        if t == 'u' or t == 'U':
            if t == 'u' and d[0] == 'fn':
                out += 'printf("%%d ", f(%d));' % i
                printed.append(i + 40)
            elif t == 'u' and d[0]:
                out += 'printf("%d ", f);'
                printed.append(mem[d[0]])
            out += 'printf("%d ", v);'
            printed.append(mem[d[1]])
        elif t == '=':
            out += 'v = v + %d;' % (i + 1)
            mem[d[1]] += i + 1
        else:
            out += LBLOCK[t]
            if t in 'pe' and (d[0] not in ('fn', None) or fseq[0] == 'P') and fseq[0 if fseq[0] != 'P' else 1] in 'sD' or t == 'x' and d[1] != 'v' and oseq[0] == 'V':
                return None
            if t in 'pe':
                scopes[-1]['f'] = 'fn'
            elif t == 'x':
                scopes[-1]['v'] = 'v'
            elif t in 'lSL':
                k = '%s%d' % (t, i)
                if t == 'l' or t == 'L' or k not in mem:
                    mem[k] = {'l': 60, 'S': 80, 'L': 70}[t]
                scopes[-1]['f' if t == 'L' else 'v'] = k
        out += ' '
    return out, printed


def lbuild(cases):
    _, f, o, _ = cases[0]
    known = 'P' in f and any(x in 'pesdD' for x in f[:f.index('P')])
    want, ps, main = [], '', ''
    for j, c in enumerate(cases):
        mem = {'v': 50}
        for _ in range(2):
            t, w = lprog(f, o, c[3], known, mem)
            want.append(' '.join(map(str, w + [mem['v']])))
        ps += 'int p%d(void) { %s return 0; }\n' % (j, t)
        main += 'v = 50;\n' + ('p%d(); printf("%%d\\n", v);\n' % j) * 2
    text = '\n'.join(LFILE[x] for x in ('a',) + o) + '\n' + '\n'.join(ps if x == 'P' else LFILE[x] for x in f) + '\n'
    return 'int printf(const char *f, ...);\n' + text + 'int main()\n{\n' + main + 'return 0;\n}\n', want


START = '_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
KEYWORDS = ['auto', 'break', 'case', 'char', 'const', 'continue', 'default', 'do', 'double', 'else', 'enum', 'extern', 'float', 'for', 'goto', 'if', 'int',
            'inline', 'long', 'register', 'return', 'short', 'signed', 'sizeof', 'static', 'struct', 'switch', 'typedef', 'union', 'unsigned', 'void', 'volatile', 'while',
            'main', 'REPL', 'include', 'define', 'printf', 'bool', 'argc', 'argv', 'asm', 'attribute', 'restrict']


def idpairs(deep):
    """Pairs of different names which have much in common."""
    for n in list(range(2, 81)) + [95, 96, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024] + ([2047, 4095, 4096, 8191, 8192] if deep else []):
        base = ''.join(START[(7 * i + n) % 53] for i in range(n))
        for at in sorted({0, 1, n // 2, n - 2, n - 1}) if not deep else range(min(n, 300)):
            for c in 'Zq_0' if at else 'Zq_':
                if base[at] != c:
                    yield base, base[:at] + c + base[at + 1:]
            if base[at] != '_':
                yield base, base[:at] + base[at].swapcase() + base[at + 1:]
        yield base, base + base[0]
        yield base, base + '_'
        yield base, '_' + base
        yield base, base[::-1]
    for k in KEYWORDS:
        yield k + '_', '_' + k
        yield k + '1', k + 's'
        yield k.upper(), k.capitalize()
        if len(k) > 2:
            yield k[:-1] + '_' + k[-1], k[0] + '_' + k[1:]


def idprog(a, b, j):
    """The names a and b as everything that can have a name."""
    z = dict(a=a, b=b, j=j)
    return '''
int q%(j)d(int %(a)s, int %(b)s) { %(a)s = %(a)s + 1; { int %(a)s = 5; static int %(b)s = 6; %(b)s++; %(a)s = %(a)s * 10 + %(b)s; printf("%%d %%d ", %(a)s, %(b)s); } printf("%%d %%d ", %(a)s, %(b)s); return 0; }
int r%(j)d() { struct %(a)s { char %(a)s; int %(b)s; }; struct %(b)s { long %(b)s; int %(a)s; char k; }; union u%(j)d { int %(a)s; char %(b)s[30]; }; enum { %(b)s = 3, %(a)s = 4 }; struct %(a)s v; struct %(b)s w; union u%(j)d u; v.%(a)s = 1; v.%(b)s = 2; w.%(b)s = 3; w.%(a)s = 4; u.%(a)s = 7; u.%(b)s[4] = 8;
printf("%%d %%d %%d %%d %%d %%d %%d ", v.%(a)s, v.%(b)s, (int)w.%(b)s, w.%(a)s, u.%(a)s, u.%(b)s[4], %(b)s * 10 + %(a)s);
printf("%%d %%d %%d ", (int)sizeof(struct %(a)s), (int)sizeof(struct %(b)s), (int)sizeof(u)); return 0; }
int s%(j)d() { int (*%(a)s)(void) = r%(j)d; int (*%(b)s)(int, int) = q%(j)d; %(b)s(1, 2); %(a)s(); return 0; }
''' % z, ('t%(j)d', '''int t%(j)d() { int %(a)s = 11; { int %(b)s = 12; %(a)s = %(a)s + %(b)s; } printf("%%d ", %(a)s); { int %(b)s = 13; int k = %(a)s + %(b)s; printf("%%d\\n", k); } return 0; }
''' % z)


class C06(engine.Check):
    pid = 'C06'
    rule = ('a case is a sequence of scope operations in a function that is called twice, or a pair of '
            'declarations of one name')
    space = ('B: all sequences of <= 5 (thorough 6) of 15 scope operations, and of 6 (7) of 12, nesting <= 3; T: all of <= 7 (8) '
             'tag operations, nesting <= 2; K: 9 outer x 18 inner kinds x 5 places; L: all sequences of <= 3 declarations of a function, and of an object, at file scope x <= 4 (5) declarations, blocks, assignments and uses in a function; I: pairs of names of 2..1024 characters '
             'that differ in one character, in case or in length, and of keywords with something added, as 9 kinds of names; all 3392 names of 1 and 2 characters')

    def groups(self):
        g = []
        for n in range(1, 8 if self.deep else 7):
            for s in sequences(n):
                if not interesting(s):
                    continue
                if n > (6 if self.deep else 5) and (s.count('U') > 1 or 'E' in s or 'I' in s or 'Ay' in s):
                    continue
                if n == 7 and sum(t in OPEN for t in s) > 2:
                    continue
                g.append(('B', s))
                if len(g) == 60:
                    yield g
                    g = []
        if g:
            yield g
        g = []
        for n in range(2, 9 if self.deep else 8):
            for s in tseqs(n):
                g.append(('T', s))
                if len(g) == 40:
                    yield g
                    g = []
        if g:
            yield g
        n = 4 if not self.deep else 5
        for f in lfile():
            for o in lobj():
                full = len(f) == 2 and len(o) == 1
                g = []
                for k in range(1, (n if full else 2) + 1):
                    for b in lblocks(k):
                        b = b + ('u',)
                        # a use of an implicitly declared function isn't enumerated
                        if full and k > 2 and (f[0] == 'e' or o == ('V',)) or k == n and not any(x in 'pexlSL' for x in b):
                            continue
                        if lprog(f, o, b, True, {'v': 0}):
                            g.append(('L', f, o, b))
                        if len(g) == 60:
                            yield g
                            g = []
                if g:
                    yield g
        g = []
        for p in idpairs(self.deep):
            g.append(('I',) + p)
            if len(g) == 12:
                yield g
                g = []
        yield g
        yield [('I', '', '')]
        for o in OUTER:
            for i in INNER:
                for p in PLACES:
                    if p == 'nested' and o == 'member' and i == 'member':
                        continue
                    yield [('K', o, i, p)]

    def key(self, c):
        if c[0] == 'L':
            return 'linkage: ' + ' '.join(LFILE[x] if x != 'P' else 'p()' for x in c[2] + c[1]) + ' with ' + ' '.join(LBLOCK[x] or x for x in c[3])
        if c[0] == 'I':
            return 'all short names' if not c[1] else 'names %s and %s' % c[1:] if len(c[1]) < 150 else 'names of %d and %d characters, %s' % (
                len(c[1]), len(c[2]), [i for i in range(min(map(len, c[1:]))) if c[1][i] != c[2][i]][:3])
        if c[0] == 'K':
            return 'file scope %s n, %s n in %s' % c[1:]
        return {'B': '', 'T': 'tags '}[c[0]] + ' '.join(c[1])

    def build(self, cases):
        k = cases[0][0]
        pre = 'int printf(const char *f, ...);\n'
        if k == 'B':
            t = pre + 'int x; int y;\n' + ''.join(frender(n, *f) for n, f in FUNS.items())
            m = ''
            want, states, steps = [], 0, 0
            for j, (_, s) in enumerate(cases):
                body = [('d', 'i', N(0))] + tree(s)
                t += frender('p%d' % j, 'int', [], body + [('r', N(0))])
                mc = Machine({n: (f[1], f[2]) for n, f in FUNS.items()}, limit=3000)
                mc.funcs['p'] = ([], body + [('r', N(0))])
                mc.globals.update(x=Cell(1), y=Cell(2))
                try:
                    mc.run('p')
                    mc.run('p')
                except (Undefined, StepLimit):
                    # (never in practice: all variables are initialised)
                    raise
                m += 'x=1; y=2; p%d(); p%d(); printf(" %%d %%d\\n",x,y);\n' % (j, j)
                want.append(''.join(mc.out) + ' %d %d' % (mc.globals['x'].v, mc.globals['y'].v))
                states += len(mc.states)
                steps += mc.steps
            return t + 'int main()\n{\n%sreturn 0;\n}\n' % m, want, states, steps
        if k == 'T':
            t = pre + 'int i;\nstruct T { char m[3]; };\nchar T[9];\n'
            m, want = '', []
            for j, (_, s) in enumerate(cases):
                body, w = tagprog(s)
                t += 'int p%d()\n{\n%sreturn 0;\n}\n' % (j, body)
                m += 'p%d(); printf("\\n"); p%d(); printf("\\n");\n' % (j, j)
                want += [w, w]
            t += 'int main()\n{\n%sreturn 0;\n}\n' % m
            # indentation is of no interest
            return t, want, len(want), sum(len(c[1]) for c in cases)
        if k == 'L':
            t, want = lbuild(cases)
            return t, want, sum(len(c[3]) + len(c[1]) for c in cases), 2 * sum(len(c[3]) for c in cases)
        if k == 'I' and not cases[0][1]:
            kw = {'if', 'do'}
            names = [x + y for x in START for y in [''] + list(START + '0123456789') if x + y not in kw]
            t = pre + ''.join('int %s = %d;\n' % (n, i) for i, n in enumerate(names))
            t += ''.join('printf("%%d\\n", %s);\n' % n for n in names)
            return t, [str(i) for i in range(len(names))], len(names), len(names)
        if k == 'I':
            t, m, want = pre, '', []
            for j, (_, a, b) in enumerate(cases):
                x, (f, y) = idprog(a, b, j)
                t += x + y
                m += 's%d(); t%d();\n' % (j, j)
                want.append('57 7 2 2 1 2 3 4 7 8 34 8 16 32 23 36')
            return t + 'int main()\n{\n%sreturn 0;\n}\n' % m, want, 9 * len(want), 9 * len(want)
        _, o, i, p = cases[0]
        O, I = OUTER[o], INNER[i]
        # tags and members do not hide ordinary names
        t = pre + 'int neg(int x) { return -x; }\n' + O[0]
        t += PLACES[p] % dict(d=I[0], u=I[1], o='if (%s != %d) r = -1;' % (O[1], O[2]))
        t += 'int main()\n{\nint r; setup(); r = p(); printf("%%d %%d\\n", r, (int)(%s)); r = p(); printf("%%d %%d\\n", r, (int)(%s)); return 0;\n}\n' % (O[1], O[1])
        return t, ['%d %d' % (I[2], O[2])] * 2, 4, 4

    _c = (None, None)

    def prog(self, cases):
        if self._c[0] is not cases:
            self._c = (cases, self.build(cases))
        return self._c[1]

    def stats(self, cases):
        return self.prog(cases)[2:]

    def request(self, cases):
        return 'script', dict(text=self.prog(cases)[0])

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want, got = self.prog(cases)[1], [x.rstrip() for x in res.out.split('\n')[:-1]]
        for i, (w, g) in enumerate(zip(want, got)):
            if w != g:
                return 'line %d: expected %r, got %r' % (i + 1, w, g)
        if len(want) != len(got):
            return 'expected %d lines, got %d' % (len(want), len(got))


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C06)))
