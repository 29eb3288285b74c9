"""C02: grouping, sequencing and exactly-once evaluation of expressions."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import effects
import engine
import scale
from minic import *

BIN = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
LEVELS = ['*', '%', '-', '+', '<<', '<', '>=', '==', '&', '^', '|', '&&', '||']
VALS = [(5, 3, 2, 1), (0, 1, 2, 3), (-4, 7, 1, 0), (1, 0, 0, 6)]
LEAF = 'abcd'


def trees(n, ops):
    """All trees with n operators of `ops` (name -> arity), leaves unnamed."""
    if n == 0:
        yield None
        return
    for op in ops:
        ar = 1 if op.startswith('u') else 3 if op == '?' else 1 if op in ('=', '+=', '-=', '^=') else 2
        for split in splits(n - 1, ar):
            for kids in itertools.product(*[list(trees(k, ops)) for k in split]):
                yield (op,) + kids


def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in splits(n - i, k - 1):
            yield (i,) + r


def build(t, leaf, assigned):
    """A tree of `trees` as an expression of the model."""
    if t is None:
        return leaf()
    op = t[0]
    if op in ('=', '+=', '-=', '^='):
        n = 'pq'[len(assigned)]
        assigned.append(n)
        return ('as', op, n, build(t[1], leaf, assigned))
    kids = [build(k, leaf, assigned) for k in t[1:]]
    if op.startswith('u'):
        return ('un', op[1:], kids[0])
    if op == '?':
        return ('?',) + tuple(kids)
    if op == ',':
        return (',',) + tuple(kids)
    return ('bin', op) + tuple(kids)


def nleaves(t):
    return 1 if t is None else sum(map(nleaves, t[1:]))


def nassign(t):
    return 0 if t is None else (t[0] in ('=', '+=', '-=', '^=')) + sum(map(nassign, t[1:]))


# -- maximal munch and a parser of C's expression grammar, for token adjacency
TOK = ['<<=', '>>=', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=',
       '/=', '%=', '&=', '|=', '^=', '->']


def tokens(s):
    r, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s[i].isalnum():
            j = i
            while j < len(s) and s[j].isalnum():
                j += 1
            r.append(s[i:j])
            i = j
            continue
        for t in TOK:
            if s.startswith(t, i):
                r.append(t)
                i += len(t)
                break
        else:
            r.append(s[i])
            i += 1
    return r


class NoParse(Exception):
    pass


def parse(toks):
    toks = toks + ['$']
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def unary():
        t = peek()
        if t in ('-', '!', '~'):
            take()
            return ('un', t, unary())
        if t in ('++', '--'):
            take()
            x = unary()
            if x[0] != 'v':
                raise NoParse
            return ('pre', t, x[1])
        return postfix()

    def postfix():
        t = take()
        if t == '(':
            x = expr()
            if take() != ')':
                raise NoParse
            x = ('par', x)
        elif t.isalpha():
            x = ('v', t)
        elif t.isdigit():
            x = ('n', int(t))
        else:
            raise NoParse
        while peek() in ('++', '--'):
            if x[0] != 'v':
                raise NoParse
            x = ('post', take(), x[1])
        return x

    def binary(p):
        x = unary()
        while PREC.get(peek(), 0) >= max(p, 4):
            op = take()
            x = ('bin', op, x, binary(PREC[op] + 1))
        return x

    def assign():
        c = binary(4)
        if peek() == '?':
            take()
            a = expr()
            if take() != ':':
                raise NoParse
            return ('?', c, a, cond())
        if peek() in ('=', '+=', '-=', '/=', '^=', '<<=', '>>='):
            if c[0] != 'v':
                raise NoParse
            op = take()
            return ('as', op, c[1], assign())
        return c

    def cond():
        c = binary(4)
        if peek() == '?':
            take()
            a = expr()
            if take() != ':':
                raise NoParse
            return ('?', c, a, cond())
        return c

    def expr():
        x = assign()
        while peek() == ',':
            take()
            x = (',', x, assign())
        return x
    e = expr()
    if peek() != '$':
        raise NoParse
    return e


def variables(e, wr, rd):
    """Variables modified and read; used to leave out unsequenced conflicts."""
    k = e[0]
    if k == 'v':
        rd.append(e[1])
    elif k in ('pre', 'post'):
        wr.append(e[2])
    elif k == 'as':
        wr.append(e[2])
        variables(e[3], wr, rd)
    else:
        for x in e[1:]:
            if isinstance(x, tuple):
                variables(x, wr, rd)


# -- templates for exactly-once evaluation
class Gen:
    def __init__(self):
        self.n = 0

    def id(self):
        self.n += 1
        return self.n


def T(g):
    k = g.id()
    return 't(%d,%%s)' % k


TEMPLATES = {
    # name: (holes, text with {i} = instance number, model)
    'add': (2, '(%s+%s)', lambda st, i, a, b: a + b),
    'sub3': (3, '(%s-%s-%s)', lambda st, i, a, b, c: a - b - c),
    'mul': (2, '((%s)*(%s))', lambda st, i, a, b: a * b),
    'lt': (2, '((%s)<(%s))', lambda st, i, a, b: int(a < b)),
    'neg': (1, '-(%s)', lambda st, i, a: -a),
    'call': (1, 'id(%s)', lambda st, i, a: a),
    'call2': (2, 'sub(%s,%s)', lambda st, i, a, b: a - b),
    'rd': (1, 'ar{i}[(%s)&3]', lambda st, i, a: st[i][a & 3]),
    'wr': (2, '(ar{i}[(%s)&3]=%s)', lambda st, i, a, b: st[i].__setitem__(a & 3, b) or b),
    'wrop': (2, '(ar{i}[(%s)&3]+=%s)', lambda st, i, a, b: st[i].__setitem__(a & 3, st[i][a & 3] + b) or st[i][a & 3]),
    'wrxor': (2, '(ar{i}[(%s)&3]^=%s)', lambda st, i, a, b: st[i].__setitem__(a & 3, st[i][a & 3] ^ b) or st[i][a & 3]),
    'postinc': (1, 'ar{i}[(%s)&3]++', lambda st, i, a: (st[i][a & 3], st[i].__setitem__(a & 3, st[i][a & 3] + 1))[0]),
    'predec': (1, '--ar{i}[(%s)&3]', lambda st, i, a: st[i].__setitem__(a & 3, st[i][a & 3] - 1) or st[i][a & 3]),
    'deref': (1, '*(ar{i}+((%s)&3))', lambda st, i, a: st[i][a & 3]),
    'derefwr': (2, '(*(ar{i}+((%s)&3))=%s)', lambda st, i, a, b: st[i].__setitem__(a & 3, b) or b),
    'cast': (1, '(char)(%s)', lambda st, i, a: ((a + 128) & 255) - 128),
    'comma': (2, '(%s,%s)', lambda st, i, a, b: b),
    'tern': (2, '(((%s)&1?1:2)+(%s))', lambda st, i, a, b: (1 if a & 1 else 2) + b),
    'chain': (1, '(v{i}=w{i}=%s)', lambda st, i, a: a),
    'eq': (2, '((%s)==(%s))', lambda st, i, a, b: int(a == b)),
}


def inst(spec, g, st, log):
    """spec: 't' or (name, [specs]). Returns (text, thunk)."""
    if spec == 't':
        k = g.id()
        return 't(%d)' % k, lambda: log.append(k) or k
    name, kids = spec
    i = g.id()
    sub = [inst(s, g, st, log) for s in kids]
    holes, text, model = TEMPLATES[name]
    st[i] = [10 + i, 20 + i, 30 + i, 40 + i]
    return (text.replace('{i}', str(i)) % tuple(x for x, _ in sub),
            lambda: model(st, i, *[f() for _, f in sub]))


def specs(depth):
    yield 't'
    if depth == 0:
        return
    for name, (holes, _, _) in TEMPLATES.items():
        pools = [list(specs(depth - 1))] * holes
        if holes > 2 or (holes == 2 and depth > 2):
            pools = [['t'] + [(n, ['t'] * TEMPLATES[n][0]) for n in ('wr', 'postinc')]] * holes
        for kids in itertools.product(*pools):
            yield (name, list(kids))


CONTEXTS = ['x = %s;', 'int y%d = %%s; x = y%d;', 'if ((x = %s)) z++; else z--;',
            'while ((x = %s)) { z++; break; }', 'for (x = %s; z < 1; z++) ;', 'x = id(%s) + id(0);', 'x = ret%d();']


class C02(engine.Check):
    pid = 'C02'
    level = 'exploration'
    space = ('A: all trees of 1-3 binary operators (18 operators), unspaced and spaced, minimally and '
             'fully parenthesised, on 4 valuations; B: all trees of 3 operators over one operator per '
             'precedence level, unary operators, ?:, comma and assignment; C: all juxtapositions of '
             'prefix/postfix/binary operators without spaces (maximal munch); D: all trees of 4 '
             'operators of && || ?: , ! whose leaves record their evaluation, for all leaf values; '
             'E: all nestings (depth 2) of 20 operand contexts whose leaves count their evaluations, '
             'in 6 statement contexts')
    rule = 'a case is one expression text; expected value and side effects come from the model'
    assumptions = ['expressions with undefined or unsequenced effects are left out',
                   'the order of operands that C leaves unspecified is not judged']

    def groups(self):
        d = self.deep

        def batch(it, n=20):
            it = iter(it)
            while True:
                b = list(itertools.islice(it, n))
                if not b:
                    return
                yield b
        yield from batch(self.fam_a())
        yield from batch(self.fam_b(3))
        if d:
            yield from batch(self.fam_b4())
        yield from batch(self.fam_c())
        yield from batch(self.fam_d(4 if d else 3), 10)
        yield from batch(self.fam_e(2), 10)

    def fam_a(self):
        ops = BIN
        for n in (1, 2, 3):
            for t in trees(n, ops):
                it = iter(LEAF)
                e = build(t, lambda: ('v', next(it)), [])
                yield ('x', ctext(e, ''), e)
                if n < 3 or self.deep:
                    yield ('x', full(e), e)
                    yield ('x', ctext(e, ' '), e)
                    yield ('x', ctext(e, '\n\t'), e)

    def fam_b(self, n):
        ops = LEVELS + ['u-', 'u!', 'u~', '?', ',', '=', '+=']
        for k in range(1, n + 1):
            for t in trees(k, ops):
                if nleaves(t) > 4 or nassign(t) > 2:
                    continue
                if not self.deep and k == 3 and not any(x in str(t) for x in ("'u", "'?'", "','", "'='", "'+='")):
                    continue    # in family A
                it = iter(LEAF)
                e = build(t, lambda: ('v', next(it)), [])
                yield ('x', ctext(e, ' '), e)

    def fam_b4(self):
        for t in trees(4, ['*', '-', '<', '&', '||', 'u-', 'u!', '?', '=', '+=']):
            if nleaves(t) > 4 or nassign(t) > 2:
                continue
            it = iter(LEAF)
            e = build(t, lambda: ('v', next(it)), [])
            yield ('x', ctext(e, ''), e)

    def fam_c(self):
        pre = ['', '-', '!', '~', '++', '--', '- -', '-~', '!!', '-++', '-(', '!--']
        post = ['', '++', '--']
        op = ['+', '-', '*', '/', '%', '<', '>', '&', '|', '^', '<<', '>>', '&&', '||', '==', '!=', '<=', '>=', '?1:', ',', '=', '+=', '-=', '/=', '^=', '<<=', '>>=']
        seen = set()
        for p1, q1, o, p2, q2, sp in itertools.product(pre, post, op, pre, post, ('', ' ')):
            s = p1 + 'a' + q1 + (')' if '(' in p1 else '') + sp + o + sp + p2 + 'b' + q2 + (')' if '(' in p2 else '')
            if s in seen:
                continue
            seen.add(s)
            try:
                e = parse(tokens(s))
            except NoParse:
                continue
            wr, rd = [], []
            variables(e, wr, rd)
            if len(set(wr)) != len(wr) or set(wr) & set(rd):
                continue
            yield ('x', s, e)

    def fam_d(self, n):
        for k in range(1, n + 1):
            for t in trees(k, ['&&', '||', '?', ',', 'u!']):
                yield ('s', t)

    def fam_e(self, depth):
        for s in specs(depth):
            for c in (range(len(CONTEXTS)) if s == 't' or all(k == 't' for k in s[1]) or self.deep else (0,)):
                yield ('o', s, c)

    def key(self, c):
        if c[0] == 'x':
            return c[1]
        if c[0] == 's':
            return self.seq(c)[0]
        return CONTEXTS[c[2]] + ' with %r' % (c[1],)

    # every case gives (file-scope text, statements in main, expected output)
    def render(self, i, c):
        return getattr(self, 'r_' + c[0])(i, c)

    def r_x(self, i, c):
        _, text, e = c
        top = 'int e%d(int a, int b, int c, int d) { return %s; }\n' % (i, text if not has_comma(e) else '(' + text + ')')
        wr = []
        variables(e, wr, [])
        s, want = '', ''
        for v in VALS:
            m = Machine(limit=1000)
            m.globals.update({'p': Cell(0), 'q': Cell(0)})
            m.scopes = [m.globals, {n: Cell(x) for n, x in zip(LEAF, v)}]
            try:
                r = m.ev(e)
            except Undefined:
                continue
            s += 'p=0;q=0; r=e%d(%d,%d,%d,%d); printf("%%d %%d %%d\\n",r,p,q);\n' % ((i,) + v)
            want += '%d %d %d\n' % (r, m.globals['p'].v, m.globals['q'].v)
        # parameters that the expression modifies
        if any(n in LEAF for n in wr):
            s += 'int a%d=5; int b%d=3;\n' % (i, i)
            m = Machine()
            m.scopes = [{}, {'a': Cell(5), 'b': Cell(3)}]
            try:
                m.ev(e)
                txt = ''.join(('%s%d' % (ch, i) if ch in 'ab' else ch) for ch in text)
                s += '%s; printf("%%d %%d\\n",a%d,b%d);\n' % (txt, i, i)
                want += '%d %d\n' % (m.scopes[1]['a'].v, m.scopes[1]['b'].v)
            except Undefined:
                pass
        return top, s, want

    def seq(self, c):
        n = [0]

        def leaf():
            n[0] += 1
            return ('call', 't', [('n', n[0]), ('v', 'v%d' % n[0])])
        e = build(c[1], leaf, [])
        return ctext(e), e, n[0]

    def r_s(self, i, c):
        text, e, n = self.seq(c)
        names = ['v%d' % k for k in range(1, n + 1)]
        top = 'int e%d(%s) { return (%s); }\n' % (i, ', '.join('int ' + x for x in names), text)
        s, want = '', ''
        log = []
        m = Machine({'t': lambda m, a: log.append(a[0]) or a[1]})
        vals = itertools.product((0, 1), repeat=n)
        if n > 6:
            vals = [v for v in vals if sum(v[6:]) in (0, n - 6)]
        for v in vals:
            del log[:]
            m.steps = 0
            m.scopes = [{}, dict(zip(names, map(Cell, v)))]
            r = m.ev(e)
            s += 'lg=0; r=e%d(%s); printf("%%d %%ld\\n",r,lg);\n' % (i, ','.join(map(str, v)))
            want += '%d %s\n' % (r, ''.join(map(str, log)) or '0')
        return top, s, want

    def r_o(self, i, c):
        _, spec, ctx = c
        g, st, log = Gen(), {}, []
        text, f = inst(spec, g, st, log)
        val = f()
        names = sorted(st)
        import re
        text = re.sub(r'\b(ar|v|w)(\d+)', lambda m: '%s%d_%s' % (m.group(1), i, m.group(2)), text)
        top = ''.join('int ar%d_%d[4]; int v%d_%d; int w%d_%d;\n' % (i, n, i, n, i, n) for n in names)
        con = CONTEXTS[ctx]
        if '%d' in con:
            con = con % ((i,) * con.count('%d'))
        s = 'z=0;' + ''.join('ar%d_%d[%d]=%d;' % (i, n, j, 10 * (j + 1) + n) for n in names for j in range(4))
        s += '\nfor (k=0;k<40;k++) cnt[k]=0;\n'
        if 'ret' in con:
            top += 'int t(int k); int id(int k); int sub(int a, int b);\nint ret%d() { return %s; }\n' % (i, text)
            s += con
        else:
            s += con % text
        # for (x = ...; z < 1; ...) and while run their bodies once
        z = {2: 1 if val else -1, 3: 1 if val else 0, 4: 1}.get(ctx, 0)
        x = val
        s += '\nprintf("%d %d", x, z); for (k=0;k<40;k++) if (cnt[k]!=0) printf(" %d:%d", k, cnt[k]);\n'
        for n in names:
            s += 'printf(" [%%d %%d %%d %%d]", %s);' % ','.join('ar%d_%d[%d]' % (i, n, j) for j in range(4))
        s += ' printf("\\n");\n'
        want = '%d %d' % (x, z) + ''.join(' %d:%d' % (k, log.count(k)) for k in sorted(set(log)))
        for n in names:
            want += ' [%d %d %d %d]' % tuple(st[n])
        return top, s, want + '\n'

    def parts(self, cases):
        return [self.render(i, c) for i, c in enumerate(cases)]

    def stats(self, cases):
        n = sum(p[2].count('\n') for p in self.parts(cases))
        return n, n

    def request(self, cases):
        ps = self.parts(cases)
        kind = cases[0][0]
        # a group at the border of two families holds both kinds
        t = 'int printf(const char *f, ...);\nint p; int q; long lg; int cnt[40]; int x; int z;\n'
        if any(c[0] == 'o' for c in cases):
            t += ('int t(int k) { cnt[k]++; return k; }\nint id(int k) { return k; }\n'
                  'int sub(int a, int b) { return a - b; }\n')
        elif kind == 's':
            t += 'int t(int k, int v) { lg = lg*10 + k; return v; }\n'
        t += ''.join(p[0] for p in ps)
        t += 'int main()\n{\nint r; int k;\n' + ''.join(p[1] for p in ps) + 'return 0;\n}\n'
        return 'script', dict(text=t)

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want = ''.join(p[2] for p in self.parts(cases))
        if res.out == want:
            return None
        w, g = want.split('\n'), res.out.split('\n')
        for i, (x, y) in enumerate(zip(w, g)):
            if x != y:
                return 'line %d: expected %r, got %r' % (i + 1, x, y)
        return 'expected %d lines, got %d' % (len(w), len(g))


def has_comma(e):
    return e[0] == ','


if __name__ == '__main__':
    sys.exit(engine.main(effects.everywhere(scale.scaled(C02))))
