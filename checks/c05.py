"""C05: every function call runs on its own arguments, result and locals.

N  caller and callee share names: all parameter name lists x all argument lists
X  all expressions of nested calls up to a size
S  all sequences of calls up to a length, over functions with every kind of
   body, with the global state compared after every call
R  recursion templates: every place of the recursive call x what happens to
   parameters and locals around it x direct/mutual/through a pointer
All are executed by the model in lib/minic.py.
"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale
from minic import *


def V(n): return ('v', n)
def N(n): return ('n', n)
def C(f, *a): return ('call', f, list(a))
def B(op, a, b): return ('bin', op, a, b)
def A(n, e, op='='): return ('as', op, n, e)


# --- the functions of family S: (return type, params, body)
FUN = {
    'inc': ('int', ['x'], [('e', A('g', B('+', V('g'), V('x')))), ('r', V('g'))]),
    'loc': ('int', ['x'], [('d', 'l', B('*', V('x'), N(2))), ('d', 'k', B('+', V('l'), N(1))), ('r', B('-', V('k'), V('x')))]),
    'early': ('int', ['x'], [('if', B('>', V('x'), N(2)), ('r', B('*', V('x'), N(10))), None),
                             ('d', 'x2', V('x')), ('e', A('x', N(7))), ('r', B('+', V('x2'), V('x')))]),
    'vd': ('void', ['v'], [('e', A('w', V('v'))), ('if', B('==', V('v'), N(1)), ('r', None), None), ('e', A('g', B('+', V('g'), N(1))))]),
    'noarg': ('int', [], [('d', 'x', V('g')), ('e', A('g', N(3))), ('r', V('x'))]),
    'shadow': ('int', ['g'], [('e', A('g', B('+', V('g'), N(5)))), ('r', V('g'))]),
    'calls': ('int', ['x'], [('d', 'y', C('inc', B('+', V('x'), N(1)))), ('d', 'z', C('loc', V('y'))), ('r', B('-', V('z'), V('x')))]),
    'loop': ('int', ['x'], [('d', 'r', N(0)), ('f', ('d', 'i', N(0)), B('<', V('i'), V('x')), ('post', '++', 'i'),
                                               ('b', [('if', B('==', V('i'), N(2)), ('r', B('+', V('r'), N(100))), None),
                                                      ('e', A('r', B('+', V('r'), V('i'))))])),
                            ('r', V('r'))]),
    'fib': ('int', ['n'], [('if', B('<', V('n'), N(2)), ('r', V('n')), None),
                           ('r', B('+', C('fib', B('-', V('n'), N(1))), C('fib', B('-', V('n'), N(2)))))]),
    'even': ('int', ['n'], [('if', B('==', V('n'), N(0)), ('r', N(1)), None), ('r', C('odd', B('-', V('n'), N(1))))]),
    'odd': ('int', ['n'], [('if', B('==', V('n'), N(0)), ('r', N(0)), None), ('r', C('even', B('-', V('n'), N(1))))]),
    'blk': ('int', ['x'], [('d', 'a', V('x')), ('b', [('d', 'x', N(50)), ('e', A('a', B('+', V('a'), V('x'))))]), ('r', B('+', V('a'), V('x')))]),
    'cnt': ('int', [], [('ds', 'c', N(0)), ('e', ('post', '++', 'c')), ('r', V('c'))]),
    'while_': ('int', ['x'], [('w', N(1), ('b', [('if', B('<', V('x'), N(3)), ('k',), None), ('e', ('post', '--', 'x')),
                                                 ('if', B('==', V('x'), N(4)), ('r', N(-1)), None)])), ('r', V('x'))]),
    'last': ('void', ['x', 'y'], [('e', A('w', B('-', V('x'), V('y'))))]),
    'three': ('int', ['a', 'b', 'c'], [('r', B('+', B('+', B('*', V('a'), N(100)), B('*', V('b'), N(10))), V('c')))]),
    'cond': ('int', ['x'], [('r', ('?', B('>', V('x'), N(0)), C('inc', N(1)), V('w')))]),
}
OPS = [('r', C('inc', N(2))), ('r', C('inc', V('r'))), ('r', C('loc', N(4))), ('r', C('early', N(1))), ('r', C('early', N(3))),
       (None, C('vd', N(1))), (None, C('vd', V('g'))), ('r', C('noarg')), ('r', C('shadow', V('g'))), ('r', C('calls', N(1))),
       ('r', C('loop', N(2))), ('r', C('loop', N(5))), ('r', C('fib', N(4))), ('r', C('even', N(3))), ('r', C('blk', N(2))),
       ('r', C('cnt')), ('r', C('while_', N(4))), ('r', C('while_', N(6))), (None, C('last', V('r'), V('g'))),
       ('r', C('three', V('w'), V('r'), V('g'))), ('r', C('cond', V('r'))), ('r', C('cond', N(0))),
       ('g', C('loc', C('early', V('w')))), (None, C('noarg'))]


def frender(name, f):
    return '%s %s(%s)\n{\n%s}\n' % (f[0], name, ', '.join('int ' + p for p in f[1]), ''.join(stext(s) for s in f[2]))


def machine(funs):
    return Machine({n: (f[1], f[2]) for n, f in funs.items()}, limit=20000)


# --- family R
def recursions(deep):
    places = ['ret', 'init', 'assign', 'cond', 'argself', 'argother', 'step', 'sum', 'stmt']
    for place in places:
        for mod in ('none', 'param', 'local'):
            for via in ('self', 'mutual', 'ptr', 'three'):
                for nparam in (1, 2, 3):
                    for shadow in (0, 1):
                        yield (place, mod, via, nparam, shadow)


def recursion(spec, p=''):
    place, mod, via, nparam, shadow = spec
    extra = ['a', 'b'][:nparam - 1]
    nxt = {'self': ['f'], 'ptr': ['f'], 'mutual': ['f', 'h'], 'three': ['f', 'h', 'k']}[via]
    fs = {}
    for i, name in enumerate(nxt):
        callee = nxt[(i + 1) % len(nxt)]

        def call(n):
            args = [n] + ([B('+', V('a'), N(1))] if 'a' in extra else []) + ([V('a')] if 'b' in extra else [])
            return C(callee, *args)
        rec = call(B('-', V('n'), N(1)))
        body = [('if', B('<=', V('n'), N(0)), ('r', N(i + 1)), None)]
        body.append(('d', 'l', B('+', B('*', V('n'), N(3)), N(i))))
        body.append(('d', 'm', N(0)))
        if mod == 'param':
            body.append(('e', A('g', B('+', V('g'), V('n')))))
        if place == 'ret':
            body.append(('r', rec) if mod == 'none' else ('r', B('+', rec, V('l'))))
        elif place == 'init':
            body.append(('d', 'q', rec))
            body.append(('e', A('m', V('q'))))
        elif place == 'assign':
            body.append(('e', A('m', rec)))
        elif place == 'cond':
            body.append(('if', B('>', rec, N(2)), ('e', A('m', N(5))), ('e', A('m', N(6)))))
        elif place == 'argself':
            body.append(('if', B('<', V('n'), N(3)), ('e', A('m', call(B('-', call(B('-', V('n'), N(2))), N(4))))), ('e', A('m', rec))))
        elif place == 'argother':
            body.append(('e', A('m', C('id', rec))))
        elif place == 'step':
            body.append(('f', ('d', 'i', N(0)), B('<', V('i'), N(2)), ('post', '++', 'i'), ('e', A('m', B('+', V('m'), rec)))))
        elif place == 'sum':
            body.append(('e', A('m', B('+', V('l'), B('-', B('*', rec, N(2)), V('n'))))))
        elif place == 'stmt':
            body.append(('e', rec))
        if mod == 'local':
            body.append(('e', A('l', B('+', V('l'), V('m')))))
        if mod == 'param':
            body.append(('e', A('n', B('+', V('n'), V('m')))))
        if shadow:
            body.append(('b', [('d', 'l', N(9)), ('e', A('m', B('+', V('m'), V('l'))))]))
        tot = B('+', B('+', V('l'), V('m')), V('n'))
        for x in extra:
            tot = B('+', tot, V(x))
        body.append(('r', tot))
        fs[name] = ('int', ['n'] + extra, body)
    fs['id'] = ('int', ['n'], [('r', V('n'))])
    return fs, nxt


# --- family X
def calltrees(n):
    """Expressions with n leaves or calls; every call's function is one of sub/2, dbl/1, tri/3."""
    if n == 1:
        yield from (('v', 'a'), ('v', 'b'), ('n', 3))
        return
    for x in calltrees(n - 1):
        yield C('dbl', x)
    for i in range(1, n - 1):
        for x in calltrees(i):
            for y in calltrees(n - 1 - i):
                yield C('sub', x, y)
    for i in range(1, n - 2):
        for j in range(1, n - 1 - i):
            for x in calltrees(i):
                for y in calltrees(j):
                    for z in calltrees(n - 1 - i - j):
                        yield C('tri', x, y, z)


XF = {'dbl': ('int', ['b'], [('d', 'a', B('*', V('b'), N(2))), ('r', V('a'))]),
      'sub': ('int', ['b', 'a'], [('r', B('-', V('b'), V('a')))]),
      'tri': ('int', ['c', 'a', 'b'], [('e', A('n', B('+', V('n'), N(1)))), ('r', B('-', C('sub', V('a'), V('b')), C('dbl', V('c'))))])}

NAMES = ['a', 'b', 'c']

# parameter types of family T: (arguments, format, use in the callee, printed)
PV = {
    'char': (['65', '300-200', '-3'], '%d', 'P', ['65', '100', '-3']),
    'short': (['1000', '-1000'], '%d', 'P', ['1000', '-1000']),
    'int': (['70000', '-70000', 'ia[2]'], '%d', 'P', ['70000', '-70000', '43']),
    'long': (['5000000000', '-5000000000'], '%ld', 'P', ['5000000000', '-5000000000']),
    'unsigned char': (['200', 'ia[0]'], '%d', 'P', ['200', '41']),
    'double': (['1.5', '-2.25'], '%.2f', 'P', ['1.50', '-2.25']),
    'float': (['0.5', '-7.75'], '%.2f', 'P', ['0.50', '-7.75']),
    'char *': (['"str"', '"other"'], '%s', 'P', ['str', 'other']),
    'int *': (['ia', '&ia[1]'], '%d', '*P', ['41', '42']),
    'struct s *': (['&sv'], '%d', 'P->y', ['52']),
    'int (*)(int)': (['neg'], '%d', 'P(6)', ['-6']),
}
PT = list(PV)

# ways to declare a parameter in family P: (declarators, arguments, format, use, size, assigned, [steps of use and printed])
PK = {
    'int': (['int P', 'const int P', 'int const P', 'ity P'], '71', '%d', 'P', 4, '72', '71', '72'),
    'uchar': (['unsigned char P', 'char unsigned P'], '200', '%d', 'P', 1, '201', '200', '201'),
    'long': (['long P', 'long int P'], '5000000000', '%ld', 'P', 8, '5000000001', '5000000000', '5000000001'),
    'enum': (['enum en P'], 'E5', '%d', 'P', 4, 'E9', '5', '9'),
    'double': (['double P'], '2.5', '%.2f', 'P', 8, '3.5', '2.50', '3.50'),
    'ptr': (['int *P', 'int P[]', 'int P[3]', 'arr P', 'pty P', 'int *const P', 'const int *P'], 'ia', '%d', 'P[1]', 8, 'ib', '42', '52'),
    'pstr': (['struct st *P', 'struct st P[2]', 'sty *P', 'sty P[]'], '&sa', '%d', 'P->y', 8, '&sb', '62', '64'),
    'pptr': (['char **P', 'char *P[]', 'char *P[2]'], 'sv', '%s', 'P[1]', 8, 'sw', 'one', 'three'),
    'str': (['char *P', 'char P[]', 'const char *P'], '"text"', '%s', 'P', 8, '"other"', 'text', 'other'),
    'fn': (['int P(int)', 'int (*P)(int)', 'fnt P', 'fpt P', 'fnt *P'], 'neg', '%d', 'P(6)', 8, 'dbl', '-6', '12'),
    'fn2': (['int *P(int *)', 'int *(*P)(int *)'], 'fst', '%d', '*P(iz)', 8, 'snd', '41', '42'),
}
PNAMES = ['p', 'gv', 'neg', 'self', 'st', 'ia', 'r', 'same']


PPRE = '''typedef int ity; typedef int arr[3]; typedef int *pty; typedef int fnt(int); typedef int (*fpt)(int); typedef struct st { int x; int y; } sty;
enum en { E0, E5 = 5, E9 = 9 };
int gv; int ia[3]; int ib[3]; int iz[2]; struct st sa; struct st sb; char *sv[2]; char *sw[2];
int neg(int a) { return -a; }
int dbl(int a) { return a * 2; }
int *fst(int *a) { return a; }
int *snd(int *a) { return &a[1]; }
'''


class C05(engine.Check):
    pid = 'C05'
    rule = 'a case is one program fragment: an argument list, a nested call expression, a sequence of calls or a recursion template'
    space = ('N: parameter name lists of 1..3 names out of 3 x argument lists over 8 expressions; X: nested calls of <= 6 (7) nodes; '
             'S: all sequences of <= 3 (4 over a smaller alphabet) of 24 calls; R: 9 places x 3 x 4 x 3 x 2 templates, '
             'depths 0..5; P: all 29 declarations of one parameter x 7 names, and of 11 kinds of pairs of parameters x pairs of 8 names (the names of '
             'functions, global objects, tags, the function itself), each read, measured, assigned, passed on by recursion and to a nested call')
    assumptions = ['the order in which arguments are evaluated is unspecified: cases whose result depends on it are not generated']

    def groups(self):
        g = []
        for k in (1, 2, 3):
            for ps in itertools.permutations(NAMES, k):
                for args in itertools.product(range(8), repeat=k):
                    # at most one argument has a side effect
                    if sum(a >= 6 for a in args) > 1 or (any(a >= 6 for a in args) and any(a == 0 or a == 3 for a in args)):
                        continue
                    g.append(('N', ps, args))
                    if len(g) == 60:
                        yield g
                        g = []
        if g:
            yield g
        g = []
        for n in range(2, 8 if self.deep else 7):
            for e in calltrees(n):
                g.append(('X', e))
                if len(g) == 80:
                    yield g
                    g = []
        if g:
            yield g
        g = []
        for k in (1, 2, 3, 4):
            for s in itertools.product(range(len(OPS)) if k < 4 or self.deep else (0, 1, 4, 6, 7, 8, 9, 14, 15, 17, 19, 22), repeat=k):
                g.append(('S', s))
                if len(g) == 60:
                    yield g
                    g = []
        if g:
            yield g
        g = []
        for k in (1, 2, 3, 4) if self.deep else (1, 2, 3):
            for ts in itertools.product(PT, repeat=k):
                g.append(('T', ts))
                if len(g) == 30:
                    yield g
                    g = []
        if g:
            yield g
        g = []
        for case in self.params():
            g.append(('P',) + case)
            if len(g) == 25:
                yield g
                g = []
        yield g
        g = []
        for spec in recursions(self.deep):
            g.append(('R', spec))
            if len(g) == 6:
                yield g
                g = []
        if g:
            yield g

    def params(self):
        for k in PK:
            for d in range(len(PK[k][0])):
                for n in PNAMES[:-1]:
                    yield (((k, d, n),),)
        i = 0
        for a in PK:
            for b in PK:
                for na in PNAMES[:-1]:
                    for nb in PNAMES[:-1]:
                        if na == nb:
                            continue
                        ds = [(x, y) for x in range(len(PK[a][0])) for y in range(len(PK[b][0]))]
                        if not self.deep:
                            i += 1
                            ds = [ds[i % len(ds)]]
                        for x, y in ds:
                            yield (((a, x, na), (b, y, nb)),)

    def key(self, c):
        if c[0] == 'P':
            return 'f(%s)' % ', '.join(PK[k][0][d].replace('P', n) for k, d, n in c[1])
        if c[0] == 'X':
            return ctext(c[1])
        if c[0] == 'S':
            return '; '.join(('%s = ' % OPS[i][0] if OPS[i][0] else '') + ctext(OPS[i][1]) for i in c[1])
        if c[0] == 'N':
            return 'f(%s) called with (%s)' % (', '.join('int ' + p for p in c[1]), ', '.join(ctext(self.arg(i)) for i in c[2]))
        if c[0] == 'T':
            return 'f(%s)' % ', '.join(c[1])
        return 'recursion: ' + repr(c[1])

    def arg(self, i):
        return [V('a'), V('b'), V('c'), B('-', V('a'), V('b')), N(9), C('id', V('b')), ('post', '++', 'a'), A('a', B('+', V('c'), N(1)))][i]

    def program(self, cases):
        """(text, expected output, states, transitions)"""
        k = cases[0][0]
        pre = 'int printf(const char *f, ...);\n'
        want, states, steps = [], 0, 0
        if k == 'N':
            t = pre + 'int id(int a) { return a; }\n'
            m = ''
            for j, (_, ps, args) in enumerate(cases):
                # after return the callee has changed its parameters
                body = [('d', 'r', N(0))] + [('e', A('r', B('+', B('*', V('r'), N(100)), V(p)))) for p in ps] + \
                    [('e', A(p, N(77))) for p in ps] + [('r', V('r'))]
                t += frender('f%d' % j, ('int', ps, body))
                call = C('f%d' % j, *map(self.arg, args))
                m += 'a=11; b=22; c=33; r=%s; printf("%%d %%d %%d %%d\\n",r,a,b,c);\n' % ctext(call)
                mc = Machine({'f%d' % j: (ps, body), 'id': (['a'], [('r', V('a'))])})
                sc = {'a': Cell(11), 'b': Cell(22), 'c': Cell(33)}
                mc.scopes = [mc.globals, sc]
                r = mc.ev(call)
                want.append('%d %d %d %d' % (r, sc['a'].v, sc['b'].v, sc['c'].v))
                states += len(mc.states) + 1
                steps += mc.steps
            return t + 'int main()\n{\nint a; int b; int c; int r;\n%sreturn 0;\n}\n' % m, want, states, steps
        if k == 'T':
            t = pre + 'struct s { int x; int y; };\nstruct s sv;\nint ia[4];\n'
            m = 'ia[0]=41; ia[1]=42; ia[2]=43; ia[3]=44; sv.x=51; sv.y=52;\n'
            for j, (_, ts) in enumerate(cases):
                ps = ['%s p%d' % (ty, i) if ty[-1] == '*' or '(' not in ty else 'int (*p%d)(int)' % i for i, ty in enumerate(ts)]
                w, args = '', []
                fm, pr = '', ''
                for i, ty in enumerate(ts):
                    a, f_, e, val = PV[ty]
                    args.append(a[i % len(a)])
                    fm += f_ + ' '
                    pr += ',' + e.replace('P', 'p%d' % i)
                    w += val[i % len(a)] + ' '
                t += 'int f%d(%s) { printf("%s", %s); return %d; }\n' % (j, ', '.join(ps), fm, pr[1:], j + 3)
                m += 'r=f%d(%s); printf("%%d\\n",r);\n' % (j, ','.join(args))
                want.append(w + str(j + 3))
                if not any('(' in x for x in ts):
                    m += '{ int (*q)(%s); q=f%d; r=q(%s); printf("%%d\\n",r); }\n' % (', '.join(ts), j, ','.join(args))
                    want.append(w + str(j + 3))
            t = t.replace('struct s sv;', 'struct s sv;\nint neg(int x) { return -x; }\n')
            return t + 'int main()\n{\nint r;\n%sreturn 0;\n}\n' % m, want, len(want), len(want)
        if k == 'P':
            t = pre + PPRE
            m = ''
            for j, (_, ps) in enumerate(cases):
                names = ['f%d' % j if n == 'self' else n for _, _, n in ps]
                own = 'f%d' % j in names
                decl = ', '.join(PK[k2][0][d].replace('P', n) for (k2, d, _), n in zip(ps, names))
                fm = ' '.join(PK[k2][2] for k2, _, _ in ps)
                use = ', '.join(PK[k2][3].replace('P', n) for (k2, _, _), n in zip(ps, names))
                const = ['const' in PK[k2][0][d] and '*' not in PK[k2][0][d].split('const')[1] for k2, d, _ in ps]
                asg = ''.join('' if c else '%s = %s; ' % (n, PK[k2][5]) for (k2, _, _), n, c in zip(ps, names, const)
                              if not any(PK[k2][5].lstrip('&') == o for o in names))
                after = [PK[k2][7] if '%s = ' % n in asg else PK[k2][6] for (k2, _, _), n in zip(ps, names)]
                rec = '' if own else 'if (again) { int u; u = f%d(%s, again - 1); } ' % (j, ', '.join(names))
                t += 'int f%d(%s, int again) { printf("%s;", %s); %s%sprintf("%s;", %s); printf("%s\\n", %s); return again + %d; }\n' % (
                    j, decl, fm, use, rec, asg, ' '.join(['%d'] * len(ps)), ', '.join('(int)sizeof(%s)' % n for n in names), fm, use, j)
                n = 0 if own else 2
                m += 'r=f%d(%s, %d); printf("%%d %%d %%d\\n",r,gv,ia[1]+neg(2));\n' % (j, ', '.join(PK[k2][1] for k2, _, _ in ps), n)
                first = ' '.join(PK[k2][6] for k2, _, _ in ps) + ';'
                last = ' '.join(str(PK[k2][4]) for k2, _, _ in ps) + ';' + ' '.join(after)
                want.append(first * (n + 1) + last)
                want += [last] * n
                want.append('%d 31 40' % (n + j))
            return t + 'int main()\n{\nint r;\niz[0]=41; iz[1]=42; ia[0]=41; ia[1]=42; ib[0]=51; ib[1]=52; sa.y=62; sb.y=64; sv[0]="zero"; sv[1]="one"; sw[1]="three"; gv=31;\n%sreturn 0;\n}\n' % m, want, len(want), len(want)
        if k == 'X':
            t = pre + 'int n;\nint sub(int b, int a);\n' + ''.join(frender(n, f) for n, f in sorted(XF.items()))
            m = ''
            for _, e in cases:
                m += 'a=5;b=8;n=0; r=%s; printf("%%d %%d %%d %%d\\n",r,a,b,n);\n' % ctext(e, '')
                mc = machine(XF)
                mc.globals['n'] = Cell(0)
                mc.scopes = [mc.globals, {'a': Cell(5), 'b': Cell(8)}]
                r = mc.ev(e)
                want.append('%d 5 8 %d' % (r, mc.globals['n'].v))
                states += len(mc.states) + 1
                steps += mc.steps
            return t + 'int main()\n{\nint a; int b; int r;\n%sreturn 0;\n}\n' % m, want, states, steps
        if k == 'S':
            t = pre + 'int g; int w;\nint odd(int n);\n' + ''.join(
                frender(n, FUN[n]) for n in FUN)
            mc = machine(FUN)
            mc.globals.update(g=Cell(0), w=Cell(0))
            sc = {'r': Cell(0)}
            m = ''
            for _, seq in cases:
                m += 'g=1; w=2; r=3;\n'
                mc.globals['g'].v, mc.globals['w'].v, sc['r'].v = 1, 2, 3
                line = ''
                for i in seq:
                    dst, e = OPS[i]
                    m += ('%s=' % dst if dst else '') + ctext(e) + '; printf("%d %d %d;",r,g,w);\n'
                    mc.scopes = [mc.globals, sc]
                    v = mc.ev(e)
                    if dst:
                        mc.look(dst).v = v
                    line += '%d %d %d;' % (sc['r'].v, mc.globals['g'].v, mc.globals['w'].v)
                m += 'printf("\\n");\n'
                want.append(line)
                steps += mc.steps
                mc.steps = 0
            states = len(mc.states)
            return t + 'int main()\n{\nint r;\n%sreturn 0;\n}\n' % m, want, states, steps
        t, m = pre + 'int g;\nint id(int n) { return n; }\n', ''
        for j, (_, spec) in enumerate(cases):
            fs, order = recursion(spec)

            def ren(name):
                return 'id' if name == 'id' else '%s%d' % (name, j)
            txt = ''.join('int %s(%s);\n' % (ren(n), ', '.join('int ' + p for p in fs[n][1])) for n in order)
            txt += ''.join(frender(n, fs[n]) for n in order)
            import re
            for n in order:
                txt = re.sub(r'\b%s\(' % n, ren(n) + '(', txt)
            if spec[2] == 'ptr':
                # the recursive call goes through a global pointer
                head = 'int (*fp%d)(%s);\n' % (j, ', '.join(['int'] * spec[3]))
                i = txt.index('{')
                txt = head + txt[:i] + txt[i:].replace('f%d(' % j, 'fp%d(' % j)
                m += 'fp%d = f%d;\n' % (j, j)
            t += txt
            for depth in range(0, 6 if spec[0] not in ('step', 'argself') else 4):
                args = [depth, 4, 6][:spec[3]]
                m += 'g=0; r=f%d(%s); printf("%%d %%d\\n",r,g);\n' % (j, ','.join(map(str, args)))
                mc = machine(fs)
                mc.globals['g'] = Cell(0)
                r, _ = mc.run('f', args)
                want.append('%d %d' % (r, mc.globals['g'].v))
                states += len(mc.states)
                steps += mc.steps
        return t + 'int main()\n{\nint r;\n%sreturn 0;\n}\n' % m, want, states, steps

    _c = (None, None)

    def prog(self, cases):
        if self._c[0] is not cases:
            self._c = (cases, self.program(cases))
        return self._c[1]

    def stats(self, cases):
        return self.prog(cases)[2:]

    def request(self, cases):
        return 'script', dict(text=self.prog(cases)[0])

    def judge(self, cases, res):
        if res.rc != 0:
            return 'ended with %s, %s' % (res.ended, res.err[:200])
        want, got = self.prog(cases)[1], res.out.split('\n')[:-1]
        for i, (w, g) in enumerate(zip(want, got)):
            if w != g:
                return 'line %d: expected %r, got %r' % (i + 1, w, g)
        if len(want) != len(got):
            return 'expected %d lines, got %d' % (len(want), len(got))


if __name__ == '__main__':
    sys.exit(engine.main(scale.scaled(C05)))
