"""C22: AST dumps show the whole program and execute nothing.

Programs are generated together with the tree they stand for: every expression
of up to three operators with only the parentheses C's precedence asks for,
every nesting of statements, declarators and specifiers, every string and
constant of a set, sequences of top-level items. The dump, in either format, is
parsed back and must be that tree; nothing of the program may be executed,
whatever it would do. For the standard headers the two formats must show the
same tree.
"""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

# -- trees: (type, {prop: tree | scalar | None}) and [chain]
def N(t, **p):
    return t, {k: v for k, v in p.items() if v is not None}


def I(n):
    return N('T_IDENTIFIER', STR='"%s"' % n)


def K(n):
    return N('T_INTEGER', VAL=str(n))


def norm(t):
    """What isn't told apart: an expression and a list of one, -1 and -(1)."""
    if isinstance(t, list):
        return [norm(x) for x in t]
    if isinstance(t, str) or t is None:
        return t
    k, p = t
    p = {a: norm(b) for a, b in p.items()}

    def g(p, x):
        return p.get(find(p, x))
    if k == 'T_EXPR_LIST' and isinstance(g(p, 'CHAIN'), list) and len(g(p, 'CHAIN')) == 1:
        return g(p, 'CHAIN')[0]
    e = k == 'T_MINUS' and g(p, 'EXP')
    if e and e[0] in ('T_INTEGER', 'T_FLOAT'):
        v = g(e[1], 'VAL')
        return e[0], {'VAL': '0' if v == '0' else v[1:] if v[0] == '-' else '-' + v}
    return k, p


def same(want, got, at=''):
    """None, or where the trees differ."""
    if isinstance(want, list):
        if not isinstance(got, list):
            if want == [] and got is None:
                return None
            return '%s: a list is expected, not %.200r' % (at, got)
        for i, (a, b) in enumerate(zip(want, got)):
            r = same(a, b, '%s[%d]' % (at, i))
            if r:
                return r
        if len(want) != len(got):
            return '%s: %d elements instead of %d' % (at, len(got), len(want))
        return None
    if isinstance(want, str):
        return None if want == got else '%s: %.200r instead of %.200r' % (at, got, want)
    if not isinstance(got, tuple) or want[0] != got[0]:
        return '%s: %.200r instead of %s' % (at, got, want[0])
    props = dict(got[1])
    for k, v in want[1].items():
        g = find(props, k)
        r = same(v, props.pop(g) if g else None, '%s.%s' % (at + want[0], k))
        if r:
            return r
    for k, v in props.items():
        # numbers and flags that say more about a node are fine
        if isinstance(v, (list, tuple)) and v or isinstance(v, str) and v[:1] == '"':
            return '%s: %s is %.200r' % (at + want[0], k, v)
    return None


def find(props, k):
    """Text dumps name a property by its accessor."""
    c = [x for x in props if x == k or x.endswith('_' + k)]
    return min(c, key=len) if c else None


# -- parsing dumps
TOK = re.compile(r'\s*(?:<(chain)|<tree (\w+)|(<null>)|(>)|(\w+): |("(?:[^"\\]|\\.)*")|([^\s>]+))', re.S)


def parse_text(s):
    toks = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError('not a dump: %r' % s[i:i + 100])
        toks.append((m.lastindex, m.group(m.lastindex)))
        i = m.end()
    toks.append((0, ''))
    i = 0

    def value():
        nonlocal i
        k, v = toks[i]
        i += 1
        if k == 1:
            r = []
            while toks[i][0] != 4:
                r.append(value())
            i += 1
            return r
        if k == 2:
            p = {}
            while toks[i][0] != 4:
                if toks[i][0] != 5:
                    raise ValueError('a property is expected: %r' % (toks[i - 3:i + 3],))
                n = toks[i][1]
                i += 1
                if n in p:
                    raise ValueError('%s twice' % n)
                # pointers and the like may have no value at all
                p[n] = None if toks[i][0] in (4, 5) else value()
            i += 1
            return v, {a: b for a, b in p.items() if b is not None}
        if k == 3:
            return None
        if k in (6, 7):
            return v
        raise ValueError('not a dump: %r' % (toks[i - 3:i + 3],))
    r = value()
    if toks[i][0] != 0:
        raise ValueError('more after the dump: %r' % (toks[i:i + 4],))
    return r


STMT = re.compile(r'''\s*(?:(subgraph\s+(\w+)\s*\{)|(\})|(compound\s*=\s*true)|(\w+)\s*->\s*(\w+)\s*(?:\[([^]"]*(?:"(?:[^"\\]|\\.)*"[^]"]*)*)\])?\s*;|(\w+)\s*\[label="((?:[^"\\]|\\.)*)"\]\s*;)''', re.S)
ATTR = re.compile(r'(\w+)=("(?:[^"\\]|\\.)*"|\w+)', re.S)


def parse_dot(s):
    m = re.match(r'\s*digraph\s+\w+\s*\{', s)
    if not m:
        raise ValueError('not a graph: %r' % s[:100])
    i, depth = m.end(), 1
    label, order, edges, chain, clusters = {}, [], {}, {}, set()
    refs, crefs = set(), set()
    while depth:
        m = STMT.match(s, i)
        if not m:
            raise ValueError('not a graph: %r' % s[i:i + 200])
        i = m.end()
        if m.group(1):
            depth += 1
            clusters.add(m.group(2))
        elif m.group(3):
            depth -= 1
        elif m.group(5):
            a, b = m.group(5), m.group(6)
            at = {k: v.strip('"') if k != 'label' else v[1:-1] for k, v in ATTR.findall(m.group(7) or '')}
            refs |= {a, b}
            crefs |= {at[k] for k in ('ltail', 'lhead') if k in at}
            if 'label' in at:
                if edges.setdefault(a, {}).setdefault(at['label'], (b, 'color' in at)) != (b, 'color' in at):
                    raise ValueError('two edges %s from one node' % at['label'])
            else:
                if chain.setdefault(a, b) != b:
                    raise ValueError('two successors of one node')
        elif m.group(8):
            n, l = m.group(8), m.group(9)
            if label.setdefault(n, l) != l:
                raise ValueError('two labels of one node: %r, %r' % (label[n], l))
            order.append(n)
    if s[i:].strip():
        raise ValueError('more after the graph: %r' % s[i:i + 100])
    if refs - set(label):
        raise ValueError('an edge to or from what is no node: %s' % sorted(refs - set(label))[:3])
    if crefs - clusters:
        raise ValueError('an edge to or from what is no cluster')

    def follow(n):
        r = []
        while n:
            r.append(node(n))
            n = chain.get(n)
        return r

    def node(n):
        l = label[n]
        p = {}
        for k, (b, c) in edges.get(n, {}).items():
            if (l, k.split('_')[-1]) in (('T_IDENTIFIER', 'STR'), ('T_STRING', 'VAL')):
                p[k] = '"%s"' % label[b]
            elif not re.match('[A-Z]', label[b]):
                p[k] = label[b]
            else:
                p[k] = follow(b) if c else node(b)
        return l, p
    inner = {b for e in edges.values() for b, c in e.values()} | set(chain.values())
    roots = [n for n in dict.fromkeys(order) if n not in inner]
    if len(roots) > 1:
        raise ValueError('%d separate graphs' % len(roots))
    return follow(roots[0]) if roots else []


# -- expressions: (precedence, source, tree)
BIN = {'*': ('MUL', 13), '/': ('DIV', 13), '%': ('MOD', 13), '+': ('ADD', 12), '-': ('SUB', 12), '<<': ('LSHIFT', 11), '>>': ('RSHIFT', 11),
       '<': ('LT', 10), '>': ('GT', 10), '<=': ('LTEQ', 10), '>=': ('GTEQ', 10), '==': ('EQ', 9), '!=': ('N_EQ', 9), '&': ('I_AND', 8),
       '^': ('X_OR', 7), '|': ('I_OR', 6), '&&': ('L_AND', 5), '||': ('L_OR', 4)}
ASG = {'=': None, '+=': 'ADD', '-=': 'SUB', '/=': 'DIV', '<<=': 'LSHIFT', '>>=': 'RSHIFT', '^=': 'X_OR'}
PRE = {'++': 'INC', '--': 'DEC', '!': 'NEGATE', '&': 'ADDR', '*': 'DEREF', '-': 'MINUS', '~': 'ONES_COMP'}


def par(e, p):
    return e[1] if e[0] >= p else '(%s)' % e[1]


def glue(a, b):
    return a + (' ' if b[:1] and a[-1] == b[0] and b[0] in '+-&' else '') + b


def OPS(op, *a):
    """An operator applied to expressions."""
    t = [x[2] for x in a]
    if op in BIN:
        n, p = BIN[op]
        return p, '%s %s %s' % (par(a[0], p), op, par(a[1], p + .5)), N('T_' + n, LHS=t[0], RHS=t[1])
    if op in ASG:
        r = N('T_' + ASG[op], LHS=t[0], RHS=t[1]) if ASG[op] else t[1]
        return 2, '%s %s %s' % (par(a[0], 14), op, par(a[1], 2)), N('T_ASSIGN', LHS=t[0], RHS=r)
    if op[:3] == 'pre':
        o = op[3:]
        q = 14 if o in ('++', '--') else 13.5
        return 14, glue(o, par(a[0], q)), N('T_' + PRE[o], EXP=t[0])
    if op == 'x++':
        return 15, par(a[0], 15) + '++', N('T_P_INC', EXP=t[0])
    if op == 'x--':
        return 15, par(a[0], 15) + '--', N('T_P_DEC', EXP=t[0])
    if op == 'sizeof':
        return 14, 'sizeof ' + par(a[0], 14), N('T_SIZEOF', EXP=t[0])
    if op == 'sizeof()':
        return 14, 'sizeof(%s)' % a[0][1], N('T_SIZEOF', EXP=t[0])
    if op == '?:':
        return 3, '%s ? %s : %s' % (par(a[0], 4), a[1][1], par(a[2], 3)), N('T_INFIX', COND=t[0], TRUE_STMT=t[1], FALSE_STMT=t[2])
    if op == ',':
        return 1, '%s, %s' % (par(a[0], 1), par(a[1], 2)), N('T_EXPR_LIST', CHAIN=(t[0][1]['CHAIN'] if a[0][0] == 1 else [t[0]]) + [t[1]])
    if op == '[]':
        return 15, '%s[%s]' % (par(a[0], 15), a[1][1]), N('T_ARRAY_ACCESS', OBJ=t[0], IDX=t[1])
    if op == '.':
        return 15, par(a[0], 15) + '.m', N('T_COMP_ACCESS', OBJ=t[0], MEMBER=I('m'))
    if op == '->':
        return 15, par(a[0], 15) + '->m', N('T_COMP_ACCESS', OBJ=N('T_DEREF', EXP=t[0]), MEMBER=I('m'))
    if op[:4] == 'call':
        return 15, '%s(%s)' % (par(a[0], 15), ', '.join(par(x, 2) for x in a[1:])), N('T_FN_CALL', ID=t[0], ARGS=list(t[1:]))
    if op[:4] == 'cast':
        s, ts = TYPES[op[4:]]
        return 13.5, '(%s)%s' % (s, par(a[0], 13.5)), N('T_CAST', NEWTYPE=ts, EXP=t[0])
    raise KeyError(op)


def TS(specs, decl=None):
    return N('T_TYPE_SPECIFIER', SPECS=specs, DECL=decl)


def S(*n):
    return [N('T_%s_TS' % x.upper()) for x in n]


TYPES = {
    'int': ('int', TS(S('int'))), 'ul': ('unsigned long', TS(S('unsigned', 'long'))), 'T': ('T', TS([I('T')])),
    'p': ('char *', TS(S('char'), N('T_POINTER'))), 'st': ('struct s', TS([N('T_DECL_COMPOUND', TYPE='struct', ID=I('s'))])),
    'fp': ('int (*)(int)', TS(S('int'), N('T_FN', DECL=N('T_POINTER'), ARGS=[N('T_DECL', SPECS=S('int'))]))),
    'arr': ('T [4]', TS([I('T')], N('T_ARRAY', SZ=K(4)))),
    'en': ('enum e', TS([N('T_ENUMERATOR', NAME=I('e'))])), 'pp': ('T **', TS([I('T')], N('T_POINTER', EXP=N('T_POINTER')))),
}
ARITY = {**{o: 2 for o in BIN}, **{o: 2 for o in ASG}, **{'pre' + o: 1 for o in PRE}, 'x++': 1, 'x--': 1, 'sizeof': 1, 'sizeof()': 1, '?:': 3, ',': 2,
         '[]': 2, '.': 1, '->': 1, 'call': 1, 'call1': 2, 'call2': 3, 'castint': 1, 'castT': 1, 'castp': 1, 'castfp': 1}
FEW = ['*', '-', '<<', '<', '==', '&', '^', '|', '&&', '||', '=', '-=', 'pre-', 'pre*', 'pre++', 'pre!', 'x++', 'sizeof', '?:', ',', '[]', '.', '->', 'call2', 'castT', 'castp']
VARS = 'abcdefghijklmn'


def leaf(i):
    return 16, VARS[i % len(VARS)], I(VARS[i % len(VARS)])


def ok(op, pos, e):
    """Whether an expression can stand at an operand's position (the left of an assignment is a unary expression)."""
    return True


def expressions(deep):
    """All operators, all pairs, and all triples of a smaller set."""
    n = itertools.count()

    def fresh(k):
        return [leaf(next(n)) for _ in range(k)]
    for op in ARITY:
        yield op, OPS(op, *fresh(ARITY[op]))
    for o1 in ARITY:
        for pos in range(ARITY[o1]):
            for o2 in ARITY:
                a = fresh(ARITY[o1])
                a[pos] = OPS(o2, *fresh(ARITY[o2]))
                yield '%s with %s as operand %d' % (o1, o2, pos), OPS(o1, *a)
    for o1 in FEW if not deep else ARITY:
        for p1 in range(ARITY[o1]):
            for o2 in FEW:
                for p2 in range(ARITY[o2]):
                    for o3 in FEW:
                        b = fresh(ARITY[o2])
                        b[p2] = OPS(o3, *fresh(ARITY[o3]))
                        a = fresh(ARITY[o1])
                        a[p1] = OPS(o2, *b)
                        yield '%s %d %s %d %s' % (o1, p1, o2, p2, o3), OPS(o1, *a)
    # both operands
    for o1 in FEW:
        if ARITY[o1] >= 2:
            for o2, o3 in itertools.product(FEW, repeat=2):
                a = [OPS(o2, *fresh(ARITY[o2])), OPS(o3, *fresh(ARITY[o3]))] + fresh(ARITY[o1] - 2)
                yield '%s of %s and %s' % (o1, o2, o3), OPS(o1, *a)


def constants():
    for s, v in [('0', 0), ('1', 1), ('007', 7), ('0x1F', 31), ('0XfFu', 255), ('4294967296', 1 << 32), ('18446744073709551615UL', (1 << 64) - 1), ('12ll', 12), ('5LU', 5),
                 ("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\''", 39), ("'\\\\'", 92), ("'\\x41'", 65), ("'\\377'", -1), ("'\"'", 34), ('0x7fffffffffffffff', (1 << 63) - 1)]:
        yield s, (16, s, K(v))
        yield '-' + s, (14, '- ' + s, N('T_MINUS', EXP=K(v)))
    for s, v in [('0.0', '0'), ('1.5', '1.5'), ('0.1', '0.1'), ('0.0000001', '0.0000001'), ('0.00000015', '0.00000015'), ('123456789.123456789', '123456789.123456789'), ('2.50', '2.5'), ('00.25', '0.25'), ('1234567.0', '1234567')]:
        yield s, (16, s, N('T_FLOAT', VAL=v))
        yield '-' + s, (14, '-' + s, N('T_MINUS', EXP=N('T_FLOAT', VAL=v)))
    chars = [chr(c) for c in range(32, 127)]
    src = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\x01': '\\1', '\xff': '\\377', '\x7f': '\\x7f', '?': '?'}
    dmp = {'"': '\\"', '\\': '\\\\', '\n': '\\n'}
    sp = ['"', '\\', '\n', '\t', '\xff', 'a', '>', '<', '%', ';', '}', "'", ' ']
    strs = [''] + chars + list('\t\n\r\x01\xff\x7f') + [a + b for a in sp for b in sp] + ['%s%d%n', '/* no */', '// no', '"]; tree_0 [label="', 'x">\n  <tree T_INTEGER tINT_VAL: 3>', '<null>', 'T_ADD', 'a' * 3000, 'ab"' * 50, '\\n']
    strs += [a + b + c for a in '"\\n\n' for b in '"\\n\n' for c in '"\\n\n']
    for t in strs:
        yield 'string %r' % t[:20], (16, '"%s"' % ''.join(src.get(c, c) for c in t), N('T_STRING', VAL='"%s"' % ''.join(dmp.get(c, c) for c in t)))
    for n in ('_', 'a1', 'A_b', '_x9', 'T_ADD', 'intx', 'ifx', 'x' * 300, 'Mm', 'returned', 'sizeofx', 'structs', 'null', 'chain', 'tree'):
        yield 'identifier ' + n, (16, n, I(n))
    for t, (s, ts) in TYPES.items():
        yield 'sizeof(%s)' % s, (14, 'sizeof(%s)' % s, N('T_SIZEOF', EXP=ts))
        yield 'cast to ' + s, (14, '(%s)a' % s, N('T_CAST', NEWTYPE=ts, EXP=I('a')))


# -- statements: (source, tree as the body of something, tree in a block)
def stmt_e(e):
    return e[1] + ';', e[2]


def chainable(t):
    """A block within a block is a node of its own."""
    return N('T_BLOCK', STMTS=t) if isinstance(t, list) else t


X = ('x = 1;', N('T_ASSIGN', LHS=I('x'), RHS=K(1)))
Y = ('y();', N('T_FN_CALL', ID=I('y')))
SIMPLE = {'x': X, 'y': Y, ';': (';', N('T_EMPTY')), '{}': ('{ }', N('T_EMPTY')), 'ret': ('return;', N('T_RETURN')), 'retx': ('return x;', N('T_RETURN', EXP=I('x'))), 'brk': ('break;', N('T_BREAK')),
          'repl': ('<REPL>;', N('T_REPL')), 'list': ('x, y;', N('T_EXPR_LIST', CHAIN=[I('x'), I('y')]))}
DECLS = {'int': ('int v;', N('T_DECL', SPECS=S('int'), DECLS=[I('v')])), 'init': ('T w = 2, *z;', N('T_DECL', SPECS=[I('T')], DECLS=[N('T_ASSIGN', LHS=I('w'), RHS=K(2)), N('T_POINTER', EXP=I('z'))])),
         'mul': ('a * v;', N('T_MUL', LHS=I('a'), RHS=I('v'))), 'tmul': ('T * v;', N('T_DECL', SPECS=[I('T')], DECLS=[N('T_POINTER', EXP=I('v'))]))}
COMPOUND = ['{1', '{2', 'if', 'ifelse1', 'ifelse2', 'while', 'for', 'forx', 'ford', 'fore', '{d']


def compound(k, b):
    s, t = b
    if k == '{1':
        return '{ %s }' % s, [chainable(t)]
    if k == '{2':
        return '{ y(); %s x = 1; }' % s, [Y[1], chainable(t), X[1]]
    if k == '{d':
        return '{ int v; %s T u; }' % s, [DECLS['int'][1], chainable(t), N('T_DECL', SPECS=[I('T')], DECLS=[I('u')])]
    if k == 'if':
        return 'if (c) %s' % s, N('T_IF', COND=I('c'), TRUE_STMTS=t)
    if k == 'ifelse1':
        # the else belongs to the nearest if
        if re.search(r'\bif\b', s):
            return None
        return 'if (c) %s else y();' % s, N('T_IF', COND=I('c'), TRUE_STMTS=t, ELSE_STMTS=Y[1])
    if k == 'ifelse2':
        return 'if (c, d) x = 1; else %s' % s, N('T_IF', COND=N('T_EXPR_LIST', CHAIN=[I('c'), I('d')]), TRUE_STMTS=X[1], ELSE_STMTS=t)
    if k == 'while':
        return 'while (c) %s' % s, N('T_LOOP_WHILE', COND=I('c'), STMTS=t)
    if k == 'for':
        return 'for (;;) %s' % s, N('T_LOOP_FOR', INIT=N('T_EMPTY'), COND=N('T_EMPTY'), STMTS=t)
    if k == 'forx':
        return 'for (i; j; k) %s' % s, N('T_LOOP_FOR', INIT=I('i'), COND=I('j'), AFTER=I('k'), STMTS=t)
    if k == 'ford':
        return 'for (int v; j; ) %s' % s, N('T_LOOP_FOR', INIT=DECLS['int'][1], COND=I('j'), STMTS=t)
    return 'for (T w = 2, *z; ; k, l) %s' % s, N('T_LOOP_FOR', INIT=DECLS['init'][1], COND=N('T_EMPTY'), AFTER=N('T_EXPR_LIST', CHAIN=[I('k'), I('l')]), STMTS=t)


def statements(deep):
    lv = [(k, s) for k, s in SIMPLE.items()]
    yield from lv
    for d in range(4 if deep else 3):
        nx = []
        for (n, b), k in itertools.product(lv, COMPOUND):
            r = compound(k, b)
            if r:
                nx.append(('%s(%s)' % (k, n), r))
        yield from nx
        lv = nx
        if d == 1:
            lv = [x for x in lv if re.search(r'\((x|\{\}|retx|repl)\)', x[0])]
        if d == 2:
            lv = [x for x in lv if re.search(r'\((x|\{\})\)', x[0])]
    for k, (s, t) in DECLS.items():
        yield k, ('{ %s }' % s, [t])
    for a, b in itertools.product([*SIMPLE.items(), *DECLS.items()], repeat=2):
        yield 'seq %s %s' % (a[0], b[0]), ('{ %s %s }' % (a[1][0], b[1][0]), [chainable(a[1][1]), chainable(b[1][1])])
    # which if an else belongs to
    yield 'else', ('if (a) if (b) x = 1; else y();', N('T_IF', COND=I('a'), TRUE_STMTS=N('T_IF', COND=I('b'), TRUE_STMTS=X[1], ELSE_STMTS=Y[1])))
    yield 'else else', ('if (a) if (b) x = 1; else y(); else ;', N('T_IF', COND=I('a'), TRUE_STMTS=N('T_IF', COND=I('b'), TRUE_STMTS=X[1], ELSE_STMTS=Y[1]), ELSE_STMTS=N('T_EMPTY')))
    yield '{if} else', ('if (a) { if (b) x = 1; } else y();', N('T_IF', COND=I('a'), TRUE_STMTS=[N('T_IF', COND=I('b'), TRUE_STMTS=X[1])], ELSE_STMTS=Y[1]))
    yield 'if while if else', ('if (a) while (b) if (c) x = 1; else y();', N('T_IF', COND=I('a'), TRUE_STMTS=N('T_LOOP_WHILE', COND=I('b'), STMTS=N('T_IF', COND=I('c'), TRUE_STMTS=X[1], ELSE_STMTS=Y[1]))))


# -- declarations
def SC(n):
    return N('T_' + n.upper())


SPECS = {
    'int': S('int'), 'unsigned char': S('unsigned', 'char'), 'long unsigned int': S('long', 'unsigned', 'int'), 'static short': [SC('static')] + S('short'), 'extern long long': [SC('extern')] + S('long', 'long'),
    'register signed': [SC('register')] + S('signed'), 'auto double': [SC('auto')] + S('double'), 'float': S('float'), 'const _Bool': S('bool'), 'T': [I('T')], 'T static': [I('T'), SC('static')],
    'struct s': [N('T_DECL_COMPOUND', TYPE='struct', ID=I('s'))], 'union u': [N('T_DECL_COMPOUND', TYPE='union', ID=I('u'))], 'enum e': [N('T_ENUMERATOR', NAME=I('e'))], 'void': S('void'),
    'struct { int a; T b, *c; }': [N('T_DECL_COMPOUND', TYPE='struct', DECLS=[N('T_DECL', SPECS=S('int'), DECLS=[I('a')]), N('T_DECL', SPECS=[I('T')], DECLS=[I('b'), N('T_POINTER', EXP=I('c'))])])],
    'union v { char a : 3; struct { int d; }; }': [N('T_DECL_COMPOUND', TYPE='union', ID=I('v'), DECLS=[
        N('T_DECL', SPECS=S('char'), DECLS=[N('T_BITFIELD', DECLARATOR=I('a'), SZ=K(3))]), N('T_DECL', SPECS=[N('T_DECL_COMPOUND', TYPE='struct', DECLS=[N('T_DECL', SPECS=S('int'), DECLS=[I('d')])])])])],
    'enum { A, B = 3, C, }': [N('T_ENUMERATOR', ENUMS=[I('A'), N('T_ASSIGN', LHS=I('B'), RHS=K(3)), I('C')])],
    'enum f { D = -1 }': [N('T_ENUMERATOR', NAME=I('f'), ENUMS=[N('T_ASSIGN', LHS=I('D'), RHS=K(-1))])],
    'typedef int': [SC('typedef')] + S('int'),
}
PARAMS = {'': None, 'void': [], 'int': [N('T_DECL', SPECS=S('int'))], 'char *p, T q': [N('T_DECL', SPECS=S('char'), DECLS=N('T_POINTER', EXP=I('p'))), N('T_DECL', SPECS=[I('T')], DECLS=I('q'))],
          'int a, ...': [N('T_DECL', SPECS=S('int'), DECLS=I('a')), N('T_VARIADIC')], 'int a[3]': [N('T_DECL', SPECS=S('int'), DECLS=N('T_POINTER', EXP=I('a')))],
          'int (*f)(int)': [N('T_DECL', SPECS=S('int'), DECLS=N('T_FN', DECL=N('T_POINTER', EXP=I('f')), ARGS=[N('T_DECL', SPECS=S('int'))]))], 'char **': [N('T_DECL', SPECS=S('char'), DECLS=N('T_POINTER', EXP=N('T_POINTER')))],
          'struct s *s': [N('T_DECL', SPECS=[N('T_DECL_COMPOUND', TYPE='struct', ID=I('s'))], DECLS=N('T_POINTER', EXP=I('s')))]}


def declarators(n, depth):
    """All declarators of a name: (source, precedence, tree). A pointer stands outside of what it's applied to."""
    lv = [(n, 1, I(n), '')]
    yield lv[0]
    for d in range(depth):
        nx = []
        for s, p, t, k in lv:
            # the declarator so far is the innermost part; wrap it from the inside out
            q = s if p else '(%s)' % s
            nx.append(('*' + s, 0, ('*', t), k + 'p'))
            nx.append((q + '[3]', 1, ('[]', t, p), k + 'a'))
            for ps in PARAMS if d == 0 else ('', 'char *p, T q'):
                nx.append((q + '(%s)' % ps, 1, ('()', t, ps), k + 'f'))
        yield from nx
        lv = nx


def dtree(t):
    """The parser makes a chain of pointers lead to the declarator they are applied to."""
    if t[0] == '*':
        return N('T_POINTER', EXP=dtree(t[1]))
    if t[0] == '[]':
        return N('T_ARRAY', DECL=dtree(t[1]), SZ=K(3))
    if t[0] == '()':
        return N('T_FN', DECL=dtree(t[1]), ARGS=PARAMS[t[2]])
    return t


def declarations(deep):
    ds = list(declarators('n', 3 if deep else 2))
    for sp in SPECS:
        for s, p, t, k in ds:
            if len(k) > 1 and sp not in ('int', 'T', 'struct s') and not deep:
                continue
            yield '%s %s' % (sp, s), '%s %s;' % (sp, s), N('T_DECL', SPECS=SPECS[sp], DECLS=[dtree(t)])
        if 'typedef' not in sp:
            yield sp, sp + ';', N('T_DECL', SPECS=SPECS[sp])
            yield sp + ' init', '%s n = 1 + 2, m, *l = &m;' % sp, N('T_DECL', SPECS=SPECS[sp], DECLS=[N('T_ASSIGN', LHS=I('n'), RHS=N('T_ADD', LHS=K(1), RHS=K(2))), I('m'), N('T_ASSIGN', LHS=N('T_POINTER', EXP=I('l')), RHS=N('T_ADDR', EXP=I('m')))])
    few = list(declarators('n', 1))
    for a, b in itertools.product(few, few):
        yield '%s, %s' % (a[0], b[0]), 'T %s, %s;' % (a[0], b[0].replace('n', 'o', 1)), N('T_DECL', SPECS=[I('T')], DECLS=[dtree(a[2]), dtree(rename(b[2]))])
        yield 'member %s, %s' % (a[0], b[0]), 'struct q { T %s, %s; int z; } *w;' % (a[0], b[0].replace('n', 'o', 1)), N('T_DECL', SPECS=[N('T_DECL_COMPOUND', TYPE='struct', ID=I('q'), DECLS=[
            N('T_DECL', SPECS=[I('T')], DECLS=[dtree(a[2]), dtree(rename(b[2]))]), N('T_DECL', SPECS=S('int'), DECLS=[I('z')])])], DECLS=[N('T_POINTER', EXP=I('w'))])
    for sp in ('int', 'static T', 'struct s', 'void'):
        for ps in PARAMS:
            for star in ('', '*', '**'):
                t = N('T_FN', DECL=I('n'), ARGS=PARAMS[ps], STMTS=[Y[1], N('T_RETURN', EXP=I('x'))])
                for _ in star:
                    t = N('T_POINTER', EXP=t)
                yield 'function %s %s %s' % (sp, star, ps), '%s %sn(%s) { y(); return x; }' % (sp, star, ps), N('T_DECL', SPECS=SPECS.get(sp) or [SC('static'), I('T')], DECLS=[t])


def rename(t):
    if t[0] == 'T_IDENTIFIER':
        return I('o')
    return t[:1] + (rename(t[1]),) + t[2:]


HEADERS = ['assert', 'ctype', 'dirent', 'dlfcn', 'errno', 'fcntl', 'getopt', 'grp', 'inttypes', 'limits', 'locale', 'netdb', 'poll', 'pthread', 'pwd', 'regex', 'sched', 'search', 'semaphore', 'setjmp', 'signal', 'stdarg', 'stddef', 'stdint',
           'stdio', 'stdlib', 'string', 'strings', 'sys/socket', 'sys/stat', 'sys/time', 'sys/types', 'sys/wait', 'syslog', 'termios', 'time', 'unistd', 'utime', 'wchar', 'wctype', 'arpa/inet', 'netinet/in', 'glob', 'fnmatch', 'ftw', 'iconv']
EFFECTS = ['puts("effect");', 'int main(int argc, char **argv) { puts("effect"); return 3; }', 'int x = puts("effect");', 'static int y = 1 / 0;', 'abort();', 'exit(5);', 'undeclared(1);', '*(int *)0 = 1;', 'while (1) ;',
           'int a[puts("effect")];', 'enum { E = 1 / 0 };', 'struct nope x;', 'int x; int x;', 'return 7;', 'break;', '<REPL>;', 'int f(void) { return f(); } f();', 'int main(void) { for (;;) ; }', 'puts("effect"); int main() { return 3; }',
           'fopen("effect", "w");', 'extern int nowhere;', 'extern void nowhere(void); nowhere();', 'int z = sizeof(struct nope);', 'typedef int T; T T;', 'int puts(const char *); puts("effect"); exit(3);',
           'int system(const char *); system("echo effect > effect");', '1 = 2;', 'f(1)(2)(3);', 'int main(void) { <REPL>; return 4; }']
MALFORMED = ['x = ;', 'int main() { return 0; ', '}', 'int main() { if }', '"abc', "'ab';", 'int x', 'puts("effect"); +', 'f(,);', 'else ;', 'int a[;', 'struct { int };', '@', '0x;', '#include <nonexistent/header.h>', '#error no']
OPTS = {'text': ['-T'], 'dot': ['-T', '-D'], 'tod': ['-D', '-T'], 'both': ['-DT'], 'inc': ['-I', '/nonexistent', '-T'], 'lib': ['-T', '-l', 'm'], 'twice': ['-T', '-T']}


def fold(n, f, e):
    for i in range(n):
        e = f(i, e)
    return e


def F(name, args, *stmts):
    return N('T_DECL', SPECS=S('int'), DECLS=[N('T_FN', DECL=I(name), ARGS=args, STMTS=list(stmts))])


def ints(n, k='p'):
    return [N('T_DECL', SPECS=S('int'), DECLS=I('%s%d' % (k, i)) if k == 'p' else [I('%s%d' % (k, i))]) for i in range(n)]


# programs with a size: (text, tree of the only item), up to a limit
SIZED = {
    'sum': (513, lambda n: fold(n, lambda i, e: OPS('+-'[i % 2], e, leaf(i)), leaf(0))),
    'right': (129, lambda n: fold(n, lambda i, e: OPS('*-'[i % 2], leaf(i), e), leaf(0))),
    'assignments': (257, lambda n: fold(n, lambda i, e: OPS('=', leaf(i), e), leaf(0))),
    'conditions': (257, lambda n: fold(n, lambda i, e: OPS('?:', leaf(i), leaf(i + 1), e), leaf(0))),
    'indices': (129, lambda n: fold(n, lambda i, e: OPS('[]', leaf(i), e), leaf(0))),
    'elements': (257, lambda n: fold(n, lambda i, e: OPS(('[]', '.', '->')[i % 3], e, *[leaf(i)][:i % 3 == 0]), leaf(0))),
    'unaries': (257, lambda n: fold(n, lambda i, e: OPS(('pre!', 'pre~', 'pre*')[i % 3], e), leaf(0))),
    'calls': (129, lambda n: fold(n, lambda i, e: OPS('call2', leaf(i), leaf(i), e), leaf(0))),
    'arguments': (1025, lambda n: OPS('call', *[leaf(i * i) for i in range(n + 1)])),
    'commas': (1025, lambda n: fold(n, lambda i, e: OPS(',', e, leaf(i)), leaf(0))),
    'casts': (129, lambda n: fold(n, lambda i, e: OPS('cast' + ('int', 'p', 'T')[i % 3], e), leaf(0))),
    'string': (4097, lambda n: (16, '"%s"' % ('string ' * n)[:n], N('T_STRING', VAL='"%s"' % ('string ' * n)[:n]))),
    'name': (2049, lambda n: (16, 'g%s' % ('name_' * n)[:n], I('g%s' % ('name_' * n)[:n]))),
    'statements': (2049, lambda n: ('int f(void) { %s }' % ''.join((X[0], Y[0], 'return a;')[i * i % 3] for i in range(n)), F('f', [], *[(X[1], Y[1], N('T_RETURN', EXP=I('a')))[i * i % 3] for i in range(n)]))),
    'blocks': (129, lambda n: (lambda s, t: ('int f(void) { x = 1; %s }' % s, F('f', [], X[1], t)))(*fold(n, lambda i, e: ('{ y(); %s }' % e[0], N('T_BLOCK', STMTS=[Y[1], e[1]])), X))),
    'ifs': (129, lambda n: fold(n, lambda i, e: ('if (c) %s else y();' % e[0], N('T_IF', COND=I('c'), TRUE_STMTS=e[1], ELSE_STMTS=Y[1])), X)),
    'else ifs': (257, lambda n: fold(n, lambda i, e: ('if (c) y(); else %s' % e[0], N('T_IF', COND=I('c'), TRUE_STMTS=Y[1], ELSE_STMTS=e[1])), X)),
    'loops': (129, lambda n: fold(n, lambda i, e: ('while (c) %s' % e[0], N('T_LOOP_WHILE', COND=I('c'), STMTS=e[1])), X)),
    'members': (1025, lambda n: ('struct s { %s };' % ' '.join('int m%d;' % i for i in range(n)), N('T_DECL', SPECS=[N('T_DECL_COMPOUND', TYPE='struct', ID=I('s'), DECLS=ints(n, 'm'))]))),
    'enumerators': (1025, lambda n: ('enum e { %s };' % ', '.join('A%d' % i for i in range(n)), N('T_DECL', SPECS=[N('T_ENUMERATOR', NAME=I('e'), ENUMS=[I('A%d' % i) for i in range(n)])]))),
    'declarators': (1025, lambda n: ('int %s;' % ', '.join('d%d' % i for i in range(n)), N('T_DECL', SPECS=S('int'), DECLS=[I('d%d' % i) for i in range(n)]))),
    'parameters': (257, lambda n: ('int f(%s) { x = 1; y(); }' % ', '.join('int p%d' % i for i in range(n)), F('f', ints(n), X[1], Y[1]))),
    'stars': (65, lambda n: (lambda e: ('int %sq;' % ('*' * n), N('T_DECL', SPECS=S('int'), DECLS=[e])))(fold(n, lambda i, e: N('T_POINTER', EXP=e), I('q')))),
}
sys.setrecursionlimit(200000)


class C22(engine.Check):
    pid = 'C22'
    rule = 'a case is a fragment of a program; the dump of the program that consists of 40 of them, as text and as a graph, parsed back, must be the tree the fragments stand for, and nothing may be executed; a transition is one dumped fragment'
    space = ('expressions: %d operators, all pairs at every operand, all triples over %d of them, pairs at both operands; %d constants, strings and names; statements nested 3 (thorough 4) deep; specifiers x declarators nested '
             '2 (thorough 3) deep, members, parameters, function definitions; all sequences of <= 3 of 9 top-level items; programs with %d kinds of effects and errors, and %d malformed ones, x 7 spellings of the options; %d system headers, '
             'real program; 23 kinds of fragment and sequences of items at all sizes of a list (depths to 513, lists to 2049, thorough twice that); text and graph for all of these' % (len(ARITY), len(FEW), len(list(constants())), len(EFFECTS), len(MALFORMED), len(HEADERS)))
    assumptions = ['type qualifiers are not part of the tree (bic ignores them)', 'for system headers the two formats are compared with each other']
    conformance_every = 23

    def cases(self):
        for i, (n, e) in enumerate(expressions(self.deep)):
            yield 'E', n, e[1], e[2]
        for n, e in constants():
            yield 'E', n, e[1], e[2]
        for n, (s, t) in statements(self.deep):
            yield 'S', n, s, t
        for n, s, t in declarations(self.deep):
            yield 'D', n, s, t

    def groups(self):
        g = []
        for c in self.cases():
            g.append(c)
            if len(g) == 40:
                yield [(c, 'text') for c in g]
                yield [(c, 'dot') for c in g]
                g = []
        yield [(c, 'text') for c in g]
        yield [(c, 'dot') for c in g]
        for n in range(4):
            for it in itertools.product(range(9), repeat=n):
                yield [(('P', it), 'text')]
                yield [(('P', it), 'dot')]
        for e in EFFECTS:
            for o in OPTS:
                yield [(('F', e), o)]
        for e in MALFORMED:
            for o in OPTS:
                yield [(('M', e), o)]
        for h in HEADERS:
            yield [(('H', h), 'both')]
        for k, (lim, _) in SIZED.items():
            for n in scale.SIZES:
                if n <= lim * (2 if self.deep else 1):
                    yield [(('Z', k, n), 'text')]
                    yield [(('Z', k, n), 'dot')]
        for n in scale.SIZES:
            if n <= (4097 if self.deep else 1025):
                for o in ('text', 'dot'):
                    yield [(('P', tuple(i * i * 7 % 31 % 9 for i in range(n))), o)]

    ITEMS = [('int a;', N('T_DECL', SPECS=S('int'), DECLS=[I('a')])), ('x = 1;', X[1]), ('{ y(); }', N('T_BLOCK', STMTS=[Y[1]])), ('int f(void) { }', N('T_DECL', SPECS=S('int'), DECLS=[N('T_FN', DECL=I('f'), ARGS=[], STMTS=N('T_EMPTY'))])),
             (';', N('T_EMPTY')), ('if (c) { } else x = 1;', N('T_IF', COND=I('c'), TRUE_STMTS=N('T_EMPTY'), ELSE_STMTS=X[1])), ('struct s { int a; };', N('T_DECL', SPECS=[N('T_DECL_COMPOUND', TYPE='struct', ID=I('s'), DECLS=[N('T_DECL', SPECS=S('int'), DECLS=[I('a')])])])),
             ('int main(int argc, char **argv) { return 0; }', N('T_DECL', SPECS=S('int'), DECLS=[N('T_FN', DECL=I('main'), ARGS=[N('T_DECL', SPECS=S('int'), DECLS=I('argc')), N('T_DECL', SPECS=S('char'), DECLS=N('T_POINTER', EXP=N('T_POINTER', EXP=I('argv'))))], STMTS=[N('T_RETURN', EXP=K(0))])])),
             ('"str";', N('T_STRING', VAL='"str"'))]

    def key(self, c):
        c, o = c
        if c[0] == 'P':
            return '%s, items %s' % (o, ''.join(map(str, c[1])) if len(c[1]) < 10 else '(%d)' % len(c[1]))
        if c[0] == 'Z':
            return '%s, %s of size %d' % (o, *c[1:])
        return '%s, %s%s' % (o, c[1], ': ' + c[2] if len(c) > 2 else '')

    def program(self, cases):
        """(text, tree)"""
        c = cases[0][0]
        if c[0] in 'FHM':
            return c[1] + '\n' if c[0] != 'H' else '#include <%s.h>\n' % c[1], None
        if c[0] == 'Z':
            e = SIZED[c[1]][1](c[2])
            return ('typedef int T;\n' + (e[1] + ';\n' if len(e) == 3 else e[0] + '\n'),
                    [N('T_DECL', SPECS=[SC('typedef')] + S('int'), DECLS=[I('T')]), e[-1]])
        if c[0] == 'P':
            return '\n'.join(self.ITEMS[i][0] for i in c[1]) + '\n', [self.ITEMS[i][1] for i in c[1]]
        s, t = 'typedef int T;\n', [N('T_DECL', SPECS=[SC('typedef')] + S('int'), DECLS=[I('T')])]
        for (k, _, src, tr), _ in cases:
            if k == 'D':
                # the name of a typedef must not become a type for the other fragments
                j = 'n%d' % len(t) if src.startswith('typedef') else None
                if j:
                    src, tr = re.sub(r'\bn\b', j, src), sub(tr, 'n', j)
                s += src + '\n'
                t.append(tr)
            elif k == 'S' and (len(t) & 1 or isinstance(tr, list)):
                # in a function's body
                s += 'int f() { %s }\n' % src
                t.append(N('T_DECL', SPECS=S('int'), DECLS=[N('T_FN', DECL=I('f'), STMTS=[chainable(tr)])]))
            elif k == 'E' and len(t) % 3 == 0:
                s += 'int f = %s;\n' % (src if OPS_TOP(tr) else '(%s)' % src)
                t.append(N('T_DECL', SPECS=S('int'), DECLS=[N('T_ASSIGN', LHS=I('f'), RHS=tr)]))
            else:
                s += src + (';\n' if k == 'E' else '\n')
                t.append(chainable(tr) if k == 'S' else tr)
        return s, t

    def request(self, cases):
        return 'script', dict(text=self.program(cases)[0], pre=OPTS[cases[0][1]], timeout=20000)

    def execute(self, h, cases):
        c, o = cases[0]
        if c[0] in 'FHM':
            d = os.path.join(h.scratch, 'd')
            os.makedirs(d, exist_ok=True)
            with open(d + '/t.c', 'w') as f:
                f.write(self.program(cases)[0])
            if c[0] != 'H':
                r = h.real([*OPTS[o], '-s', 't.c'], cwd=d)
                if os.path.exists(d + '/effect'):
                    os.unlink(d + '/effect')
                    r.out += 'a file was made'
                return r
            r = h.real(['-T', '-s', 't.c'], cwd=d, timeout=60)
            r.want = h.real(['-T', '-D', '-s', 't.c'], cwd=d, timeout=60)
            return r
        return super().execute(h, cases)

    def execute_real(self, h, cases):
        return None if cases[0][0][0] in 'FHM' else super().execute_real(h, cases)

    def judge(self, cases, res):
        c, o = cases[0]
        if c[0] == 'M':
            if res.rc in (None, 0) or '<tree' in res.err or 'digraph' in res.err:
                return 'a malformed program is dumped (%s)' % res.ended
        elif res.rc != 0:
            return 'ended with %s: %.300s' % (res.ended, res.err)
        if res.out:
            return 'printed %.100r' % res.out
        if c[0] == 'M':
            return None
        dot = 'D' in ''.join(OPTS[o])
        try:
            got = parse_dot(res.err) if dot and c[0] != 'H' else parse_text(res.err)
            if c[0] == 'H':
                if res.want.rc != 0 or res.want.out:
                    return 'the graph ended with %s' % res.want.ended
                graph = parse_dot(res.want.err)
                return same(norm(graph), norm(got)) or (None if graph or c[1] in ('stdarg', 'assert', 'limits') else 'nothing is dumped')
        except (ValueError, KeyError, IndexError) as e:
            return 'the dump is malformed: %s' % e
        if c[0] == 'F':
            n = sorted(re.findall(r'[A-Za-z_]\w*', re.sub(r'"[^"]*"', '', c[1])))
            l = sorted(leaves(got))
            l = [x for x in l]
            for x in re.findall(r'"([^"]*)"', c[1]):
                if '"%s"' % x not in l:
                    return 'the string %r is missing' % x
            for x in n:
                if x not in KW and '"%s"' % x not in l:
                    return 'the name %s is missing' % x
            return None
        want = self.program(cases)[1]
        r = same(norm(want), norm(got))
        if r:
            m = re.match(r'\[(\d+)\]', r)
            if m and c[0] not in 'PZ' and 0 < int(m.group(1)) <= len(cases):
                r = '%s: %s' % (self.key(cases[int(m.group(1)) - 1]), r)
        return r


KW = set('int char void static extern typedef struct union enum for while if else return break sizeof const REPL'.split())


def leaves(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, list):
        for x in t:
            yield from leaves(x)
    elif t:
        for x in t[1].values():
            yield from leaves(x)


def sub(t, a, b):
    if isinstance(t, str):
        return '"%s"' % b if t == '"%s"' % a else t
    if isinstance(t, list):
        return [sub(x, a, b) for x in t]
    if t is None:
        return t
    return t[0], {k: sub(v, a, b) for k, v in t[1].items()}


def OPS_TOP(t):
    """Whether it can initialise an object without parentheses."""
    return t[0] != 'T_EXPR_LIST'


if __name__ == '__main__':
    sys.exit(engine.main(C22))
