"""A small executable model of C's abstract machine: int objects, functions,
lexical scopes, static objects, structured statements.

Programs are trees of tuples, rendered to C text by `ctext`/`stext` and executed
by `Machine`. The machine counts its steps (transitions) and records the states
it passes through; it raises Undefined where C gives the program no meaning, so
that enumerated programs without one are left out.

Expressions
  ('n', int)  ('v', name)  ('bin', op, a, b)  ('un', op, a)
  ('pre', '++'|'--', name) ('post', '++'|'--', name)
  ('as', op, name, e)  op in = += -= ...
  ('?', c, a, b)  (',', a, b)  ('call', f, [args])  ('par', e)
Statements
  ('e', expr) ('d', name, init|None) ('ds', name, init|None)   declarations
  ('b', [stmts]) ('if', c, then, else|None) ('w', c, body)
  ('f', init, c, step, body)  init: None | expr | ('d', ...)
  ('k',) break  ('r', e|None)  ('o', tag, [exprs])  output   (';',) empty
"""
import functools

PREC = {',': 1, '=': 2, '?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8,
        '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11,
        '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
MIN, MAX = -(1 << 31), (1 << 31) - 1


class Undefined(Exception):
    pass


class StepLimit(Exception):
    pass


def prec(e):
    k = e[0]
    if k == 'bin':
        return PREC[e[1]]
    if k == 'as':
        return 2
    if k == '?':
        return 3
    if k == ',':
        return 1
    if k in ('un', 'pre'):
        return 14
    if k == 'n' and e[1] < 0:
        return 14
    return 16


def ctext(e, sp=' '):
    """Minimal parentheses."""
    k = e[0]

    def sub(x, p):
        t = ctext(x, sp)
        return '(' + t + ')' if prec(x) < p else t
    if k == 'n':
        return str(e[1])
    if k == 'v':
        return e[1]
    if k == 'par':
        return '(' + ctext(e[1], sp) + ')'
    if k == 'bin':
        p = PREC[e[1]]
        return join(join(sub(e[2], p), e[1], sp), sub(e[3], p + 1), sp)
    if k == 'un':
        return join(e[1], sub(e[2], 14), '')
    if k == 'pre':
        return e[1] + e[2]
    if k == 'post':
        return e[2] + e[1]
    if k == 'as':
        return join(join(e[2], e[1], sp), sub(e[3], 2), sp)
    if k == '?':
        t = join(sub(e[1], 4), '?', sp)
        t = join(t, sub(e[2], 1), sp)
        t = join(t, ':', sp)
        return join(t, sub(e[3], 3), sp)
    if k == ',':
        return join(join(sub(e[1], 1), ',', sp), sub(e[2], 2), sp)
    if k == 'call':
        return e[1] + '(' + (',' + sp).join(sub(a, 2) for a in e[2]) + ')'
    raise AssertionError(e)


def full(e):
    """Every operator in parentheses."""
    k = e[0]
    if k in ('n', 'v', 'post', 'call'):
        return ctext(e)
    if k == 'par':
        return full(e[1])
    if k == 'bin':
        return '(%s%s%s)' % (full(e[2]), e[1], full(e[3]))
    if k == 'un':
        return '(%s%s)' % (e[1], full(e[2]))
    if k == 'pre':
        return '(%s)' % ctext(e)
    if k == 'as':
        return '(%s%s%s)' % (e[2], e[1], full(e[3]))
    if k == '?':
        return '(%s?%s:%s)' % (full(e[1]), full(e[2]), full(e[3]))
    if k == ',':
        return '(%s,%s)' % (full(e[1]), full(e[2]))
    raise AssertionError(e)


def munches(a, b):
    """Would the end of a and the start of b be read as one token?"""
    x, y = a[-1:], b[:1]
    return x + y in ('++', '--', '&&', '||', '<<', '>>', '->', '==') or \
        (y == '=' and x in '+-*/%&|^<>=!') or (x.isalnum() and y.isalnum())


def join(a, b, sp):
    if sp or not munches(a, b):
        return a + sp + b
    return a + ' ' + b


def stext(s, ind=1):
    t = '    ' * ind
    k = s[0]
    if k == 'e':
        return t + ctext(s[1]) + ';\n'
    if k in ('d', 'ds'):
        return t + ('static ' if k == 'ds' else '') + 'int ' + s[1] + \
            ('' if s[2] is None else ' = ' + ctext(s[2])) + ';\n'
    if k == 'b':
        return t + '{\n' + ''.join(stext(x, ind + 1) for x in s[1]) + t + '}\n'
    if k == 'if':
        r = t + 'if (%s)\n' % ctext(s[1]) + stext(s[2], ind + 1)
        if s[3] is not None:
            r += t + 'else\n' + stext(s[3], ind + 1)
        return r
    if k == 'w':
        return t + 'while (%s)\n' % ctext(s[1]) + stext(s[2], ind + 1)
    if k == 'f':
        i = ';' if s[1] is None else stext(s[1], 0).strip() if s[1][0] == 'd' else ctext(s[1]) + ';'
        return t + 'for (%s %s; %s)\n' % (i, '' if s[2] is None else ctext(s[2]),
                                          '' if s[3] is None else ctext(s[3])) + stext(s[4], ind + 1)
    if k == 'k':
        return t + 'break;\n'
    if k == 'r':
        return t + ('return;\n' if s[1] is None else 'return %s;\n' % ctext(s[1]))
    if k == 'o':
        return t + 'printf("%s%s;"%s);\n' % (s[1], ' %d' * len(s[2]), ''.join(', ' + ctext(e) for e in s[2]))
    if k == ';':
        return t + ';\n'
    raise AssertionError(s)


def always_else(s):
    """Does this statement end in an `if' that would take a following else?"""
    k = s[0]
    if k == 'if':
        return True if s[3] is None else always_else(s[3])
    if k == 'w':
        return always_else(s[2])
    if k == 'f':
        return always_else(s[4])
    return False


class _Break(Exception):
    pass


class _Return(Exception):
    pass


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


def binop(op, x, y):
    if op == '+': r = x + y
    elif op == '-': r = x - y
    elif op == '*': r = x * y
    elif op in ('/', '%'):
        if y == 0:
            raise Undefined
        q = abs(x) // abs(y)
        q = -q if (x < 0) != (y < 0) else q
        r = q if op == '/' else x - q * y
    elif op == '&': r = x & y
    elif op == '|': r = x | y
    elif op == '^': r = x ^ y
    elif op in ('<<', '>>'):
        if not 0 <= y < 32 or (op == '<<' and x < 0):
            raise Undefined
        r = x << y if op == '<<' else x >> y
    else:
        r = int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y,
                 '==': x == y, '!=': x != y}[op])
    if not MIN <= r <= MAX:
        raise Undefined
    return r


class Machine:
    def __init__(self, funcs=None, limit=5000):
        """funcs: name -> ([params], body) or a python callable(machine, args)."""
        self.funcs = funcs or {}
        self.globals = {}
        self.scopes = [self.globals]
        self.statics = {}
        self.out = []
        self.steps = 0
        self.limit = limit
        self.states = set()

    def step(self):
        self.steps += 1
        if self.steps > self.limit:
            raise StepLimit

    def look(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        raise Undefined('undeclared ' + n)

    def ev(self, e):
        self.step()
        k = e[0]
        if k == 'n':
            return e[1]
        if k == 'v':
            v = self.look(e[1]).v
            if v is None:
                raise Undefined('uninitialised')
            return v
        if k == 'par':
            return self.ev(e[1])
        if k == 'bin':
            if e[1] == '&&':
                return int(bool(self.ev(e[2]) and self.ev(e[3])))
            if e[1] == '||':
                return int(bool(self.ev(e[2]) or self.ev(e[3])))
            x = self.ev(e[2])
            return binop(e[1], x, self.ev(e[3]))
        if k == 'un':
            x = self.ev(e[2])
            r = {'-': -x, '~': ~x, '!': int(not x), '+': x}[e[1]]
            if r > MAX:
                raise Undefined
            return r
        if k in ('pre', 'post'):
            c = self.look(e[2])
            if c.v is None:
                raise Undefined
            old = c.v
            c.v = binop('+' if e[1] == '++' else '-', old, 1)
            return c.v if k == 'pre' else old
        if k == 'as':
            v = self.ev(e[3])
            c = self.look(e[2])
            if e[1] != '=':
                if c.v is None:
                    raise Undefined
                v = binop(e[1][:-1], c.v, v)
            c.v = v
            return v
        if k == '?':
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if k == ',':
            self.ev(e[1])
            return self.ev(e[2])
        if k == 'call':
            args = [self.ev(a) for a in e[2]]
            return self.call(e[1], args)
        raise AssertionError(e)

    def call(self, f, args):
        self.step()
        fn = self.funcs[f]
        if callable(fn):
            return fn(self, args)
        params, body = fn
        if len(self.scopes) > 200:
            raise StepLimit
        saved = self.scopes
        # a body sees file scope, its parameters and its own blocks
        self.scopes = [self.globals, {p: Cell(a) for p, a in zip(params, args)}]
        try:
            self.seq(body, self.scopes[1])
            return None
        except _Return as r:
            return r.args[0]
        finally:
            self.scopes = saved

    def declare(self, s):
        if s[0] == 'ds':
            key = id(s)
            if key not in self.statics:
                self.statics[key] = Cell(0 if s[2] is None else self.ev(s[2]))
            self.scopes[-1][s[1]] = self.statics[key]
            return
        c = Cell()
        # the scope of a name starts before its initialiser
        self.scopes[-1][s[1]] = c
        if s[2] is not None:
            c.v = self.ev(s[2])

    def seq(self, stmts, scope):
        for s in stmts:
            self.st(s)

    def st(self, s):
        self.step()
        k = s[0]
        if k == 'e':
            self.ev(s[1])
        elif k in ('d', 'ds'):
            self.declare(s)
        elif k == 'b':
            self.scopes.append({})
            try:
                for x in s[1]:
                    self.st(x)
            finally:
                self.scopes.pop()
        elif k == 'if':
            if self.ev(s[1]):
                self.sub(s[2])
            elif s[3] is not None:
                self.sub(s[3])
        elif k == 'w':
            try:
                while self.ev(s[1]):
                    self.sub(s[2])
            except _Break:
                pass
        elif k == 'f':
            self.scopes.append({})
            try:
                if s[1] is not None:
                    if s[1][0] == 'd':
                        self.declare(s[1])
                    else:
                        self.ev(s[1])
                while s[2] is None or self.ev(s[2]):
                    self.sub(s[4])
                    if s[3] is not None:
                        self.ev(s[3])
            except _Break:
                pass
            finally:
                self.scopes.pop()
        elif k == 'k':
            raise _Break
        elif k == 'r':
            raise _Return(None if s[1] is None else self.ev(s[1]))
        elif k == 'o':
            self.out.append(s[1] + ''.join(' %d' % self.ev(e) for e in s[2]) + ';')
        elif k != ';':
            raise AssertionError(s)
        self.states.add((id(s), tuple(tuple(sorted((n, c.v) for n, c in sc.items()))
                                      for sc in self.scopes)))

    def sub(self, s):
        """A substatement is a block of its own."""
        self.scopes.append({})
        try:
            self.st(s)
        finally:
            self.scopes.pop()

    def run(self, f, args=()):
        """Returns (value, output)."""
        v = self.call(f, list(args))
        return v, ''.join(self.out)
