"""Exploration of REPL sessions: every sequence of lines up to a depth, against
a model of the session.

A line is (text, model): model(state) applies the line and returns what it
prints; ERR when the line must be reported and change nothing; FATAL when it
must be reported and end the program; None when it isn't part of the model in
this state. A text that starts with a tab asks for a completion.
"""
import copy, re, types
import engine, run

ERR, FATAL = ('err',), ('fatal',)
ANY = ('any',)  # what a declaration echoes isn't specified
PTR = re.compile('0x[0-9a-f]+')


def norm(s):
    """Addresses differ from run to run; indentation isn't modelled."""
    return '\n'.join(l.strip() for l in PTR.sub('0xP', s).split('\n'))


class Offer:
    """What a completion offers: the texts that must be among the matches, and those that may."""
    def __init__(self, text, must, may=lambda t: False):
        self.text, self.must, self.may = text, set(must), may

    def wrong(self, out):
        if out[:1] != '\x02' or out[-1:] != '\n':
            return 'completing printed %r' % out[:200]
        m = out[1:-1].split('|') if out[1:-1] else []
        if len(m) > 1:
            if m[0] != self.text:
                return 'the text %r would be replaced by %r' % (self.text, m[0])
            m = m[1:]
        if len(set(m)) != len(m):
            return 'offered more than once: %r' % m
        if self.must - set(m):
            return 'not offered: %r (offered %r)' % (sorted(self.must - set(m)), m)
        x = [t for t in m if t not in self.must and not self.may(t)]
        if x:
            return 'offered, but must not be: %r' % x


class Sessions(engine.Check):
    batch = 8
    prefixes = False    # whether a prefix of a session is a session of its own
    conformance_every = 37
    args = ()

    def alphabets(self):
        """[(label, lines that start the session, lines, depth)]; a depth may be a function of the tier."""
        raise NotImplementedError

    def initial(self):
        return {}

    def options(self, label):
        """Arguments, working directory and environment of the sessions of an alphabet."""
        return {}

    def tables(self):
        if not hasattr(self, '_tab'):
            a = list(self.alphabets())
            self._tab = {x[0]: x for x in a}
            assert len(self._tab) == len(a)
        return self._tab

    def start(self, label):
        st = self.initial()
        for i, (text, m) in enumerate(self.tables()[label][1]):
            st['#line'] = i + 1
            o = m(st)
            assert isinstance(o, str) or o is ANY or o is ERR, (label, text, o)
        return st

    def groups(self):
        for label, pre, ops, depth in self.tables().values():
            g = []
            stack = [((), self.start(label), False)]
            while stack:
                seq, st, dead = stack.pop()
                last = True
                if len(seq) < depth and not dead:
                    for i in reversed(range(len(ops))):
                        s2 = copy.deepcopy(st)
                        s2['#line'] = len(pre) + len(seq) + 1
                        o = ops[i][1](s2)
                        if o is None:
                            continue
                        last = False
                        stack.append((seq + (i,), s2, o is FATAL))
                if (last or self.prefixes) and seq:
                    # shorter sessions are prefixes of these
                    g.append((label, seq))
                    if len(g) == self.batch:
                        yield g
                        g = []
            if g:
                yield g

    def steps(self, c):
        t = self.tables()[c[0]]
        return list(t[1]) + [t[2][i] for i in c[1]]

    def lines(self, c):
        return [x[0] for x in self.steps(c)]

    def key(self, c):
        return c[0] + ': ' + ' | '.join(self.lines(c))

    def trace(self, c):
        """What each line prints, and the states."""
        st = self.initial()
        out, states = [], []
        for i, x in enumerate(self.steps(c)):
            st['#line'] = i + 1     # for loci; completions don't count as lines
            out.append(x[1](st))
            states.append(hash(repr(st)))
        return out, states

    _seen = set()

    def stats(self, cases):
        n = t = 0
        for c in cases:
            for s in self.trace(c)[1]:
                t += 1
                if (c[0], s) not in self._seen:
                    self._seen.add((c[0], s))
                    n += 1
        return n, t

    def request(self, cases):
        return 'session', dict(lines=self.lines(cases[0]), **self.options(cases[0][0]))

    def execute(self, h, cases):
        return [h.session(**self.request([c])[1]) for c in cases]

    def execute_real(self, h, cases):
        r = []
        for c in cases[:2]:
            kw = self.request([c])[1]
            ls = kw.pop('lines')
            if any('\t' in l or len(l) > 70 for l in ls):      # (readline shows only the end of a long line)
                r.append(None)
                continue
            env = dict(e.split('=', 1) for e in kw.pop('env', ()))
            r.append(h.real(list(kw.get('args', ())), cwd=kw.get('cwd'), env=env, stdin=''.join(l + '\n' for l in ls).encode('latin-1')))
        return r

    def judge(self, cases, res):
        for c, r in zip(cases, res):
            if r is None:
                continue
            w = self.judge1(c, r) if isinstance(r, tuple) else self.judge_real(c, r)
            if w:
                return w + ' [session: %s]' % self.key(c) if len(cases) > 1 else w

    def same(self, got, want):
        return norm(got) == norm(want)

    def judge1(self, c, x):
        r, outs, errs = x
        want, _ = self.trace(c)
        ls = self.lines(c)
        for i, w in enumerate(want):
            n = 'line %d (%s): ' % (i + 1, ls[i][:80])
            if i >= len(outs):
                return n + 'the session ended before it: %s; %s' % (r.ended, r.err[-300:])
            o, e = outs[i], errs[i]
            if w in (ERR, FATAL):
                if o:
                    return n + 'must be rejected, printed %r' % o[:200]
                if not e.strip():
                    return n + 'must be rejected, nothing was reported'
                if w is FATAL:
                    if i + 1 < len(outs) or r.ended != 'exit 1':
                        return n + 'must end the session with status 1, ended with ' + r.ended
                    return None
            elif isinstance(w, Offer):
                x = w.wrong(o)
                if x:
                    return n + x + '; reported %r' % e[:200]
            else:
                if w is not ANY and not self.same(o, w):
                    return n + 'must print %r, printed %r; %s %s' % (w, o[:300], r.ended, e[:200])
                if e.strip():
                    return n + 'reported %r' % e[:300]
        if r.ended != 'exit 0' or len(outs) != len(want) + 1 or outs[-1].strip():
            return 'the session ended with %s, %r' % (r.ended, r.err[-200:])
        return None

    def pattern(self, w):
        return re.escape(norm(w))

    def judge_real(self, c, r):
        want, _ = self.trace(c)
        t = ''
        rc = 0
        for l, w in zip(self.lines(c), want):
            t += re.escape(norm('BIC> ' + l + '\n'))
            t += '.*' if w is ANY else self.pattern(w) if isinstance(w, str) else ''
            if w is FATAL:
                rc = 1
                break
        else:
            t += 'BIC>'
        if r.ended != 'exit %d' % rc:
            return 'bic ended with %s: %r' % (r.ended, r.err[-200:])
        if not re.fullmatch(t + r'\s*', norm(r.out), re.S):
            return 'bic printed %r, must print %r' % (r.out, t)
        if (ERR in want or FATAL in want) != bool(r.err.strip()):
            return 'bic reported %r' % r.err[:300]
        return None


EOF = ('\x04', None)     # the session ends, the script goes on


class Scope:
    """The names visible where a script stops: the innermost dict first."""
    def __init__(self, *dicts, out=''):
        self.d = dicts
        self.out = out      # what calls made by the session print

    def __contains__(self, n):
        return any(n in d for d in self.d)

    def __getitem__(self, n):
        for d in self.d:
            if n in d:
                return d[n]
        raise KeyError(n)

    @property
    def inner(self):
        return self.d[0]


class Scripts(Sessions):
    """Scripts that stop for a session. A template is (label, script, model,
    lines, depth): model() is a generator that yields (what was printed, the
    scope) where the script stops, and returns (what was printed, the exit
    status). A session has at most `depth' lines altogether; every interleaving
    of the lines with the ends of the sessions is explored."""
    def templates(self):
        raise NotImplementedError

    def startup(self):
        """The startup file, and what it defines (None: there is none)."""

    def tables(self):
        if not hasattr(self, '_tab'):
            a = list(self.templates())
            self._tab = {x[0]: x for x in a}
            assert len(self._tab) == len(a)
        return self._tab

    def play(self, label, seq):
        """(what every line prints, exit status or None while it runs, states); None when a line isn't part of the model."""
        _, _, model, ops, _ = self.tables()[label]
        g = model()
        o, sc = next(g)
        outs, states = [o], []
        outer = []      # scripts and lines that wait for a call that stopped
        for i in seq:
            o = None if i < 0 else ops[i][1](sc)
            if i >= 0:
                if o is None:
                    return None
                if isinstance(o, types.GeneratorType):     # the line calls a function that stops
                    outer.append((g, sc))
                    g = o
            if i < 0 or isinstance(o, types.GeneratorType):
                try:
                    o, sc = next(g)
                except StopIteration as e:
                    o = e.value[0]
                    if not outer:
                        return outs + [o], e.value[1], states
                    g, sc = outer.pop()
            outs.append(o)
            if o is FATAL:
                return outs, 1, states
            states.append(hash(repr([sorted((n, repr(v)) for n, v in d.items()) for d in sc.d])))
        return outs, None, states

    def groups(self):
        for label, _, _, ops, depth in self.tables().values():
            g = []
            stack = [()]
            while stack:
                seq = stack.pop()
                r = self.play(label, seq)
                if r is None:
                    continue
                if r[1] is not None:
                    g.append((label, seq))
                    if len(g) == self.batch:
                        yield g
                        g = []
                    continue
                assert len(seq) < 60, (label, seq)
                stack.append(seq + (-1,))
                # a session that goes on without lines is part of every template's exploration
                if sum(i >= 0 for i in seq) < depth:
                    stack += [seq + (i,) for i in reversed(range(len(ops)))]
            if g:
                yield g

    def steps(self, c):
        return [EOF if i < 0 else self.tables()[c[0]][3][i] for i in c[1]]

    def key(self, c):
        return c[0] + ': ' + ' | '.join(l.replace('\x04', '^D') for l in self.lines(c))

    def stats(self, cases):
        n = t = 0
        for c in cases:
            for s in self.play(*c)[2]:
                t += 1
                if (c[0], s) not in self._seen:
                    self._seen.add((c[0], s))
                    n += 1
        return n, t

    def execute(self, h, cases):
        return [h.request(**self.request([c])[1]) for c in cases]

    def script(self, label):
        return self.tables()[label][1]

    def request(self, cases):
        o = dict(self.options(cases[0][0]))
        text = '# 0 "t.c"\n# 1 "t.c"\n' + self.script(cases[0][0])
        return 'request', dict(argv=['bic', *o.pop('pre', ()), '-s', 't.c', *o.pop('args', ())], script=text, lines=self.lines(cases[0]), **o)

    def execute_real(self, h, cases):
        r = []
        for c in cases:
            o = self.options(c[0])
            ls = self.lines(c)
            # the end of a pipe ends every session
            if '\x04' in ls[:-1] or any('\t' in l for l in ls) or 'cwd' in o:
                r.append(None)
                continue
            import tempfile
            with tempfile.TemporaryDirectory(dir=h.scratch) as d:
                with open(d + '/t.c', 'w', encoding='latin-1') as f:
                    f.write(self.script(c[0]))
                r.append((0, h.real([*o.get('pre', ()), '-s', 't.c', *o.get('args', ())], cwd=d, env=dict(e.split('=', 1) for e in o.get('env', ())),
                                    stdin=''.join(l + '\n' for l in ls if l != '\x04').encode('latin-1'))))
        return r

    def judge(self, cases, res):
        for c, r in zip(cases, res):
            w = None if r is None else self.judge_real(c, r[1]) if isinstance(r, tuple) else self.judge1(c, r)
            if w:
                return w + ' [session: %s]' % self.key(c) if len(cases) > 1 else w

    def judge1(self, c, r):
        outs, errs = r.out.split('\x01\n'), r.err.split('\x01\n')
        want, rc, _ = self.play(*c)
        ls = [''] + self.lines(c)
        for i, w in enumerate(want):
            n = 'line %d (%s): ' % (i, ls[i][:80]) if i else 'before the session: '
            if i >= len(outs) or i >= len(errs):
                return n + 'the program ended before it: %s; %s' % (r.ended, r.err[-300:])
            o, e = outs[i], errs[i]
            if w in (ERR, FATAL):
                if o:
                    return n + 'must be rejected, printed %r' % o[:200]
                if not e.strip():
                    return n + 'must be rejected, nothing was reported'
            elif isinstance(w, Offer):
                x = w.wrong(o)
                if x:
                    return n + x + '; reported %r' % e[:200]
            else:
                if w is not ANY and not self.same(o, w):
                    return n + 'must print %r, printed %r; %s %s' % (w, o[:300], r.ended, e[:200])
                if e.strip():
                    return n + 'reported %r' % e[:300]
        if len(outs) != len(want):
            return 'the script stopped again: %r' % outs[len(want):]
        if r.ended != 'exit %d' % rc:
            return 'the script ended with %s instead of %d; %r' % (r.ended, rc, r.err[-200:])
        return None

    def judge_real(self, c, r):
        want, rc, _ = self.play(*c)
        t = ''
        for l, w in zip([''] + self.lines(c), want):
            if l == '\x04':
                t += 'BIC>\\s*'
            elif l:
                t += re.escape(norm('BIC> ' + l + '\n'))
            t += '.*' if w is ANY else re.escape(norm(w)) if isinstance(w, str) else ''
        if r.ended != 'exit %d' % rc:
            return 'bic ended with %s, must with %d: %r' % (r.ended, rc, r.err[-200:])
        if not re.fullmatch(t + r'\s*', norm(r.out), re.S):
            return 'bic printed %r, must print %r' % (r.out, t)
        if (ERR in want or FATAL in want) != bool(r.err.strip()):
            return 'bic reported %r' % r.err[:300]
        return None


NAMES = {('i', 1, True): 'signed char', ('i', 1, False): 'unsigned char', ('i', 2, True): 'signed short', ('i', 2, False): 'unsigned short',
         ('i', 4, True): 'signed integer', ('i', 4, False): 'unsigned integer', ('i', 8, True): 'signed long', ('i', 8, False): 'unsigned long',
         ('f', 4): 'float', ('f', 8): 'double'}


def phrase(t):
    """How the inspector names a type."""
    if t[0] in 'pa':
        return 'pointer to a ' + phrase(t[1])
    if t[0] in 'su':
        return t[1] or 'anonymous compound'
    return NAMES[t] if t in NAMES else t[1]


def inspected(name, o, locus, what=None):
    """What ?name prints; the locus is file:line."""
    return '%s is a %s.\nvalue of %s is %s\nsizeof(%s) = %d bytes.\n%s was declared at: %s\n' % (
        name, what or phrase(o[0]), name, show(o), name, size(o[0]), name, locus)


# A model of objects: [type, value]. Types: ('i', bytes, signed), ('f', bytes), ('p', type), ('s', tag, ((member, type)..)),
# ('u', tag, members), ('a', type, n). The value of an aggregate is a dict or list of objects, of a pointer None, an object,
# or a string.
INT, UINT, CHAR, UCHAR = ('i', 4, True), ('i', 4, False), ('i', 1, True), ('i', 1, False)
SHORT, USHORT, LONG, ULONG = ('i', 2, True), ('i', 2, False), ('i', 8, True), ('i', 8, False)
FLOAT, DOUBLE = ('f', 4), ('f', 8)


def wrap(t, v):
    if t[0] == 'f':
        import struct
        return struct.unpack('f', struct.pack('f', v))[0] if t[1] == 4 else float(v)
    v = int(v) & (1 << 8 * t[1]) - 1
    return v - (1 << 8 * t[1]) if t[2] and v >> 8 * t[1] - 1 else v


def size(t):
    k = t[0]
    if k in 'if':
        return t[1]
    if k == 'p':
        return 8
    if k == 'a':
        return size(t[1]) * t[2]
    if k == 'u':
        a = align(t)
        return (max(size(m[1]) for m in t[2]) + a - 1) // a * a
    n = 0
    for _, m in t[2]:
        a = align(m)
        n = (n + a - 1) // a * a + size(m)
    a = align(t)
    return (n + a - 1) // a * a


def align(t):
    if t[0] in 'su':
        return max(align(m[1]) for m in t[2])
    return align(t[1]) if t[0] == 'a' else size(t)


def new(t, v=None):
    """A zero-initialised object."""
    k = t[0]
    if k == 's':
        return [t, {n: new(m) for n, m in t[2]}]
    if k == 'u':
        return [t, bytearray(size(t))]
    if k == 'a':
        return [t, [new(t[1]) for _ in range(t[2])]]
    if k == 'p':
        return [t, v]
    return [t, wrap(t, v or 0)]


def usub(o, m):
    """A member of a union, as an object of its own (only for reading)."""
    t = dict(o[0][2])[m]
    b = bytes(o[1][:size(t)])
    if t[0] == 'f':
        import struct
        return [t, struct.unpack('f' if t[1] == 4 else 'd', b)[0]]
    if t[0] == 'a':
        n = size(t[1])
        return [t, [[t[1], int.from_bytes(b[i * n:i * n + n], 'little', signed=t[1][2])] for i in range(t[2])]]
    return [t, int.from_bytes(b, 'little', signed=t[2])]


def uset(o, m, v):
    t = dict(o[0][2])[m]
    o[1][:size(t)] = (wrap(t, v) & (1 << 8 * t[1]) - 1).to_bytes(t[1], 'little')


def show(o):
    t, v = o
    k = t[0]
    if k == 'i':
        return str(v)
    if k == 'f':
        return '%f' % v
    if k == 'p':
        if v is None:
            return '(nil)'
        return '0xP ("%s")' % v if isinstance(v, str) else '0xP'
    if k == 's':
        return '{\n' + ''.join('.%s = %s\n' % (n, show(v[n])) for n, _ in t[2]) + '}'
    if k == 'u':
        return '{\n' + ''.join('.%s = %s\n' % (n, show(usub(o, n))) for n, _ in t[2]) + '}'
    return '0xP'
