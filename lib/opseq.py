"""Checks that run every sequence of operations up to a depth.

A subclass gives PRELUDE (file-scope text), LOCALS (declarations in main), OPS:
a list of (name, C statements, model) where model(state) applies the operation
to the model state and returns what the statements print, or None when the
operation isn't allowed in this state; and `initial()`. Every sequence runs in
a program of its own; the state is printed by SHOW after every operation.
"""
import copy, itertools
import engine


class OpSeq(engine.Check):
    PRELUDE = LOCALS = SHOW = ''
    OPS = []
    depth = {'quick': 3, 'thorough': 4}
    batch = 16

    def initial(self):
        raise NotImplementedError

    def show(self, st):
        return ''

    def alphabets(self):
        """[(label, operations, depth)]"""
        return [('', list(range(len(self.OPS))), self.depth[self.tier])]

    def groups(self):
        g = []
        for label, ops, depth in self.alphabets():
            stack = [((), self.initial())]
            while stack:
                seq, st = stack.pop()
                last = True
                if len(seq) < depth:
                    for i in reversed(ops):
                        s2 = copy.deepcopy(st)
                        if self.OPS[i][2](s2) is None:
                            continue
                        last = False
                        stack.append((seq + (i,), s2))
                if last and seq:
                    # shorter sequences are prefixes of these
                    g.append((label, seq))
                    if len(g) == self.batch:
                        yield g
                        g = []
        if g:
            yield g

    def key(self, c):
        return (c[0] + ': ' if c[0] else '') + '; '.join(self.OPS[i][0] for i in c[1])

    def text(self, c):
        t = self.PRELUDE + 'int main()\n{\n' + self.LOCALS
        for i in c[1]:
            t += self.OPS[i][1] + '\n' + self.SHOW + '\n'
        return t + 'return 0;\n}\n'

    def trace(self, c):
        st = self.initial()
        out, states = [], []
        for i in c[1]:
            out.append(self.OPS[i][2](st) + self.show(st))
            states.append(hash(repr(st)))
        return out, states

    _seen = set()

    def stats(self, cases):
        n = 0
        t = 0
        for c in cases:
            for s in self.trace(c)[1]:
                t += 1
                if s not in self._seen:
                    self._seen.add(s)
                    n += 1
        return n, t

    def request(self, cases):
        return 'script', dict(text=self.text(cases[0]))

    def execute(self, h, cases):
        return [engine.Check.execute(self, h, [c]) for c in cases]

    def execute_real(self, h, cases):
        return [engine.Check.execute_real(self, h, [c]) for c in cases[:2]]

    def judge(self, cases, res):
        for c, r in zip(cases, res):
            w = self.judge1(c, r)
            if w:
                return w

    def judge1(self, c, r):
        out, _ = self.trace(c)
        want = ''.join(out)
        if r.rc == 0 and r.out == want:
            return None
        at = 0
        for i, w in enumerate(out):
            if r.out[at:at + len(w)] != w:
                return 'after operation %d (%s): expected %r, got %r; %s %s' % (
                    i + 1, self.OPS[c[1][i]][0], w, r.out[at:at + len(w) + 40], r.ended, r.err[:150])
            at += len(w)
        return 'ended with %s after %r; %s' % (r.ended, r.out[-80:], r.err[:150])
