"""Every kind of expression with an effect, in every place an expression stands.

A check decorated with @effects.everywhere explores, besides its own space, all
(expression, place) and (expression, expression) pairs; the compiled program
says what they do. Expressions only have one effect that is not sequenced.
"""
import os, subprocess
import engine

PRE = '''int printf(const char *f, ...);
int k, l, m, n, h, a[5], *p;
char c; short w; long q; unsigned u; unsigned char b;
struct s { int m; int n[2]; long q; struct { char c; int d; } i; } s, *sp; struct s r[2];
int t(int x) { h = (h * 31 + x + 1) % 100003; return x + 1; }
int y(int x, int z) { h = (h * 17 + x * 5 + z) % 100003; return x - z; }
void v(int x) { h = h + x * 7; }
long g(long x) { h = h * 2 % 99991 + 1; return x + 3; }
int *z(int *x) { h = (h + 3) % 777; return x + 1; }
struct s *o(int x) { h = h + x; return sp; }
int (*fp)(int); void (*vp)(int);
'''
SHOW = 'printf("%d %d %d %d %d|%d %d %d %d %d|%d|%d %d %ld %u %d|%d %d %d %ld %d %d|%d %d %d\\n", k, l, m, n, h, a[0], a[1], a[2], a[3], a[4], (int)(p - a), c, w, q, u, b, s.m, s.n[0], s.n[1], s.q, s.i.c, s.i.d, r[0].m, r[1].n[1], (int)r[1].q);'
SET = ('k = x; l = 7; m = 3; n = 0; h = 1; a[0] = 3; a[1] = 5; a[2] = 8; a[3] = 13; a[4] = 21; p = a + 1; c = 120; w = 9; q = 1000; u = 6; b = 250; s.m = 1; s.n[0] = 2; s.n[1] = 3; s.q = 4; s.i.c = 5; s.i.d = 6; '
       'sp = &s; r[0].m = 7; r[1].n[1] = 8; r[1].q = 9; fp = t; vp = v;\n')
STARTS = (0, 1, 2, 3, -1)

# expressions with a value that is an integer
E = '''k++
++k
k--
--k
k = 5
k += 3
k -= 2
k /= 2
k ^= 6
u <<= 1
u >>= 1
c++
--w
q = 70000
b += 10
a[k & 3]++
--a[1]
a[2] = k
a[m] += k
*p = *p + 1
(*p)++
*p -= 3
*(p + 1) = 2
*p++
*++p
s.m++
sp->m = sp->m + 2
--sp->n[1]
s.n[k & 1] += 4
(*sp).q = k
s.i.c = 3
sp->i.d -= 1
r[k & 1].m = 4
t(1)
-t(1)
!t(k)
~t(1)
t(1) + 2
2 - t(1)
t(1) * k
t(k) / 2
t(5) % 3
t(1) << 2
t(9) >> 1
t(k) < 2
t(k) > 2
t(k) <= 2
t(k) >= 2
t(k) == 2
t(k) != 2
t(k) & 3
t(k) ^ 3
t(k) | 4
(long)t(1)
(char)t(k)
k ? t(1) : t(2)
t(k) ? t(1) : k++
k > 1 ? k = 9 : t(4)
k && t(3)
k || t(3)
t(k) && t(3)
t(k) || t(3)
!k && t(3) || t(4)
(t(1), t(2))
(k++, k)
t(t(1))
y(t(k), 2)
y(1, t(k))
(*fp)(k)
fp(3)
g(k)
l = k = 3
l = k++
l = t(k)
l = k ? t(1) : 4
l = (k++, k + 1)
l += t(1)
*z(a) = 6
o(4)->m = 2
o(4)->n[1]++
a[t(0)] = 9
*(a + t(1)) += 1
k = k + t(1)
k++ + 1
1 - k--
a[k++ & 3]
a[t(0)]
*z(p)
o(1)->q
(int)sizeof(a) + t(1)'''.split('\n')
# expressions without, or with another value
F = '''v(2)
(*vp)(3)
vp(4)
p++
--p
p = a + 3
p += 1
p -= 1
z(a)
o(2)
&a[t(0)]
p = z(a)
fp = t
k ? v(1) : v(2)
(t(1), v(2))'''.split('\n')
PLACES = {
    'statement': '%s;', 'parentheses': '(%s);', 'first of a list': '%s, t(9);', 'last of a list': 't(9), %s;', 'within a list': 't(8), %s, t(9);', 'list in parentheses': '(%s, t(9)), l++;',
    'for: first': 'for (%s; n < 2; n++) t(n);', 'for: first of a list': 'for (%s, m = 4; n < 2; n++) t(n);', 'for: condition': 'for (; %s, n < 2; n++) t(n);', 'for: after': 'for (; n < 3; n++, %s) t(n);',
    'for: after, first': 'for (; n < 3; %s, n++) t(n);', 'for: after, body breaks': 'for (; n < 3; %s, n++) { t(n); if (n == 1) break; }', 'for: after, alone': 'for (; n++ < 2; %s) ;',
    'for: declared': 'for (int k2 = 0; k2 < 2; %s, k2++) t(k2);', 'while': 'while (%s, n++ < 2) t(n);', 'if': 'if (%s, n) t(1); else t(2);', 'if: body': 'if (l) %s;', 'else: body': 'if (!l) l = 8; else %s;',
    'while: body': 'while (n++ < 2) %s;', 'for: body': 'for (; n < 2; n++) %s;', 'block': '{ int k2; { %s; } k2 = 4; l = k2; }',
    'index': 'l = a[%s, 1];', 'argument': 'l = t((%s, 3));', 'second argument': 'l = y(3, (%s, 3));', 'condition': 'l = (%s, n) ? 4 : 5;', 'conditional': 'l = m ? (%s, 4) : 5;', 'conditional, comma': 'l = m ? %s, 4 : 5;',
    'conditional, not': 'l = n ? (%s, 4) : 5;', 'conditional, else': 'l = n ? 4 : (%s, 5);', 'and': 'l = m && (%s, 1);', 'and, first': 'l = (%s, 1) && m;', 'or': 'l = n || (%s, 1);', 'or, not': 'l = m || (%s, 1);',
    'cast': 'l = (int)(%s, 4);', 'initialiser': 'int k2 = (%s, 5); l = k2;', 'second initialiser': 'int k2 = 1, k3 = (%s, 5); l = k2 + k3;', 'sum': 'l += (%s, 2);', 'minus': 'l = -(%s, 2);', 'not': 'l = !(%s, 2);',
    'sum, left': 'l = (%s, 2) + 1;', 'sum, right': 'l = 1 + (%s, 2);', 'return': 'return %s, 7;', 'return, last': 'return t(2), (%s, 7);', 'nested': '(t(1), (%s, t(2)), t(3));', 'star': 'l = *(%s, a);', 'arrow': 'l = (%s, sp)->m;'}
# where the value counts
VALUES = {
    'value': 'l = (int)(%s);', 'long': 'q = %s;', 'char': 'c = %s;', 'unsigned': 'u = %s;', 'sum of': 'l = 2 + (%s);', 'difference of': 'l = (%s) - 2;', 'and of': 'l = (%s) && m;', 'or of': 'l = n || (%s);', 'not of': 'l = !(%s);', 'minus of': 'l = -(%s);',
    'complement of': 'l = ~(int)(%s);', 'if of': 'if (%s) l = 4; else l = 5;', 'while of': 'while (%s) { l = 9; if (n++ > 1) break; }', 'for of': 'for (; %s; n++) { if (n > 1) break; t(n); }', 'conditional of': 'l = (%s) ? 4 : 5;',
    'argument of': 'l = t(%s);', 'second argument of': 'l = y(2, %s);', 'long argument of': 'q = g(%s);', 'return of': 'return %s;', 'initialiser of': 'int k2 = %s; l = k2;', 'static initialiser': 'static int k2; k2 = %s; l = k2;', 'index of': 'l = a[(%s) & 3];',
    'equal': 'l = (%s) == 2;', 'less': 'l = 2 < (%s);', 'added': 'l += %s;', 'pointer plus': 'l = *(a + ((%s) & 3));', 'native': 'printf("%%d ", (int)(%s));', 'variadic': 'printf("%%ld ", (long)(%s));', 'last of list': 'l = (t(1), %s);', 'else of': 'l = n ? 1 : (%s);',
    'cast of': 'q = (short)(%s);', 'member': 's.m = %s;', 'element': 'a[4] = %s;', 'deref': '*(a + 4) = %s;', 'shifted': 'l = ((%s) & 7) << 2;', 'twice': 'l = m = %s;'}


def bodies(pid, deep):
    """(key, body)"""
    if pid == 'C02':
        for n, t in VALUES.items():
            for e in E:
                # one effect on an object between sequence points
                if n in ('twice', 'added') and ('l' in e.replace('long', '') or 'm' in e.replace('.m', '').replace('>m', '')):
                    continue
                if n in ('element', 'deref', 'member') and ('s' in e or 'a[' in e or '*' in e) or n in ('long', 'cast of', 'long argument of') and 'q' in e or n == 'char' and 'c' in e or n == 'unsigned' and 'u' in e:
                    continue
                if n not in ('return of', 'if of', 'while of', 'for of', 'native', 'variadic', 'long', 'char', 'unsigned', 'member', 'element', 'deref', 'cast of', 'long argument of', 'twice', 'added') and e.startswith('l '):
                    continue
                yield n + ': ' + e, t % (e if n in ('value', 'long', 'char', 'unsigned', 'if of', 'while of', 'for of', 'return of', 'twice', 'added', 'argument of', 'second argument of', 'long argument of', 'initialiser of', 'static initialiser',
                                                    'member', 'element', 'deref', 'last of list') or '(%s)' in t else '(' + e + ')')
    ps = [n for n in PLACES if pid == 'C04' or not n.startswith(('for', 'while', 'if', 'else', 'block', 'return'))]
    for n in ps:
        for e in E + F:
            yield n + ': ' + e, PLACES[n] % e
    if pid == 'C04':
        two = [n for n in PLACES if n in ('statement', 'for: first', 'for: after, alone', 'while', 'for: condition')]
        for i, e in enumerate(E + F):
            for j, f in enumerate(E + F):
                if deep or (i * 7 + j) % 5 == 0:
                    n = two[(i + j) % len(two)]
                    yield '%s: %s, %s' % (n, e, f), PLACES[n] % (e + ', ' + f)
    else:
        op = ('%s && (%s);', '%s || (%s);', 'm ? %s : (%s);', '(%s), (%s);')
        for i, e in enumerate(E):
            for j, f in enumerate(E):
                if deep or (i * 7 + j) % 5 == 0:
                    o = op[(i + j) % len(op)]
                    e2 = '(' + e + ')' if '&&' in o or '||' in o else e
                    yield o % (e, f), ('l = 0; n = (' + o[:-1] + ');') % (e2, f)


def function(i, b):
    return 'int x%d()\n{\n%s\nreturn 99; }\n' % (i, b)


def program(cases):
    """cases: (number, body)"""
    t = PRE + 'void set(int x) {\n' + SET + '}\nvoid show(int i, int j) { printf("%d: %d ", i, j); ' + SHOW + ' }\n' + ''.join(function(i, b) for i, b in cases) + 'int main() {\n'
    for i, _ in cases:
        for s in STARTS:
            t += 'set(%d); show(%d, x%d());\n' % (s, i, i)
    return t + 'return 0;\n}\n'


def everywhere(cls):
    class Everywhere(cls):
        space = cls.space + '; %d expressions with effects in %d places, and pairs of them, from %d states, against the compiled program' % (len(E) + len(F), len(PLACES) + len(VALUES), len(STARTS))

        def setup(self, scratch):
            super().setup(scratch)
            self.fx = list(bodies(self.pid, self.deep))
            jobs = []
            step = (len(self.fx) + 15) // 16
            for j in range(0, len(self.fx), step):
                p = '%s/fx%d' % (scratch, j)
                with open(p + '.c', 'w') as f:
                    # what bic knows in one program, many functions of one file
                    f.write(program([(i, self.fx[i][1]) for i in range(j, min(j + step, len(self.fx)))]))
                jobs.append((p, subprocess.Popen(['gcc', '-w', '-O0', '-fwrapv', '-o', p, p + '.c'])))
            self.fxwant = {}
            for p, x in jobs:
                if x.wait():
                    raise engine.CheckError('gcc: ' + p) if hasattr(engine, 'CheckError') else RuntimeError('gcc: ' + p)
                for line in subprocess.run([p], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
                    # a body may have printed something itself
                    self.fxwant.setdefault(int(line.split(': ')[0].split()[-1]), []).append(line)

        def groups(self):
            yield from super().groups()
            n = 16
            for j in range(0, len(self.fx), n):
                yield [('#fx', i) for i in range(j, min(j + n, len(self.fx)))]

        def key(self, c):
            return self.fx[c[1]][0] if c[0] == '#fx' else super().key(c)

        def stats(self, cs):
            return (len(cs) * len(STARTS),) * 2 if cs[0][0] == '#fx' else super().stats(cs)

        def request(self, cs):
            if cs[0][0] != '#fx':
                return super().request(cs)
            return 'script', dict(text=program([(c[1], self.fx[c[1]][1]) for c in cs]))

        def execute(self, h, cs):
            return engine.Check.execute(self, h, cs) if cs[0][0] == '#fx' else super().execute(h, cs)

        def execute_real(self, h, cs):
            return engine.Check.execute_real(self, h, cs) if cs[0][0] == '#fx' else super().execute_real(h, cs)

        def judge(self, cs, r):
            if cs[0][0] != '#fx':
                return super().judge(cs, r)
            want = [l for c in cs for l in self.fxwant[c[1]]]
            got = r.out.splitlines()
            for i, w in enumerate(want):
                if i >= len(got) or got[i] != w:
                    c = cs[i // len(STARTS)]
                    return '(%s) with k = %d must print %r, printed %r; %s %s' % (self.key(c), STARTS[i % len(STARTS)], w, got[i] if i < len(got) else None, r.ended, r.err[-200:])
            if len(got) != len(want) or r.ended != 'exit 0':
                return 'printed more than %d lines, or ended with %s: %s' % (len(want), r.ended, r.err[-200:])

    Everywhere.__name__ = cls.__name__
    Everywhere.__qualname__ = cls.__qualname__
    return Everywhere
