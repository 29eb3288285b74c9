"""C20: an erroneous program stops where the error is, with a located diagnostic.

Every kind of error x every position of several programs where an expression or
a statement can stand (bodies, branches, loops and their headers, conditions,
initialisers, arguments, indices, returns, recursion, callbacks, top-level
code). What the program must print before it stops comes from the compiler
running the same program with a trace in place of the errors. Malformed text at
every position of the same programs; erroneous lines in sessions; errors in
headers and in startup files.
"""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import engine
import scale

PRE = '''int printf(const char *f, ...);
void qsort(void *, unsigned long, unsigned long, int (*)(const void *, const void *));
int x = 3;
int *p = &x;
struct s { int a; struct s *n; } v;
struct s *q = &v;
union u { int a; } un;
int arr[3];
char *str = "abc";
enum e { E1 = 5 };
double d = 1.5;
int (*fp)(int);
int f1(int a) { return a; }
int f0(void) { return 4; }
int f3(int a, char *b, double c) { return a; }
void vd(void) { }
int mark(int k) { printf("@%d\\n", k); return 1; }
'''
PROGRAMS = {
    'nest': '''int deep(int n)
{
  int loc = n;
  if (n > 0) {
    int r = deep(n - 1);
    E@;
    return r + n;
  }
  S@;
  return E@;
}
int main()
{
  int i, k = 0;
  printf("start\\n");
  S@;
  k = deep(2);
  for (i = 0; i < 3; i++) {
    printf("i %d\\n", i);
    if (i == 1) {
      S@;
      k = k + E@;
    } else
      E@;
    while (k < 100) {
      k = k + 40;
      if (k > 80)
        S@;
      { { { S@; } } }
    }
  }
  S@;
  printf("end %d\\n", k);
  return 0;
}
''',
    'exprs': '''int main()
{
  int k = 4, z;
  int w[4];
  struct s o;
  struct s *r = &o;
  printf("start\\n");
  o.a = 1;
  int y =
    E@;
  k = 2 +
    E@ * 3;
  w[
    E@
  ] = k;
  k = w[
    E@
  ];
  *(p +
    E@ - 1) = 4;
  r->a =
    E@;
  printf("%d\\n",
    E@);
  z = f1(
    E@) + 2;
  z = f3(1, "a",
    E@);
  z = f3(
    E@, "b", 1.0);
  if (
    E@)
    printf("yes\\n");
  while (
    E@ + k > 90)
    k = k + 1;
  for (z =
    E@; z < 3; z++)
    printf("z %d\\n", z);
  for (z = 0; z <
    E@ + 1; z++)
    printf("z %d\\n", z);
  for (z = 0; z < 3; z = z +
    E@)
    printf("z %d\\n", z);
  z = k ?
    E@ : 2;
  z = !k ? 2 :
    E@;
  z = k &&
    E@;
  z = !k ||
    E@;
  z = (k,
    E@);
  z = (
    E@, k);
  z = -
    (E@);
  z = !
    (E@);
  z = (char)
    (E@);
  k +=
    E@;
  k = k ==
    E@;
  z = (1 <<
    (E@)) | 8;
  printf("end %d %d\\n", k, z);
  return
    E@;
}
''',
    'calls': '''int helper(int a, int b)
{
  int c = a + b;
  printf("helper %d\\n", c);
  if (c > 4) {
    S@;
    return c;
  }
  c = c + E@;
  return c;
}
int twice(int a)
{
  return helper(a, a) +
    E@;
}
int cmp(const void *a, const void *b)
{
  printf("cmp\\n");
  S@;
  return E@;
}
int even(int n);
int odd(int n)
{
  if (n == 0)
    return E@;
  return even(n - 1);
}
int even(int n)
{
  static int calls;
  calls = calls + 1;
  if (calls == 3)
    S@;
  if (n == 0)
    return 1;
  return odd(n - 1);
}
void nothing(void)
{
  printf("nothing\\n");
  E@;
}
int main()
{
  int t[2];
  int (*g)(int) = twice;
  t[0] = 2;
  t[1] = 1;
  printf("start\\n");
  printf("%d\\n", helper(1, 2));
  printf("%d\\n", g(3));
  nothing();
  qsort(t, 2, 4, cmp);
  printf("%d\\n", even(5));
  printf("%d\\n", twice(twice(E@)));
  return 0;
}
''',
    'lines': '''int id(int a)
{
  return
    a +
    E@;
}
int main()
{
  int k = 1, m[9];
  char *t;
  printf("start\\n");
  k =
    k
    +
    E@
    -
    2;
  k = (
    E@
    ) *
    3
    / 1
    ;
  k = k *
    (E@
    )
    ;
  k +=
    E@;
  m[
    E@
  ] = f3(
    1
    ,
    "s"
    , 1.0
  );
  m[1] = f3(
    E@
    ,
    "s"
    , 1.0
  );
  k = m[1]
    ? m[
      E@
    ]
    :
    2;
  if (
    k == 5 ||
    E@
    && E@
  )
    t = "t"
    ;
  else
    t = "e";
  while (
    k <
    6 +
    E@
  )
    k
      =
      k +
      1 +
      !
      E@;
  for (
    E@
    ;
    k
      > 5 +
      E@;
    k
      =
      k -
      E@
  )
    -
    E@;
  printf("%s %d\\n"
    , t
    , ~
      E@
  );
  {
    int u
      =
      E@
      , w =
      id(
        E@
        );
    k = u, w
      , E@
      ;
  }
  k = id
    (
      E@)
    -
    1;
  return
    2
    -
    (
      char)
    E@;
}
''',
    'top': '''int count;
int bump(int n)
{
  count = count + n;
  S@;
  return count;
}
printf("start\\n");
E@;
int k = bump(2);
S@;
if (k) {
  int m = k;
  E@;
  while (m < 8) {
    m = m + 3;
    S@;
  }
  S@;
}
for (int j = 0; j < 2; j++)
  E@;
k = bump(
  E@);
printf("k %d\\n", k);
{
  { S@; }
}
return E@;
''',
}
UNDECLARED = '''nosuch
nosuch()
nosuch(x, 1)
nosuch = 3
nosuch++
--nosuch
nosuch += 2
nosuch.a
nosuch->a
nosuch[1]
*nosuch
&nosuch
sizeof(nosuch)
sizeof(struct nosuch)
x + nosuch
nosuch + x
x = nosuch
x == nosuch
!nosuch
-nosuch
~nosuch
(char)nosuch
x ? nosuch : 1
nosuch ? 1 : 2
x && nosuch
0 || nosuch
(x, nosuch)
f1(nosuch)
f3(1, str, nosuch)
f1(f1(nosuch))
arr[nosuch]
p[nosuch]
(x * (2 + (3 - nosuch)))'''.split('\n')
CALLS = '''f1()
f1(1, 2)
f1(1, 2, 3)
f0(1)
f3()
f3(1)
f3(1, str)
f3(1, str, 2.0, 4)
printf()
f1(f1())
f1(f1(1, 2))
x + f1()
5()
x()
v()
arr()
str()
p()
d()
E1()
un()
q->a()'''.split('\n')
POINTERS = '''*x
*5
*v
*d
*f1(1)
*E1
*un
x + *x
*x = 5
x->a
v->a
5->a
q.a
x.a
p.a
arr.a
v.nosuch
q->nosuch
un.nosuch
v.a.a
v.n.a
q->n.a
q->a->a
x[0]
v[0]
d[0]
5[x]
x[0] = 3
arr[0][0]
arr[0].a'''.split('\n')
OBJECTS = '''5 = 3
f1(1) = 3
f1 = 3
"abc" = 3
E1 = 3
&x = p
-x = 3
(x, x) = 3
(x + 1) = 3
(x ? x : x) = 3
x++ = 3
(x = 1) = 2
5++
++5
--f1(1)
E1++
f1(1)--
(x + 1)++
5 += 3
f1(1) += 3
E1 -= 1
x = 5 = 3
arr = p
arr++
--arr
arr += 1'''.split('\n')
OPERANDS = '''x / 0
x % 0
x / (x - x)
x % (x - x)
x /= 0
1 / 0
1 % (3 - 3)
v + 1
1 + v
v - v
v * 2
2 * v
v / 2
v % 2
v & 1
v | 1
v ^ 1
v << 1
1 >> v
v < 1
v > v
v <= 1
v >= 1
v == v
v != v
v == 0
v && 1
1 && v
v || 1
0 || v
!v
-v
~v
v++
--v
v ? 1 : 2
v += 1
x += v
x = v
p = v
v = 5
arr = 5
x + vd()
vd() + 1
x = vd()
f1(vd())
-vd()
!vd()
vd() ? 1 : 2
vd() == 0
vd() && 1
1 && vd()
&5
&f1(1)
&(x + 1)
&E1
f1(v)
f3(v, str, 1.0)
f3(1, v, 1.0)
(int)v
(char *)v
f1 + 1
f1 * 2
-f1
f1++
un + 1
un ? 1 : 2
arr[v]
arr[d]
v[v]
d % 2
d & 1
d | 1
~d
d << 1
1 << d
E1 = 4
x = un'''.split('\n')
DECLS = '''if (v) x = 1;
while (v) x = 1;
for (; v; ) x = 1;
for (; un; ) x = 1;
if (vd()) x = 1;
int w = v;
struct s w = 5;
int w[0 - 1];
int w[x - 500];
char w[v];
int w = vd();
void w;
void w[3];
struct s2 { struct s2 a; } w;
struct { void a; } w;
struct { int a, a; } w;
struct { int a; struct { char b; long a; }; } w;
union { int a[-1]; } w;
unsigned w = v;
double w = v;
int *w = v;
static int w = x / 0;
enum { AA = 1 / 0 };
enum { AA = v };
int w[1 / 0];
extern int w = 4;
struct qq w;
struct qq *w; w->a;
extern int nosuchsymbol; nosuchsymbol;
int nosuchfn(int); nosuchfn(1);'''.split('\n')
REDECL = '''int dup; int dup;
int dup; char dup;
int dup; int *dup;
int dup; int dup[3];
int dup; typedef int dup;
int dup; enum { dup };
enum { dup }; int dup;
enum { dup, dup };
enum { dup }; enum { dup };
struct dup { int a; }; struct dup { int a; };
enum dup { DD }; enum dup { DE };
union dup { int a; }; union dup { int b; };
int dup, dup;
int dup = 1, y, dup = 2;
char *dup = "a"; { int dup = 3; } char dup;
static int dup; int dup;
for (int dup = 0; dup < 1; dup++) { int z; int z; }'''.split('\n')
STMTS = '''struct nosuch w;
union nosuch w;
enum nosuch w;
int w[nosuch];
int w = nosuch;
int w = 2, y = nosuch;
static int w = nosuch;
char *w = nosuch;
int w = f1();
int w = *x;
int w; w = nosuch;
if (nosuch) x = 1;
if (x) nosuch;
if (!x) ; else nosuch;
while (nosuch) x = 1;
while (x) { nosuch; }
for (nosuch; x; ) x = 1;
for (; nosuch; ) x = 1;
for (x = 0; x < 1; nosuch) ;
for (int z = nosuch; x; ) x = 1;
{ { nosuch; } }
return nosuch;
enum { AA = nosuch };
struct { int a[nosuch]; } w;
{ int inner; } inner = 2;
for (int inner = 0; inner < 2; inner++) ; inner;
{ typedef int inner; enum { IN }; } IN;
char int w;
int int;
unsigned float w;
long long long w;
int *w = f1();
return f1();
while (f1(1, 2)) ;
for (; *x; ) ;
if (5 = 3) x = 1; else x = 2;'''.split('\n')
EXPRS = UNDECLARED + CALLS + POINTERS + OBJECTS + OPERANDS
STATEMENTS = REDECL + STMTS + DECLS
# text that makes a program malformed wherever a statement stands
SYNTAX = '''x = 1 2;
(x;
x);
1 +;
x..a;
x = = 3;
if x;
if (x;
while x;
for (x) ;
5 int;
int 5;
int a, ;
case 1: ;
struct s { int a };
int f(;
;)
$
"abc
'a
}}}}}}}}
{
[1];
x[;
->a;
.a;
&;
*;
int a b;
return return;
f1(1,);
f1(,1);
x ? 1;
x ? : 2;
"a" = = "b";'''.split('\n')
SYNTAX_EXPR = '''1 + ;
(x
x)
x = = 3
x ? 1
x[
5 5
x..a
->a
f1(1,)
int x x
if
$
"abc
'''.split('\n')[:-1]


# lines before the program: that many empty ones, or (negative) where a line marker says it starts
SHIFT = [200, 255, 1000, 32767, 65536, 70003, -65500, -70001, -2000000000]
FAR = ['nosuch', 'f1()', '*x', '5 = 3', 'v.nosuch', 'x()']


# the same text, differently spaced: no line becomes another one (but for `k' lines in front)
WHITE = {
    'crlf': (0, lambda t: t.replace('\n', '\r\n')),
    'tabs': (0, lambda t: t.replace(' ', '\t')),
    'feeds': (0, lambda t: t.replace(' ', '\f \v')),
    'trailing': (0, lambda t: t.replace('\n', ' \t \n')),
    'comments': (0, lambda t: t.replace(' ', ' /* x; */ ')),
    'line comments': (0, lambda t: t.replace('\n', ' // y; {\n')),
    'wide': (0, lambda t: t.replace(' ', ' ' * 40)),
    'mark': (0, None),
    'unfinished': (0, None),
    'long comment': (4, None),
    'blank lines': (5, None),
    'conditional': (4, None),
    'definitions': (3, None),
}


def white(name, text):
    k, f = WHITE[name]
    if f:
        return re.sub(r'("(?:[^"\\]|\\.)*")|([^"]+)', lambda m: m.group(1) or f(m.group(2)), text)
    return {'mark': '\xef\xbb\xbf', 'unfinished': '', 'long comment': '/* a\n\n * b\n */\n', 'blank lines': ' \n\t\n\n \f\n\n', 'conditional': '#if 0\nint f1 = {\n#else\n#endif\n',
            'definitions': '#define NOTHING(a, \\\n b) a b \\\n    c\n'}[name] + (text.rstrip('\n') if name == 'unfinished' else text)


def lay(text, fill):
    """The program with its slots filled: fill(kind, k)."""
    n = itertools.count()
    return re.sub(r'([ES])@', lambda m: fill(m.group(1), next(n)), text)


def bare(before, after, e):
    """Can the expression stand in this place without parentheses?"""
    b, a = before[-1], after[0]
    full = before.endswith((' =', '\n  =', '+=', 'return')) or b in '([,;{'
    if full and a in ');],':
        return not re.search(r'^\w+, ', e)
    return (full or b == '+') and a in ');],+-' and not re.search(r' [^*/%] | \S\S ', e)


def sized(k, n):
    """(program, what it prints before it stops, the line of the error, the name of the file there) for a size."""
    head, f = 'int printf(const char *f, ...);\nint x = 3;\nint f1(int a) { return a; }\n', 't.c'
    o, l = 'start\n', 6
    if k == 'name':
        b = '%s;' % ('nosuch' * n)[:n]
    elif k == 'declared':
        b = 'int %s; %sx;' % (('name' * n)[:n], ('name' * n)[:n])
    elif k == 'column':
        b = ' ' * n + 'nosuch;'
    elif k == 'sum':
        b = 'x = 1%s + nosuch;' % (' + x' * n)
    elif k == 'parentheses':
        b = 'x = ' + '(' * n + 'nosuch' + ')' * n + ';'
    elif k == 'blocks':
        b = '{\n' * n + '*x;\n' + '}\n' * n
        l += n
    elif k == 'ifs':
        b = 'if (x) {\nprintf("i");\n' * n + 'f1();\n' + '}\n' * n
        l += 2 * n
        o += 'i' * n
    elif k == 'recursion':
        head += 'int r(int n) { if (n == 0)\nreturn nosuch; printf("r"); return r(n - 1); }\n'
        b = 'r(%d);' % n
        l = 5
        o += 'r' * n
    elif k == 'arguments':
        head += 'int g(%s) { return 1; }\n' % ', '.join('int p%d' % i for i in range(n))
        b = 'g(%s); g(%s);' % (', '.join('1' for i in range(n)), ', '.join('1' for i in range(n + 1)))
        l += 1
    elif k == 'one':
        # one is right; any other number isn't
        b = 'f1(%s);' % ', '.join(['1'] * (n + 1))
    elif k == 'n+1':
        head += 'int g(%s) { return 1; }\n' % ', '.join('int p%d' % i for i in range(n + 1))
        b = 'g(%s1);\ng(1);' % ('1, ' * n)
        l += 2
    elif k == 'few':
        head += 'int g(%s) { return 1; }\n' % ', '.join('int p%d' % i for i in range(n))
        b = 'g(%s);' % ', '.join('1' for i in range(n - 1))
        l += 1
    elif k == 'statements':
        b = ''.join('printf("s%d\\n");\n' % i for i in range(n)) + '5 = 3;'
        l += n
        o += ''.join('s%d\n' % i for i in range(n))
    elif k == 'members':
        head += 'struct m { %s } m;\n' % ' '.join('int m%d;' % i for i in range(n))
        b = 'm.m%d = 4;\nm.m%d = 4;' % (n - 1, n)
        l += 2
    elif k == 'lines':
        b = 'x = f1(%s1 +\nnosuch);' % ('1 +\n' * n)
        l += n + 1
    elif k == 'syntax':
        b = 'printf("s");\n' * n + 'x = 1 2;\n'
        l += n
        o = ''
    elif k == 'file':
        f = ('dir/name' * n)[:n].rstrip('/') + '.y'
        b = '\n# %d "%s"\nnosuch;' % (n + 5, f)
        l = n + 5
    elif k == 'functions':
        head += ''.join('int g%d(int a) { return a; }\n' % i for i in range(n))
        b = 'g%d(1, 2);' % (n - 1)
        l += n
    elif k == 'loops':
        b = 'int i; for (i = 0; i < %d; i++) {\nif (i == %d)\nnosuch;\nprintf("l");\n}' % (n + 1, n)
        l += 2
        o += 'l' * n
    elif k == 'text':
        b = 'printf("%s");\n' % ('t' * n) + 'x->a;'
        l += 1
        o += 't' * n
    return head + 'int main() {\nprintf("start\\n");\n' + b + '\nprintf("after\\n");\nreturn 0;\n}\n', o, l, f


SIZED = {'name': 4097, 'declared': 4097, 'column': 65537, 'sum': 1025, 'parentheses': 513, 'blocks': 129, 'ifs': 129, 'recursion': 257, 'arguments': 257, 'few': 257, 'one': 65536, 'n+1': 1025, 'statements': 4097, 'members': 513,
         'lines': 1025, 'syntax': 2049, 'file': 2049, 'functions': 513, 'loops': 10000, 'text': 65537}


class C20(engine.Check):
    pid = 'C20'
    rule = ('a case is an erroneous program; its standard output must be the prefix that the compiled program prints before it reaches the place, and the program must end with status 1 and a diagnostic '
            'with the file and line of the place (malformed text: nothing is executed, the line or the one after it); a transition is a printed trace line')
    space = ('%d erroneous expressions x every reached expression and statement slot, %d erroneous statements x every reached statement slot of %d programs (the slots: bodies, branches, loops and their headers, '
             'conditions, initialisers, arguments, indices, assignments, returns, recursion, mutual recursion, native callbacks, top-level code); %d pieces of malformed text x every slot; every erroneous '
             'expression and statement as a line after each of 6 session prefixes, in a function of a header called from a session and in a startup file; redeclarations at file scope, of parameters and '
             'of functions; the same text in %d other spacings (line ends, comments, tabs, marks, lines in front); %d kinds of program with one error at all sizes of a list (lengths of names, lines, files and text, depths, numbers of statements, arguments, members, functions)' % (len(EXPRS), len(STATEMENTS), len(PROGRAMS), len(SYNTAX + SYNTAX_EXPR), len(WHITE), len(SIZED)))

    def setup(self, scratch):
        # the trace of every program, from the compiler
        self.want, self.lines, self.reached = {}, {}, {}
        for n, t in PROGRAMS.items():
            src = PRE + lay(t, lambda k, i: 'mark(%d)' % i)
            if n == 'top':
                # top-level code: what follows the functions, in a main
                i = src.index('printf("start')
                src = src[:i] + 'int main() {\n' + src[i:] + '}\n'
            p = scratch + '/' + n
            with open(p + '.c', 'w') as f:
                f.write(src)
            subprocess.run(['gcc', '-w', '-O0', '-fno-builtin', '-o', p, p + '.c'], check=True)
            self.want[n] = subprocess.run([p], stdout=subprocess.PIPE).stdout.decode()
            self.lines[n] = [(PRE + t)[:m.start()].count('\n') + 1 for m in re.finditer('[ES]@', PRE + t)]
            self.reached[n] = ['@%d\n' % i in self.want[n] for i in range(len(self.lines[n]))]
        self.heads = {}
        for i, (kind, e) in enumerate(self.bodies()):
            d = '%s/h%d' % (scratch, i)
            os.makedirs(d)
            body = e + ';' if kind == 'E' else e
            for f in ('e.h', '.bic'):
                with open(d + '/' + f, 'w') as h:
                    h.write(PRE + '\nint bad(int n)\n{\n  printf("in %d\\n", n);\n  if (n == 1) {\n    ' + body + '\n  }\n  printf("out\\n");\n  return n;\n}\n')
        for f in ('/pre',):
            with open(scratch + f + '.h', 'w') as h:
                h.write(PRE)

    def bodies(self):
        return [('E', e) for e in UNDECLARED[::3] + CALLS[::3] + POINTERS[::3] + OBJECTS[::3] + OPERANDS[::3]] + [('S', s) for s in REDECL[::2] + STMTS[::2] + DECLS[::2]]

    FILE = ['int dup(int a) { return 1; }\nint dup(int a) { return 2; }\n', 'int dup;\nint dup(int a) { return 2; }\n', 'int dup(int a) { return 2; }\nint dup = 2;\n', 'char dup;\nint dup = 4;\n',
            'int dup = 4;\nint dup = 5;\n', 'enum { dup };\nint dup;\n', 'int dup;\nenum { A, dup };\n', 'struct dup { int a; };\nstruct dup { int b; };\n', 'enum dup { A };\nenum dup { B };\n',
            'int dup(int a) { return 2; }\nenum { dup };\n', 'union dup { int a; };\nunion dup { int b; };\n']
    PARAM = ['int f(int a) {\nint a; return 1; }', 'int f(int a, int b) {\nchar *b; return 1; }', 'int f(int a) {\nstatic int a; return 1; }', 'int f(int a) {\nenum { a }; return 1; }', 'int f(int a) { int z;\nint y, a; return 1; }']

    def cases(self):
        d = self.deep
        for n, t in PROGRAMS.items():
            slots = [m.group()[0] for m in re.finditer('[ES]@', t)]
            slots_at = [(t[:m.start()].rstrip(), t[m.end():].lstrip()) for m in re.finditer('[ES]@', t)]
            for i, k in enumerate(slots):
                if self.reached[n][i]:
                    for e in EXPRS:
                        yield 'run', n, i, '(' + e + ')' if k == 'E' else e
                        if k == 'E' and n == 'lines' and bare(*slots_at[i], e):
                            yield 'run', n, i, e
                    if k == 'S':
                        for e in STATEMENTS:
                            yield 'run', n, i, '{ ' + e + ' }'
                for e in SYNTAX if k == 'S' else SYNTAX_EXPR:
                    yield 'syntax', n, i, e
            # the same further down, and where the lines are those of another file
            for i, k in enumerate(slots):
                if self.reached[n][i]:
                    for by in SHIFT:
                        for e in FAR if d else FAR[i % 2::2]:
                            yield 'far', n, i, '(' + e + ')' if k == 'E' else e, by
                elif k == 'S':
                    for by in SHIFT:
                        yield 'far', n, i, SYNTAX[-1 - i % 4], by
                if self.reached[n][i] or k == 'S':
                    for w in WHITE:
                        for e in (FAR if d else FAR[(i + len(w)) % 3::3]) if self.reached[n][i] else SYNTAX[-1 - i % 4:][:1]:
                            yield 'white', n, i, '(' + e + ')' if k == 'E' else e, w
            if d:   # two errors: the first that is reached counts
                for i, j in itertools.combinations(range(len(slots)), 2):
                    if self.reached[n][i] and self.reached[n][j]:
                        for a, b in (('nosuch', 'f1()'), ('*x', '5 = 3'), ('f1(1, 2)', 'v.nosuch')):
                            yield 'two', n, (i, j), (a, b)
                            yield 'two', n, (i, j), (b, a)
        for k, lim in SIZED.items():
            for n in scale.SIZES:
                if n <= lim * (2 if d else 1):
                    yield 'size', k, n
        for i in range(len(self.FILE)):
            yield 'file', i
        for i in range(len(self.PARAM)):
            yield 'param', i
        for pre in range(len(self.PREFIX)):
            for e in EXPRS:
                yield 'line', pre, e + ';'
            for e in STATEMENTS:
                if e.startswith(('enum nosuch w;', 'union nosuch w;', 'struct nosuch w', 'int w[nosuch]', 'int w = ', 'char *w', 'static int w', 'enum { AA')) and e.count(';') == 1:
                    yield 'line', pre, e
        for i in range(len(self.bodies())):
            yield 'header', i
            yield 'startup', i

    PREFIX = [[], ['int k = 1;', 'k = k + 1;'], ['x = 5;', 'x;'], ['int bad q', 'x;'], ['?x', 'f1(2);'], ['p = &x;', '*p = 3;', 'v;']]

    def groups(self):
        for c in self.cases():
            yield [c]

    def key(self, c):
        return ' '.join(map(str, c))

    def stats(self, cases):
        c, = cases
        if c[0] in ('run', 'two'):
            n = self.expect(c)[0].count('\n')
            return n + 1, n
        return (c[2], c[2]) if c[0] == 'size' else (1, 1)

    def expect(self, c):
        """(standard output, lines of which the diagnostic must name one)."""
        if c[0] == 'size':
            _, o, l, _ = sized(*c[1:])
            return o, (l,)
        if c[0] == 'far':
            # malformed where it isn't reached: nothing runs
            l = self.lines[c[1]][c[2]] + (c[4] if c[4] > 0 else -c[4] - 1)
            if not self.reached[c[1]][c[2]]:
                return '', None if any(ch in c[3] for ch in '{}"\'') or c[3].rstrip()[-1:] not in ';' else (l, l + 1)
            return self.expect(('run', *c[1:4]))[0], (l,)
        if c[0] == 'white':
            l = self.lines[c[1]][c[2]] + WHITE[c[4]][0]
            if not self.reached[c[1]][c[2]]:
                return '', None if any(ch in c[3] for ch in '{}"\'') or c[3].rstrip()[-1:] not in ';' else (l, l + 1)
            return self.expect(('run', *c[1:4]))[0], (l,)
        if c[0] == 'run':
            w = self.want[c[1]]
            return w[:w.index('@%d\n' % c[2])], (self.lines[c[1]][c[2]],)
        if c[0] == 'two':
            w = self.want[c[1]]
            k = min(c[2], key=lambda i: w.index('@%d\n' % i))
            return w[:w.index('@%d\n' % k)], (self.lines[c[1]][k],)
        if c[0] == 'syntax':
            l = self.lines[c[1]][c[2]]
            return '', None if any(ch in c[3] for ch in '{}"\'') or c[3].rstrip()[-1:] not in ';' else (l, l + 1)

    def request(self, cases):
        c, = cases
        if c[0] in ('run', 'syntax', 'two', 'far', 'white'):
            bad = dict(zip(c[2], c[3])) if c[0] == 'two' else {c[2]: c[3]}
            text = PRE + lay(PROGRAMS[c[1]], lambda k, i: bad.get(i, 'mark(%d)' % i))
            if c[0] == 'far':
                text = '\n' * c[4] + text if c[4] > 0 else '# %d "other.y"\n' % -c[4] + text
            if c[0] == 'white':
                text = white(c[4], text)
            return 'script', dict(text=text)
        if c[0] == 'size':
            return 'script', dict(text=sized(*c[1:])[0])
        if c[0] == 'file':
            return 'script', dict(text='int printf(const char *f, ...);\nint early = 1;\n' + self.FILE[c[1]] + 'int main() { printf("ran\\n"); return 0; }\n')
        if c[0] == 'param':
            return 'script', dict(text='int printf(const char *f, ...);\n' + self.PARAM[c[1]] + '\nint main() {\nprintf("ran\\n");\nf(1, 2);\nprintf("after\\n"); return 0; }\n'.replace('f(1, 2)', 'f(1, 2)' if 'int b' in self.PARAM[c[1]].split('{')[0] else 'f(1)'))
        if c[0] == 'line':
            return 'session', dict(lines=['#include "pre.h"'] + self.PREFIX[c[1]] + [c[2], 'printf("after\\n");'], args=['-I', self.scratch])
        d = '%s/h%d' % (self.scratch, c[1])
        tail = ['bad(0);', 'bad(1);', 'printf("after\\n");']
        if c[0] == 'header':
            return 'session', dict(lines=['#include "e.h"'] + tail, args=['-I', d])
        return 'session', dict(lines=tail, env=['HOME=' + d])

    def execute(self, h, cases):
        if cases[0][0] != 'white':
            return super().execute(h, cases)
        # these are for the real preprocessor
        with open(h.scratch + '/t.c', 'w', encoding='latin-1') as f:
            f.write(self.request(cases)[1]['text'])
        return h.request(['bic', '-s', 't.c'])

    def judge(self, cases, res):
        c, = cases
        if c[0] in ('line', 'header', 'startup'):
            return self.judge_session(c, res)
        if res.ended != 'exit 1':
            return 'must be rejected with status 1, ended with %s: %r %r' % (res.ended, res.out[-100:], res.err[:200])
        if c[0] == 'file':
            if res.out:
                return 'must be rejected before it runs, printed %r' % res.out
            want = (4,)
        elif c[0] == 'param':
            if res.out != 'ran\n':
                return 'printed %r' % res.out
            want = (3,)
        else:
            out, want = self.expect(c)
            if res.out != out:
                return 'printed %r, must print %r; %s' % (res.out[-300:], out[-300:], res.err[:200])
        name = re.escape(sized(*c[1:])[3]) if c[0] == 'size' else None
        m = re.search((r'other\.y' if c[0] == 'far' and c[4] < 0 else name or r't\.c') + r':(\d+)', res.err)
        if not m:
            return 'no file and line in %r' % res.err[:200]
        if want and int(m.group(1)) not in want:
            return 'the diagnostic names line %s, the error is in line %s: %r' % (m.group(1), want[0], res.err[:200])
        return None

    def judge_session(self, c, x):
        r, outs, errs = x
        if c[0] == 'line':
            n = 1 + len(self.PREFIX[c[1]])
            where, before = '<REPL>:%d:' % (n + 1), ''
        else:
            n = 2 if c[0] == 'header' else 1
            where = '%s/h%d/%s:%d:' % (self.scratch, c[1], 'e.h' if c[0] == 'header' else '.bic', PRE.count('\n') + 6)
            before = 'in 1\n'
            if outs[n - 1:n] != ['in 0\nout\n0\n']:
                return 'the call before printed %r' % outs[n - 1:n]
        if len(outs) != n + 1 or r.ended != 'exit 1':
            return 'must end the session in line %d with status 1: %s after %d, %r' % (n + 1, r.ended, len(outs), r.err[-200:])
        if outs[n] != before:
            return 'printed %r, must print %r; %r' % (outs[n], before, errs[n][:200])
        if where not in errs[n].split('\n')[0]:
            return 'the diagnostic must name %s: %r' % (where, errs[n][:200])
        return None


if __name__ == '__main__':
    sys.exit(engine.main(C20))
