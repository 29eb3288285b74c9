"""C's integer types on the platform (LP64) and the semantics of its operators.

Every function that evaluates an operator returns None where C gives the
operation no defined result, and `exact` tells whether C's conversions of the
operands kept their values.
"""

TYPES = {   # name: (bits, signed, rank)
    'char': (8, True, 1), 'signed char': (8, True, 1), 'unsigned char': (8, False, 1),
    'short': (16, True, 2), 'unsigned short': (16, False, 2),
    'int': (32, True, 3), 'unsigned int': (32, False, 3),
    'long': (64, True, 4), 'unsigned long': (64, False, 4),
    'long long': (64, True, 5), 'unsigned long long': (64, False, 5),
}
UNSIGNED = {'int': 'unsigned int', 'long': 'unsigned long', 'long long': 'unsigned long long'}
FMT = {'long': '%ld', 'unsigned long': '%lu', 'long long': '%lld',
       'unsigned long long': '%llu', 'unsigned int': '%u'}


def fmt(t):
    return FMT.get(t, '%d')


def bits(t):
    return TYPES[t][0]


def signed(t):
    return TYPES[t][1]


def lo(t):
    return -(1 << bits(t) - 1) if signed(t) else 0


def hi(t):
    return (1 << bits(t) - (1 if signed(t) else 0)) - 1


def fits(t, v):
    return lo(t) <= v <= hi(t)


def conv(t, v):
    """Conversion of an integer to t (modular, as on this platform)."""
    v &= (1 << bits(t)) - 1
    if signed(t) and v >> bits(t) - 1:
        v -= 1 << bits(t)
    return v


def promote(t):
    return 'int' if TYPES[t][2] < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    ra, rb = TYPES[a][2], TYPES[b][2]
    if signed(a) == signed(b):
        return a if ra >= rb else b
    u, s = (a, b) if not signed(a) else (b, a)
    if TYPES[u][2] >= TYPES[s][2]:
        return u
    if bits(s) > bits(u):
        return s
    return UNSIGNED[s]


RING = {'+', '-', '*', '&', '|', '^'}
REL = {'<', '>', '<=', '>=', '==', '!='}


def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def binary(op, ta, a, tb, b):
    """(type, value, exact), or None if undefined."""
    if op in ('&&', '||'):
        return 'int', int(bool(a and b) if op == '&&' else bool(a or b)), True
    if op in ('<<', '>>'):
        t = promote(ta)
        if not 0 <= b < bits(t):
            return None
        if op == '>>':
            return t, a >> b, True
        if signed(t):
            if a < 0 or not fits(t, a << b):
                return None
            return t, a << b, True
        return t, conv(t, a << b), fits(t, a << b)
    t = usual(ta, tb)
    x, y = conv(t, a), conv(t, b)
    exact = x == a and y == b
    if op in REL:
        return 'int', int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y,
                           '==': x == y, '!=': x != y}[op]), exact
    if op in ('/', '%'):
        if y == 0:
            return None
        q = cdiv(x, y)
        if not fits(t, q):
            return None
        return t, q if op == '/' else x - q * y, exact
    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
         '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
    if not fits(t, v):
        if signed(t):
            return None
        return t, conv(t, v), False
    return t, v, exact


def unary(op, ta, a):
    if op == '!':
        return 'int', int(not a), True
    t = promote(ta)
    v = -a if op == '-' else ~a
    if not fits(t, v):
        if signed(t):
            return None
        return t, conv(t, v), False
    return t, v, True


def lit(v, t='long'):
    """A constant expression of value v (decimal, no suffix ambiguity)."""
    if v < 0:
        if v == -(1 << 63):
            return '(-9223372036854775807-1)'
        return '-%d' % -v
    return str(v) + ('u' if v > (1 << 63) - 1 else '')
