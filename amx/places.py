"""Where a double can be: at an integer K, at K + 1/2, or strictly between, for K = 0, K = -1, every K above and every K below
(an infinity, a zero or NaN otherwise).  The places cover all doubles.  Terms of floating-point arithmetic are evaluated in a place
to `coefficient * K + offset`, the offset a number or an interval (closed where rounding can reach its end), so that floor, ceil,
round, comparisons and conversions to integers have one value in each place, however the code goes about them."""
from fractions import Fraction as Fr
from math import floor, ceil
from .cases import *
from .mirai import lin, I

HALF = Fr(1, 2)
PARTS = ((Fr(0), Fr(0)), (Fr(0), HALF), (HALF, HALF), (HALF, Fr(1)))
NANV = ('nan',)


def num(lo, hi=None, lc=None, hc=None, k=None, c=0, zero=None):
    """c * k + something from lo to hi (closed at an end or not); `zero` is the sign of an exact zero"""
    hi = lo if hi is None else hi
    return ('num', c and k, c, Fr(lo), Fr(hi), lo == hi if lc is None else lc, lo == hi if hc is None else hc, zero)


def point(v):
    return v[0] == 'num' and v[3] == v[4]


def spots(cls, sym):
    """the places a number of the class can be in: (value, range of K)"""
    if cls == NAN:
        return [(NANV, None)]
    if cls in (NINF, PINF):
        return [(('inf', 1 if cls == PINF else -1), None)]
    if cls in (NZ, PZ):
        return [(num(0, zero='-' if cls == NZ else '+'), None)]
    out = []
    near, rng = (0, (1, None)) if cls == POS else (-1, (None, -2))
    for lo, hi in PARTS:
        if near or hi:
            out.append((num(near + lo, near + hi), None))
        out.append((num(lo, hi, k=sym, c=1), rng))
    return out


class Place(Case):
    """a case in which the symbols of `at` (symbol -> (value, range of K)) are in places"""

    def __init__(self, at, cls=None, rel=None, kind=None, truth=None):
        Case.__init__(self, cls, rel, kind, truth)
        self.at = at
        self.range = {v[1]: r for v, r in at.values() if v[0] == 'num' and v[2]}
        # K stands for integers of any size when the number is one
        self.big = {v[1] for v, r in at.values() if v[0] == 'num' and v[2] and point(v) and v[3] == 0}

    # ---- values --------------------------------------------------------------------------------------------------------
    def eval(self, t):
        t = self.base(t) if t[0] == 'y' else t
        if t in self.at:
            return self.at[t][0]
        if mirai.isint(t):
            return num(t[1], zero='+')
        k = self.value_of(t)
        if k is not None:
            return self.const(k)
        if t[0] == 'i':
            c, d = lin(t)
            v = num(c, zero='+')
            for s, x in d.items():
                e = self.eval(s)
                if e is None or e[0] != 'num' or not point(e) or e[3].denominator != 1:
                    return None
                v = self.plus(v, self.scale(e, x), exact=True)
                if v is None:
                    return None
            return v[:7] + ('+',)
        if t[0] != 'y':
            return None
        if t[1] == 'cast' and t[3] == 'f64' and t[4] in ('i64', 'i128', 'i32'):
            v = self.whole('trunc', self.eval(t[2]))
            return None if v is None or v[0] != 'num' else v[:7] + ('+',)
        if t[1] == 'bin' and t[2] in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            a, b = self.eval(t[3]), self.eval(t[4])
            return None if a is None or b is None else self.arith(t[2], a, b)
        if t[1] == 'neg':
            return self.scale(self.eval(t[2]), -1)
        if t[1] == 'num':
            a = [self.eval(x) for x in t[3]]
            return None if None in a else self.func(t[2], a)
        return None

    def const(self, k):
        k = float(k)
        if k != k:
            return NANV
        if k in (float('inf'), float('-inf')):
            return ('inf', 1 if k > 0 else -1)
        return num(Fr(k), zero='-' if str(k).startswith('-') else '+')

    def func(self, op, a):
        v = a[0]
        if op in ('floor', 'ceil', 'round', 'trunc'):
            return self.whole(op, v)
        if op == 'neg':
            return self.scale(v, -1)
        s = self.sign(v)
        if v == NANV:
            return NANV if op in ('abs', 'signum', 'fract') else None
        if op == 'abs':
            return v if s in (PZ, POS, PINF) else None if s is None else self.scale(v, -1)
        if op == 'signum':
            return None if s is None else num(1 if s in (PZ, POS, PINF) else -1)
        if op == 'fract':
            w = self.whole('trunc', v)
            return None if w is None else self.arith('Sub', v, w)
        if op == 'copysign' and len(a) == 2 and s and self.sign(a[1]) not in (None, NAN):
            same = (s in (PZ, POS, PINF)) == (self.sign(a[1]) in (PZ, POS, PINF))
            return v if same else self.scale(v, -1)
        if op in ('min', 'max') and len(a) == 2:
            o = self.compare(a[0], a[1])
            return None if o in (None, 'un') else a[0] if (o != 'gt') == (op == 'min') else a[1]
        return None

    def whole(self, op, v):
        if v is None or v[0] != 'num':
            return v
        if op in ('round', 'trunc'):
            s = self.sign(v)
            if s is None:
                return None
            if s in (NZ, PZ):
                return v
            if op == 'trunc':
                return self.whole('floor' if s == POS else 'ceil', v)
            w = self.plus(v, num(HALF if s == POS else -HALF), exact=True)
            w = self.whole('floor' if s == POS else 'ceil', w)
            return None if w is None else self.zero_as(w, '+' if s == POS else '-')
        lo, hi, lc, hc = v[3:7]
        if op == 'floor':
            a, b = floor(lo), floor(hi) if hc else ceil(hi) - 1
        else:
            a, b = ceil(lo) if lc else floor(lo) + 1, ceil(hi)
        if a != b:
            return None
        if point(v) and v[3] == a:
            return v
        w = num(a, k=v[1], c=v[2])
        s = self.sign(v)
        return self.zero_as(w, None if s is None else '+' if s == POS else '-' if s == NEG else v[7])

    def zero_as(self, v, sign):
        return v[:7] + (sign,)

    def scale(self, v, x):
        if v is None or v == NANV:
            return v
        if v[0] == 'inf':
            return ('inf', v[1] if x > 0 else -v[1])
        z = v[7] if x > 0 else {'+': '-', '-': '+'}.get(v[7])
        lo, hi, lc, hc = v[3] * x, v[4] * x, v[5], v[6]
        return ('num', v[1], v[2] * x) + ((lo, hi, lc, hc) if x > 0 else (hi, lo, hc, lc)) + (z,)

    def arith(self, op, a, b):
        if NANV in (a, b):
            return NANV
        if op == 'Sub':
            return self.arith('Add', a, self.scale(b, -1))
        if op == 'Add':
            if 'inf' in (a[0], b[0]):
                return NANV if a[0] == b[0] and a[1] != b[1] else a if a[0] == 'inf' else b
            return self.plus(a, b)
        if op in ('Mul', 'Div'):
            for x, y in ((a, b), (b, a)) if op == 'Mul' else ((a, b),):
                if point(y) and not y[2] and abs(y[3]) == 1:
                    return self.scale(x, int(y[3]))
            if op == 'Div' and b[0] == 'inf' and a[0] == 'num':
                s = self.sign(a)
                return None if s is None else num(0, zero='+' if (s in (PZ, POS)) == (b[1] > 0) else '-')
            return None
        if op == 'Rem' and point(b) and not b[2] and abs(b[3]) == 1:
            if a[0] == 'inf':
                return NANV
            w = self.whole('trunc', a)
            r = None if w is None else self.arith('Sub', a, w)
            return None if r is None else self.zero_as(r, '-' if self.sign(a) in (NEG, NZ) else '+')
        return None

    def plus(self, a, b, exact=False):
        if a[2] and b[2] and a[1] != b[1]:
            return None
        k, c = a[1] or b[1], a[2] + b[2]
        lo, hi, lc, hc = a[3] + b[3], a[4] + b[4], a[5] and b[5], a[6] and b[6]
        if not point(a) and not point(b) and a[2] * b[2] < 0:
            return None                   # the two offsets are not independent
        zero = '+'
        if all(point(x) and not x[2] and x[3] == 0 for x in (a, b)):
            zero = '-' if a[7] == b[7] == '-' else '+' if a[7] and b[7] else None
        z = lambda x: point(x) and not x[2] and x[3] == 0
        if z(a) or z(b):
            exact = True
        whole = lambda x: point(x) and x[3].denominator == 1
        if not exact and not (whole(a) and whole(b)):
            far = lambda x: x[2] or x[3] >= 1 or x[4] <= -1
            near = lambda x, y: 0 < x[3] and y[4] < 0 and x[3] >= -y[3] / 2 and x[4] <= -y[4] * 2
            if not a[2] and not b[2] and (near(a, b) or near(b, a)):
                pass                      # neither is more than twice the other: exact
            elif not c and (whole(a) and far(b) or whole(b) and far(a)) and -1 <= lo and hi <= 1:
                pass                      # a multiple of the last place of the operand, below one: exact
            elif point(a) and point(b) and not a[2] and not b[2]:
                lo = hi = Fr(float(lo))
            elif lo == hi and c and k in self.big:
                lo, hi = Fr(floor(lo)), Fr(ceil(hi))
                lc = hc = True
            elif lo != hi:
                lc = hc = True
        if c == 0:
            k = None
        return ('num', k or 0, c, lo, hi, lc, hc, zero)

    def bounds(self, v):
        """(least, whether it is reached, greatest, whether it is reached)"""
        lo, hi = v[3], v[4]
        if v[2]:
            a, b = self.range[v[1]]
            if v[2] < 0:
                a, b = b, a
            lo = None if a is None else lo + v[2] * a
            hi = None if b is None else hi + v[2] * b
        return lo, v[5], hi, v[6]

    def sign(self, v):
        if v is None:
            return None
        if v == NANV:
            return NAN
        if v[0] == 'inf':
            return PINF if v[1] > 0 else NINF
        lo, lc, hi, hc = self.bounds(v)
        if lo is not None and (lo > 0 or lo == 0 and not lc):
            return POS
        if hi is not None and (hi < 0 or hi == 0 and not hc):
            return NEG
        if lo == hi == 0:
            return {'-': NZ, '+': PZ}.get(v[7])
        return None

    def compare(self, a, b):
        if NANV in (a, b):
            return 'un'
        if 'inf' in (a[0], b[0]):
            x, y = (v[1] if v[0] == 'inf' else 0 for v in (a, b))
            return 'lt' if x < y else 'gt' if x > y else 'eq'
        d = self.plus(a, self.scale(b, -1), exact=True)
        if d is None:
            return None
        if point(d) and not d[2] and d[3] == 0:
            return 'eq'
        s = self.sign(d)
        return {POS: 'gt', NEG: 'lt'}.get(s)

    # ---- what a case answers -------------------------------------------------------------------------------------------
    def number(self, t):
        s = self.sign(self.eval(t))
        return s if s is not None else Case.number(self, t)

    def order(self, x, y):
        a, b = self.eval(x), self.eval(y)
        o = None if a is None or b is None else self.compare(a, b)
        return o if o is not None else Case.order(self, x, y)

    def bool(self, t):
        if t[:2] == ('y', 'bin') and t[2] in ('Lt', 'Le', 'Gt', 'Ge') and t not in self.truth:
            a, b = self.eval(t[3]), self.eval(t[4])
            if a is not None and b is not None and a[0] == b[0] == 'num' and self.compare(a, b) is None:
                d = self.plus(a, self.scale(b, -1), exact=True)
                if d is not None:
                    lo, lc, hi, hc = self.bounds(d)
                    if lo is not None and lo >= 0:
                        return {'Lt': False, 'Ge': True}.get(t[2])
                    if hi is not None and hi <= 0:
                        return {'Gt': False, 'Le': True}.get(t[2])
        return Case.bool(self, t)

    def rounded(self, x):
        """round(x) as XPath has it: the nearest integer, of two the greater one; a zero keeps the sign of x"""
        v = self.eval(x)
        if v is None or v[0] != 'num':
            return v
        w = self.whole('floor', self.plus(v, num(HALF), exact=True))
        s = self.sign(v)
        return self.zero_as(w, '-' if s in (NZ, NEG) else '+')

    def integer(self, v):
        """an integral value as a linear term"""
        if v is None or v[0] != 'num' or not point(v) or v[3].denominator != 1:
            return None
        out = I(int(v[3]))
        return mirai.ladd(out, mirai.lmul(v[1], v[2])) if v[2] else out

    def same_value(self, a, b, zeros=True):
        """are two values the same in this place?"""
        if a is None or b is None or a[0] != b[0]:
            return False
        if a[0] != 'num':
            return a == b
        if not point(a) or not point(b) or a[2:4] != b[2:4] or (a[2] and a[1] != b[1]):
            return False
        return not zeros or a[2] != 0 or a[3] != 0 or (a[7] == b[7] and a[7] is not None)

    def show(self, v):
        if v is None:
            return 'a value that is not settled'
        if v[0] != 'num':
            return 'NaN' if v == NANV else '%sinfinity' % ('-' if v[1] < 0 else '')
        off = str(v[3]) if point(v) else 'between %s and %s' % (v[3], v[4])
        if v[2]:
            return '%sK + %s' % ('-' if v[2] < 0 else '', off)
        return '-0' if off == '0' and v[7] == '-' else off
