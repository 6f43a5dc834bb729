"""Abstract cases.  A case says for the symbols of an exploration in which class each is (a number: NaN, an infinity, negative, a
zero, positive; a string: empty or not) and how two of them are ordered.  The classes cover all values, so a rule that looks at
every case looks at every input; what a path has established is evaluated in the case (by tables over the classes), and only
the paths that the case allows have to have the result that is right for it."""
import re
from . import mirai
from .mirai import lin, I

NAN, NINF, NEG, NZ, PZ, POS, PINF = 'nan', '-inf', 'neg', '-0', '+0', 'pos', '+inf'
FLOATS = (NAN, NINF, NEG, NZ, PZ, POS, PINF)
INTS = (NEG, PZ, POS)
PLACE = {NINF: 0, NEG: 1, NZ: 2, PZ: 2, POS: 3, PINF: 4}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}
MINUS = {NAN: NAN, NINF: PINF, NEG: POS, NZ: PZ, PZ: NZ, POS: NEG, PINF: NINF}


def orders(a, b):
    """how a number of class a can be ordered to one of class b"""
    if NAN in (a, b):
        return ('un',)
    x, y = PLACE[a], PLACE[b]
    if x != y:
        return ('lt',) if x < y else ('gt',)
    return ('lt', 'eq', 'gt') if a in (NEG, POS) else ('eq',)


class Case:
    def __init__(self, cls=None, rel=None, kind=None, truth=None):
        self.cls = cls or {}
        self.rel = rel or {}
        self.kind = kind or {}
        self.truth = truth or {}

    # ---- numbers ---------------------------------------------------------------------------------------------------
    def base(self, t):
        """the number itself, without conversions that keep its value (or round it)"""
        while t[0] == 'y':
            if t[1] == 'cast' and len(t) == 5 and (t[4] in ('f64', 'i128') or t[4] == 'i64' and t[3] not in ('f64', 'f32')):
                t = t[2]
            elif t[1] == 'vf' and t[2][:2] == ('y', 'parse') and t[3] == 'Ok':
                x = self.shown(t[2])
                if x is None:
                    x = self.literal(t[2])
                    return t if x is None else x
                t = x
            else:
                return t
        return t

    def shown(self, p):
        """the integer whose digits (and perhaps ".0") are parsed"""
        if p[2] not in ('f64', 'i64', 'f32'):
            return None
        t = p[3]
        while t[:2] == ('y', 'str') and t[2] == 'trim':
            t = t[3][0] if isinstance(t[3][0], tuple) else t[3]
        ps = t[1] if t[0] == 'cat' else (('v', t),)
        if not ps or ps[0][0] != 'v' or ps[0][1][:2] != ('y', 'disp') or ps[0][1][2] not in ('i64', 'i32', 'usize'):
            return None
        if len(ps) == 1 or len(ps) == 2 and ps[1] in (('s', '.0'), ('s', '.')) and p[2] != 'i64':
            return ps[0][1][3]
        return None

    def literal(self, p):
        """the number a fixed text is parsed to"""
        t = p[3]
        while t[:2] == ('y', 'str') and t[2] == 'trim':
            t = t[3][0] if isinstance(t[3][0], tuple) else t[3]
        if t[0] == 'cat' and all(x[0] == 's' for x in t[1]):
            t = ('s', ''.join(x[1] for x in t[1]))
        if t[0] == 'cat':
            ps = [x[1] if x[0] == 's' else str(x[1][3][1]) if x[0] == 'v' and x[1][:2] == ('y', 'disp') and mirai.isint(x[1][3]) else None for x in t[1]]
            t = ('s', ''.join(ps)) if None not in ps else t
        if t[0] != 's':
            return None
        if p[2] == 'f64' and re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)', t[1]):
            return ('fl', repr(float(t[1])))
        if p[2] == 'i64' and re.fullmatch(r'[+-]?[0-9]{1,18}', t[1]):
            return I(int(t[1]))
        return None

    def number(self, t):
        """the class of a number, or None"""
        t = self.base(t)
        if t in self.cls:
            return self.cls[t]
        if t[0] == 'fl':
            try:
                x = float(t[1])
            except (TypeError, ValueError):
                return NAN if 'nan' in str(t[1]).lower() else None
            if x != x:
                return NAN
            if x in (float('inf'), float('-inf')):
                return PINF if x > 0 else NINF
            if x == 0:
                return NZ if str(x).startswith('-') else PZ
            return POS if x > 0 else NEG
        if mirai.isint(t):
            return POS if t[1] > 0 else NEG if t[1] < 0 else PZ
        if t[:2] == ('y', 'len') and self.cls.get(t[2]) in ('empty', 'some'):
            return PZ if self.cls[t[2]] == 'empty' else POS
        if t[0] == 'i' and t[1] == 0 and len(t[2]) == 1:
            s, x = t[2][0]
            c = self.number(s)
            if c is not None:
                return c if x > 0 else {NZ: PZ, PZ: PZ}.get(MINUS[c], MINUS[c])
        if t[:2] in (('y', 'neg'),):
            c = self.number(t[2])
            return MINUS.get(c)
        if t[:2] == ('y', 'num'):
            x = self.number(t[3][0])
            if x is None:
                return None
            if t[2] == 'neg':
                return MINUS[x]
            if t[2] == 'abs':
                return MINUS[x] if x in (NEG, NINF, NZ) else x
            if t[2] == 'signum':
                return NAN if x == NAN else POS if x in (PZ, POS, PINF) else NEG
        return None

    def order(self, x, y):
        bx, by = self.base(x), self.base(y)
        if bx == by:
            c = self.number(bx)
            return None if c is None else 'un' if c == NAN else 'eq'
        if (bx, by) in self.rel:
            return self.rel[(bx, by)]
        if (by, bx) in self.rel:
            return FLIP[self.rel[(by, bx)]]
        if bx[:2] == ('y', 'num') and bx[2] == 'signum' or by[:2] == ('y', 'num') and by[2] == 'signum':
            f, g = (x, y) if bx[:2] == ('y', 'num') and bx[2] == 'signum' else (y, x)
            v = {POS: 1, NEG: -1}.get(self.number(f))
            k = self.value_of(self.base(g))
            if v is not None and k is not None:
                r = 'lt' if v < k else 'gt' if v > k else 'eq'
                return r if f is x else FLIP[r]
        kx, ky = self.value_of(bx), self.value_of(by)
        if kx is not None and ky is not None:
            return 'lt' if kx < ky else 'gt' if kx > ky else 'eq' if kx == ky else 'un'
        cx, cy = self.number(bx), self.number(by)
        if cx is None or cy is None:
            return None
        o = orders(cx, cy)
        return o[0] if len(o) == 1 else None

    def value_of(self, t):
        if mirai.isint(t):
            return t[1]
        if t[0] == 'fl':
            try:
                return float(t[1])
            except (TypeError, ValueError):
                return float('nan') if 'nan' in str(t[1]).lower() else None
        return None

    # ---- conditions ------------------------------------------------------------------------------------------------
    def bool(self, t):
        if t in self.truth:
            return self.truth[t]
        if t[0] == 'b':
            return t[1]
        if t[0] == 'p':
            return self.pred(t[1])
        if t[0] != 'y':
            return None
        if t[1] == 'bin':
            op, x, y = t[2], t[3], t[4]
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                a, b = self.bool(x), self.bool(y)
                if op == 'BitAnd':
                    return False if a is False or b is False else (True if a and b else None)
                if op == 'BitOr':
                    return True if a or b else (False if a is False and b is False else None)
                if a is not None and b is not None:
                    return {'BitXor': a != b, 'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                o = self.order(x, y)
                if o is None:
                    return None
                return {'Eq': o == 'eq', 'Ne': o != 'eq', 'Lt': o == 'lt', 'Gt': o == 'gt', 'Le': o in ('lt', 'eq'), 'Ge': o in ('gt', 'eq')}[op]
        if t[1] == 'num':
            c = self.number(t[3][0])
            if c is not None:
                return {'is_nan': c == NAN, 'is_infinite': c in (NINF, PINF), 'is_finite': c not in (NAN, NINF, PINF),
                        'is_sign_negative': None if c == NAN else c in (NINF, NEG, NZ),
                        'is_sign_positive': None if c == NAN else c in (PINF, POS, PZ)}.get(t[2])
        return None

    def pred(self, p):
        k = p[0]
        if k == 'const':
            return p[1]
        if k == 'not':
            r = self.pred(p[1])
            return None if r is None else not r
        if k == 'is':
            return self.bool(p[1])
        if k == 'le':
            return self.le(p[1])
        if k == 'eq':
            return self.zero(p[1])
        if k == 'var':
            return self.has(p[1], p[2])
        if k == 'eqv':
            return self.same(p[1], p[2])
        return None

    def le(self, l):
        """l <= 0"""
        c, d = lin(l)
        ks = sorted(d.items(), key=lambda e: -e[1])
        if not ks:
            return c <= 0
        if len(ks) == 1 and abs(ks[0][1]) == 1:
            s, x = ks[0]
            o = self.order(s, I(-c * x))
            if o is None and x == 1 and self.number(s) == POS and -c < 1:
                return False                  # an integer
            if o is None and x == -1 and self.number(s) == POS and c <= 1:
                return True
            if o is None and x == 1 and self.number(s) == NEG and -c >= -1:
                return True
            if o is None and x == -1 and self.number(s) == NEG and c > -1:
                return False
            if o is None:
                return None
            return o in (('lt', 'eq') if x == 1 else ('gt', 'eq'))
        if len(ks) == 2 and ks[0][1] == 1 and ks[1][1] == -1:
            o = self.order(ks[0][0], ks[1][0])
            if o == 'lt':
                return True if c <= 1 else None
            if o == 'eq':
                return c <= 0
            if o == 'gt':
                return False if c >= 0 else None
        return None

    def zero(self, l):
        c, d = lin(l)
        ks = sorted(d.items(), key=lambda e: -e[1])
        if not ks:
            return c == 0
        if len(ks) == 1 and abs(ks[0][1]) == 1:
            o = self.order(ks[0][0], I(-c * ks[0][1]))
            return None if o is None else o == 'eq'
        if len(ks) == 2 and c == 0 and ks[0][1] == 1 and ks[1][1] == -1:
            o = self.order(ks[0][0], ks[1][0])
            return None if o is None else o == 'eq'
        return None

    def has(self, t, v):
        """has the term this value (a variant, a number, a text)?"""
        if isinstance(v, bool):
            b = self.bool(t)
            return None if b is None else b == v
        if isinstance(v, int):
            o = self.order(t, I(v))
            return None if o is None else o == 'eq'
        if t in self.kind:
            return self.kind[t] == v
        if t[:2] == ('y', 'parse') and v in ('Ok', 'Err') and (self.shown(t) is not None or self.literal(t) is not None):
            return v == 'Ok'
        if t[:2] == ('y', 'checked') and t[2] in ('abs', 'neg') and v in ('Some', 'None') and self.number(t[3][0]) in (PZ, POS):
            return v == 'Some'            # only the least integer has no absolute value
        if t[:2] == ('y', 'cmp') and v in ('Less', 'Equal', 'Greater'):
            o = self.order(t[2], t[3])
            return None if o is None else {'lt': 'Less', 'eq': 'Equal', 'gt': 'Greater'}.get(o) == v
        if t[:2] == ('y', 'partial_cmp') and v in ('Some', 'None'):
            o = self.order(t[2], t[3])
            return None if o is None else (v == 'None') == (o == 'un')
        if t[:2] == ('y', 'vf') and t[2][:2] == ('y', 'partial_cmp'):
            o = self.order(t[2][2], t[2][3])
            return None if o is None else {'lt': 'Less', 'eq': 'Equal', 'gt': 'Greater'}.get(o) == v
        if isinstance(v, tuple) and v[0] == 's' and t in self.cls:
            if v[1] == '':
                return {'empty': True, 'some': False}.get(self.cls[t])
            if self.cls[t] == 'empty':
                return False
        return None

    def same(self, a, b):
        x, y = self.bool(a), self.bool(b)
        if x is not None and y is not None:
            return x == y
        o = self.order(a, b)
        return None if o is None else o == 'eq'

    # ---- paths -----------------------------------------------------------------------------------------------------
    def fits(self, st, norm=None):
        """is what the path has established possible in this case?"""
        n = norm or (lambda t: t)
        for t, v in st.known.items():
            if self.has(n(t), v) is False:
                return False
        for t, vs in st.excl.items():
            for v in vs:
                if self.has(n(t), v) is True:
                    return False
        for l in st.les:
            if self.le(n(l)) is False:
                return False
        for k, v in st.eqs.items():
            r = self.same(n(k[1]), n(k[2])) if k[0] == 'eqv' else self.zero(k)
            if r is not None and r != v:
                return False
        for s, l in st.sub.items():
            if self.zero(mirai.lsub(s, l)) is False:
                return False
        return True
