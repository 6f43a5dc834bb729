"""The function library, run through the function table: a function is called by its name with arguments of a given shape (an empty
sequence, one item of a given kind, a list of unknown length), and what each path returns is read back as pieces of the
arguments."""
from .nodes import *
from .mirai import is_num
from .cases import *
from .places import *

SHAPES = {'s': 'XIString', 'i': 'XIInteger', 'd': 'XIDouble', 'c': 'XIDecimal', 'n': 'XINode', 'b': 'XIBoolean', 'f': 'XItemXNodePtr',
          'm': 'XIMap', 'a': 'XIArray'}


class Odd(Exception):
    pass


class Funcs:
    def __init__(self, P):
        self.P = P
        self.V = V = Ev(P)
        self.N = Nodes(P, V)
        self.table = P.find('evaluate_function')
        if P.fns[self.table]['argc'] != 4:
            raise AnalysisError('evaluate_function no longer has four arguments')
        self.opq = [e for e in V.envs() if e != self.table and '::func::' not in e]
        self.field = P.adts[self.N.xs]['variants'][0]['fields'][0]['name']
        self.windows = {}

    # ---- arguments ---------------------------------------------------------------------------------------------------
    def item(self, kind, *vals):
        return ('A', self.N.xi, self.N.kinds.index(kind), kind, tuple(vals))

    def arg(self, shape, i):
        """the i-th argument: 'e' an empty sequence, '*' any sequence, a letter of SHAPES one item of that kind"""
        if shape == 'e':
            return self.N.seq()
        if shape == '*':
            return ('y', 'A%d' % i)
        return self.N.seq(*[self.item(SHAPES[k], self.val(i) if len(shape) == 1 else ('y', 'a%d_%d' % (i, j)))
                            for j, k in enumerate(shape)])

    def val(self, i):
        return ('y', 'a%d' % i)

    def list(self, i):
        return ('y', 'fld', ('y', 'A%d' % i), 0, self.field)

    def len(self, i):
        return mirai.sym('len', self.list(i), nonneg=True)

    def run(self, name, shapes, st=None, context=None, leaves=('xmlerror',), **kw):
        args = [S(name) if isinstance(name, str) else name, ('R', tuple(self.arg(s, i) for i, s in enumerate(shapes))), context or self.V.ctx, self.V.env]
        return self.V.run(None, leaves, fn=self.table, args=args, st=st, opaque=self.opq, **kw)

    # ---- results -----------------------------------------------------------------------------------------------------
    def results(self, I_, case=None):
        """(query, list reader, kind, parts) of the paths that the case allows"""
        L = Lists(I_, self.P)
        out = []
        for o in I_.rets:
            q = Query(I_, o)
            if case is not None and not (case.fits(o.st) and case.fits(o.st, q.norm)):
                continue
            g = q.got()
            out.append((q, L, g[0], g[1] if len(g) > 1 else None))
        return out

    def spans(self, q, L, v, hints=()):
        """the list of a value as spans of other lists and single items, empty and adjacent ones put together"""
        L.F.hints = list(hints)
        return self.tidy(q.st, L, [x for p in L.F.elements(q.st, L.of(v)) for x in self.at_one(q, L, self.span(q, L, p))])

    def at_one(self, q, L, p):
        """a loop that puts its items in, and something else at one index, as spans"""
        if p[0] != 'loop':
            return [p]
        st, l, lo, hi, part = q.st, p[1], p[2], p[3], p[4]
        n = part[5]
        odd = [(b, a) for b, a in part[3] if a != [('e', ITEM)]]
        if len(odd) != 1:
            return [p]
        b, alt = odd[0]
        k = b.st.nl(n)
        if k == n:
            ks = [solved(t, n) for t, v in b.st.eqs.items() if v is True and t[0] not in ('eqv', 'p')]
            k = ([x for x in ks if x is not None] + [n])[0]
        if k == n or any(o.st.ev(('eq', lsub(n, k))) is not False and not apart(o.st, n, k) for o, a in part[3] if o is not b):
            return [p]
        at = lambda x: x if x[0] != 'e' else subst(x, lambda y: ('y', 'elem', l, k) if y == ITEM else None)
        if st.ent_le(lsub(hi, k)) or st.ent_le(ladd(lsub(k, lo), I(1))):
            return [('span', l, lo, hi)]
        if st.ent_le(lsub(lo, k)) and st.ent_le(ladd(lsub(k, hi), I(1))):
            return [('span', l, lo, k)] + [self.span(q, L, at(x)) for x in alt] + [('span', l, ladd(k, I(1)), hi)]
        return [p]

    def span(self, q, L, p):
        st = q.st
        if p[0] == 'e':
            x = q.norm(p[1])
            if x[:2] == ('y', 'elem'):
                return ('span', x[2], x[3], ladd(x[3], I(1)))
            return ('e', x)
        if p[0] == 'l':
            l = q.norm(p[1])
            if l[:2] == ('y', 'reverse'):
                return ('rev', l[2])
            if l[:2] == ('y', 'sl') and len(l) == 5:
                return self.within(l[2], l[3], l[4])
            if l[:2] == ('y', 'w'):
                raise Odd('the list %s cannot be read back' % short(l))
            return ('span', l, I(0), L.length(st, l))
        alts = p[3]
        hi = L.length(st, p[1]) if p[4] else p[5]
        if p[1][0] != 'y':
            raise Odd('a loop over %s' % short(p[1]))
        if alts and all(a == [('e', ITEM)] for b, a in alts):
            return self.within(p[1], p[2], hi)
        return ('loop', p[1], p[2], hi, p)

    def within(self, l, lo, hi):
        """a span of a part of a list is a span of the list"""
        while l[:2] == ('y', 'sl') and len(l) == 5:
            lo, hi, l = ladd(l[3], lo), ladd(l[3], hi), l[2]
        return ('span', l, lo, hi)

    def tidy(self, st, L, ps):
        out = []
        for p in ps:
            if p[0] == 'span' and st.ent_le(lsub(p[3], p[2])):
                continue
            if p[0] == 'rev' and st.ent_le(L.length(st, p[1])):
                continue
            if p[0] == 'span' and out and out[-1][0] == 'span' and out[-1][1] == p[1] and self.same(st, out[-1][3], p[2]):
                out[-1] = ('span', p[1], out[-1][2], p[3])
                continue
            out.append(p)
        return out

    def same(self, st, a, b):
        return st.nl(a) == st.nl(b) or st.ent_le(lsub(a, b)) and st.ent_le(lsub(b, a))

    def matches(self, q, L, got, want):
        """None, or how the spans differ"""
        st = q.st
        want = self.tidy(st, L, [self.span(q, L, p) if p[0] == 'e' else p for p in want])
        if len(got) != len(want):
            return 'is %s instead of %s' % (self.show(got), self.show(want))
        for g, w in zip(got, want):
            ok = g[0] == w[0]
            if ok and g[0] == 'span':
                ok = q.norm(g[1]) == q.norm(w[1]) and self.same(st, g[2], w[2]) and self.same(st, g[3], w[3])
            elif ok and g[0] in ('e', 'rev'):
                ok = q.norm(g[1]) == q.norm(w[1])
            if not ok:
                return 'is %s instead of %s' % (self.show(got), self.show(want))
        return None

    def show(self, ps):
        out = []
        for p in ps:
            if p[0] in ('span', 'loop'):
                out.append('%s of %s from %s to %s' % ('items' if p[0] == 'span' else 'something for each', short(p[1], 60), short(p[2], 60), short(p[3], 60)))
            elif p[0] == 'rev':
                out.append('%s reversed' % short(p[1], 60))
            else:
                out.append(short(p[1], 120))
        return '[%s]' % ', '.join(out)

    def one(self, q, L, v, kind=None):
        """the payload of the single item (of the given kind) that a value is"""
        ps = L.F.elements(q.st, L.of(v))
        if len(ps) != 1 or ps[0][0] != 'e':
            return None
        x = q.norm(ps[0][1])
        if x[0] != 'A' or x[1] != self.N.xi or (kind is not None and x[3] != kind):
            return None
        return x if kind is None else q.norm(x[4][0])

    # ---- a rule ------------------------------------------------------------------------------------------------------
    def decide(self, ctx, key, I_, want, case=None, least=1, hints=(), err=None, facts=None):
        """every path that fits the case returns what is wanted: 'err', a list of spans, or a function (query, reader,
        value) -> None or what is wrong"""
        n = 0
        for q, L, k, v in self.results(I_, case):
            if facts is not None and not facts(q):
                continue                  # what the case says about the numbers contradicts the path
            n += 1
            w = want
            if k == 'err' and err is not None and err(q):
                continue
            if callable(want) and k != 'err':
                try:
                    why = want(q, L, v) if k == 'ok' else 'is %s' % short(q.val)
                except Odd as e:
                    why = str(e)
                ctx.check(why is None, key, why or '')
                continue
            if w == 'err':
                ctx.check(k == 'err', key, 'is %s instead of an error' % short(q.val))
                continue
            if k != 'ok':
                ctx.check(False, key, 'is the error %s' % short(q.val) if k == 'err' else 'is %s' % short(q.val))
                continue
            try:
                why = self.matches(q, L, self.spans(q, L, v, hints), w)
            except Odd as e:
                why = str(e)
            ctx.check(why is None, key, why or '')
        ctx.check(n >= least, key, 'never returns')
        return n

    def single(self, kind, ok):
        """the value is one item of the kind whose payload passes"""
        def f(q, L, v):
            x = self.one(q, L, v, kind)
            if x is None:
                return 'is %s instead of one %s' % (short(v), kind[2:])
            return ok(q, x)
        return f

    def exactly(self, kind, term):
        def ok(q, x):
            return None if self.equal(q, x, term) else 'is %s instead of %s' % (short(x), short(term))
        return self.single(kind, ok)

    def equal(self, q, x, y):
        x, y = q.norm(x), q.norm(y)
        if x == y:
            return True
        if y[0] == 'b':
            return q.st.ev(mirai.to_pred(x)) is y[1]
        if is_num(x) and is_num(y):
            return self.same(q.st, x, y)
        return False


def solved(l, n):
    """what n is when l is zero"""
    d = dict(mirai.lin(l)[1])
    k = d.get(n)
    if k not in (1, -1):
        return None
    return lsub(n, l) if k == 1 else ladd(n, l)


def apart(st, x, y):
    return st.ent_le(ladd(lsub(x, y), I(1))) or st.ent_le(ladd(lsub(y, x), I(1)))


def is_num(t):
    return mirai.is_num(t)


def bounds(*les):
    """a state in which each of the terms is not above zero"""
    st = mirai.State()
    for l in les:
        st.add_le(l)
    return st


# ---- texts -----------------------------------------------------------------------------------------------------------
def chars(t):
    return ('y', 'chars', t)


def nchars(t):
    return mirai.sym('len', chars(t), nonneg=True)


class Texts(Funcs):
    def text(self, q, L, t, hints=()):
        """a text as spans of the characters of other texts and single pieces"""
        st = q.st
        L.F.hints = list(hints)
        out = []
        for p in L.F.expand(st, q.norm(t)):
            if p[0] == 'ch' and p[1][:2] == ('y', 'elem'):
                out.append(('span', p[1][2], p[1][3], ladd(p[1][3], I(1))))
            elif p[:2] == ('y', 'w'):
                raise Odd('the text %s cannot be read back' % short(p))
            elif p[0] == 'y':
                out.append(('span', chars(p), I(0), nchars(p)))
            elif p[0] == 'for':
                hi = L.length(st, p[1]) if p[4] else p[5]
                sp = self.within(p[1], p[2], hi)
                if sp[1][:2] == ('y', 'chars') and p[3] and all(a in ([('ch', ITEM)], [ITEM]) for b, a in p[3]):
                    out.append(sp)
                else:
                    out.append(('loop', p[1], p[2], hi, p))
            else:
                out.append(('e', p))
        return self.tidy(st, L, out)

    def string(self, want, hints=()):
        """the value is one string made of the wanted pieces"""
        def f(q, L, v):
            x = self.one(q, L, v, 'XIString')
            if x is None:
                return 'is %s instead of one string' % short(v)
            w = want(q, L) if callable(want) else want
            got = self.text(q, L, x, hints)
            w = self.tidy(q.st, L, [self.whole(p) for p in w])
            return self.matches(q, L, got, w)
        return f

    def whole(self, p):
        return ('span', chars(p), I(0), nchars(p)) if p[0] == 'y' else p


def window(F, q, case, n, start, length=None):
    """the first index and the index behind the last one of the items whose position p is in round(start) <= p, and with a length
    p < round(start) + round(length), of n items; None when the path does not settle them"""
    st = q.st
    if case.number(start) in (NAN, PINF) or length is not None and case.number(length) in (NAN, NINF, NEG):
        return I(0), I(0)
    r = case.integer(case.rounded(start))
    lo = clamp(st, lsub(r, I(1)), I(0), n)
    if length is None or case.number(length) == PINF:
        hi = n
    else:
        l = case.integer(case.rounded(length))
        hi = clamp(st, lsub(ladd(r, l), I(1)), lo, n) if lo is not None else None
    if lo is None or hi is None:
        return None
    return lo, hi


def settle(q, case):
    """puts down the integers that the numbers of the path are converted to in this case; False when the path contradicts it"""
    st = q.st = q.st.fork()
    for s, (lo, hi) in ((k, r) for k, r in case.range.items() if r is not None):
        if lo is not None and not st.assume(mirai.le0(lsub(I(lo), s))) or hi is not None and not st.assume(mirai.le0(lsub(s, I(hi)))):
            return False
    found = {}

    def go(t):
        if isinstance(t, tuple) and t:
            if t[:2] == ('y', 'cast') and t[3:] == ('f64', 'i64'):
                found[t] = None
            for x in t:
                go(x)
    for t in [q.val] + list(st.les) + list(st.known) + list(st.excl) + list(st.eqs) + list(st.sub) + list(st.sub.values()):
        go(t)
    for t in found:
        x = case.integer(case.eval(t))
        if x is not None and not st.assume(('eq', lsub(t, x))):
            return False
    return True


def clamp(st, x, lo, hi):
    if st.ent_le(lsub(hi, lo)):
        return hi
    if st.ent_le(lsub(x, lo)):
        return lo
    if st.ent_le(lsub(hi, x)):
        return hi
    if st.ent_le(lsub(lo, x)) and st.ent_le(lsub(x, hi)):
        return x
    return None
