"""Abstract interpretation of the arithmetic operators on every pair of kinds of item, judged in every case the two operands can be in
(zero, negative, infinite, NaN, ...).  The value a path returns is read back as an expression over the operands, conversions that
keep a number left out; a quotient that becomes an integer is judged at one point of every region its value is compared by."""
from ..nodes import *
from ..cases import *
from .v04 import N_item
from .v08 import with_values, NUMS

OPS = {'OperatorAdd': 'Add', 'OperatorSubtract': 'Sub', 'OperatorMultiply': 'Mul', 'OperatorDiv': 'Div', 'OperatorMod': 'Rem'}
NAMES = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'wrapping_rem': 'Rem', 'neg': 'Neg', 'trunc': 'Trunc'}
LIM = 9223372036854775808.0
A_, B_ = ('y', 'a'), ('y', 'b')


class Quotient(Case):
    """a case in which also the quotient of the two operands is known"""
    def __init__(self, value, **kw):
        Case.__init__(self, **kw)
        self.value = value

    def value_of(self, t):
        e = expr(self, t)
        x = self.value
        q = want(self, 'Div', A_, B_)
        if e == q:
            return x
        if e == ('Trunc', q):
            return x if x != x or x in (float('inf'), float('-inf')) else float(int(x))
        if t[:2] == ('y', 'num') and t[2] == 'abs':
            v = self.value_of(t[3][0])
            return None if v is None else abs(v)
        return Case.value_of(self, t)

    def number(self, t):
        v = self.value_of(t) if t[0] == 'y' and t not in self.cls else None
        if v is not None:
            return NAN if v != v else PINF if v == float('inf') else NINF if v == float('-inf') else POS if v > 0 else NEG if v < 0 else PZ
        return Case.number(self, t)


def expr(case, t):
    """the value of a term as an expression over the operands"""
    while True:
        u = Case.base(case, t)
        if u == t:
            break
        t = u
    if t[0] == 'i':
        zero = [x for x in (A_, B_) if case.cls.get(x) == PZ]
        if mirai.isint(t) and t[1] == 0 and zero:
            return ('zero',)
        c, d = lin(t)
        ts = [expr(case, s) if x == 1 else ('Neg', expr(case, s)) for s, x in d.items() if abs(x) == 1]
        if c == 0 and len(ts) == len(d) == 2:
            return mk('Add', *ts)
        if c == 0 and len(ts) == len(d) == 1:
            return ts[0]
        return t
    if t[0] == 'fl' and Case.value_of(case, t) == 0 and not t[1].startswith('-') and PZ in (case.cls.get(A_), case.cls.get(B_)):
        return ('zero',)
    if t in (A_, B_):
        return ('zero',) if case.cls.get(t) == PZ else t
    if t[:2] == ('y', 'bin') and t[2] in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
        return mk(t[2], expr(case, t[3]), expr(case, t[4]))
    if t[:2] == ('y', 'neg'):
        return ('Neg', expr(case, t[2]))
    if t[:2] == ('y', 'num') and t[2] in NAMES:
        return mk(NAMES[t[2]], *[expr(case, x) for x in t[3]])
    if t[:2] == ('y', 'vf') and t[2][:2] == ('y', 'checked') and t[3] == 'Some' and t[2][2] in NAMES:
        return mk(NAMES[t[2][2]], *[expr(case, x) for x in t[2][3]])
    if t[:2] == ('y', 'cast') and len(t) == 5 and t[3] == 'f64' and t[4] in ('i64', 'i128'):
        e = expr(case, t[2])
        return e if e[0] == 'Trunc' else ('Trunc', e)
    return t


def mk(op, *xs):
    if op == 'Sub' and xs[0] == I(0):
        return mk('Neg', xs[1])
    if op == 'Sub':
        op, xs = 'Add', (xs[0], ('Neg', xs[1]))
    if op in ('Add', 'Mul'):
        xs = tuple(sorted(xs, key=repr))
    return (op,) + tuple(xs)


def want(case, op, *xs):
    return mk(op, *[('zero',) if case.cls.get(x) == PZ else x for x in xs])


def classes(k):
    return INTS if k == 'XIInteger' else FLOATS


def promote(kx, ky):
    return NUMS[max(NUMS.index(kx), NUMS.index(ky))]


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('arithmetic operators give the promoted result of the operation or an error')
    n = 0
    for k in list(OPS) + ['OperatorIDiv']:
        if k not in V.kinds:
            raise AnalysisError('no node kind %s' % k)
        for kx in N.kinds:
            for ky in N.kinds:
                n += binary(ctx, P, V, N, k, kx, ky)
        structure(ctx, P, V, N, k, (LEFT, RIGHT))
    for k in ('OperatorUnaryPlus', 'OperatorUnaryMinus'):
        if k not in V.kinds:
            raise AnalysisError('no node kind %s' % k)
        for kx in N.kinds:
            n += unary(ctx, P, V, N, k, kx)
        structure(ctx, P, V, N, k, (RIGHT,))
    for kx in N.kinds:
        for ky in N.kinds:
            n += to(ctx, P, V, N, kx, ky)
    structure(ctx, P, V, N, 'OperatorTo', (LEFT, RIGHT))
    ctx.floor('combinations of an operator and kinds of operands', n, 400)
    ctx.saw(*V.entered)


def overflow(o, case, e):
    """does the path know that the operation on integers has no result?"""
    def is_(t):
        return t[:2] == ('y', 'checked') and expr(case, ('y', 'vf', t, 'Some', 0)) == e
    if e == ('Neg', A_) and o.st.ent_le(lsub(A_, I(-2 ** 63))):
        return True
    return any(is_(t) and v == 'None' for t, v in o.st.known.items()) or any(is_(t) and 'Some' in v for t, v in o.st.excl.items())


def single(q, L, g):
    if g[0] != 'ok':
        return None
    ps = L.parts(q.st, L.of(g[1]))
    if len(ps) != 1 or ps[0][0] != 'e' or ps[0][1][0] != 'A':
        return None
    return ps[0][1]


def outs(I_, P):
    return [(Query(I_, o), o) for o in I_.rets]


def binary(ctx, P, V, N, k, kx, ky):
    key = '%s of %s and %s' % (k, kx, ky)
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, N.seq(N_item(N, kx, A_)), N.seq(N_item(N, ky, B_))))
    L = Lists(I_, P)
    if kx not in NUMS or ky not in NUMS:
        for q, o in outs(I_, P):
            ctx.check(q.got()[0] == 'err', key, 'is %s although an operand is not a number' % short(q.val))
        ctx.check(bool(I_.rets), key, 'never returns')
        return 1
    for ca in classes(kx):
        for cb in classes(ky):
            cls = {A_: ca, B_: cb}
            if k == 'OperatorIDiv':
                idiv(ctx, I_, L, P, key, kx, ky, cls)
                continue
            kind = promote(kx, ky)
            if k == 'OperatorDiv' and kind == 'XIInteger':
                kind = 'XIDecimal'
            case = Case(cls=cls)
            e = want(case, OPS[k], A_, B_)
            some = 0
            for q, o in outs(I_, P):
                if not case.fits(o.st):
                    continue
                some += 1
                g = q.got()
                what = '%s and %s' % (ca, cb)
                if k in ('OperatorDiv', 'OperatorMod') and cb in (PZ, NZ) and promote(kx, ky) != 'XIDouble':
                    ctx.check(g[0] == 'err', key, 'is %s although the divisor is zero' % short(q.val))
                    continue
                if g[0] == 'err':
                    ctx.check(kind == 'XIInteger' and k != 'OperatorMod' and overflow(o, case, e), key, 'is an error for %s' % what)
                    continue
                value(ctx, q, L, g, key, kind, case, e, what)
            ctx.check(some > 0, key, 'never returns for %s and %s' % (ca, cb))
    return 1


def value(ctx, q, L, g, key, kind, case, e, what):
    it = single(q, L, g)
    if it is None or it[3] != kind:
        ctx.check(False, key, 'gives %s for %s instead of one item of the kind %s' % (short(q.val), what, kind))
        return
    got = expr(case, q.norm(it[4][0]))
    ctx.check(got == e, key, 'gives %s for %s' % (short(q.norm(it[4][0])), what))


def idiv(ctx, I_, L, P, key, kx, ky, cls):
    ca, cb = cls[A_], cls[B_]
    ints = kx == ky == 'XIInteger'
    what = '%s and %s' % (ca, cb)
    if cb in (PZ, NZ):
        case = Case(cls=cls)
        some = 0
        for q, o in outs(I_, P):
            if case.fits(o.st):
                some += 1
                ctx.check(q.got()[0] == 'err', key, 'is %s instead of an error for %s' % (short(q.val), what))
        ctx.check(some > 0, key, 'never returns for %s' % what)
        return
    if ints:
        case = Case(cls=cls)
        some = 0
        for q, o in outs(I_, P):
            if not case.fits(o.st):
                continue
            some += 1
            e = want(case, 'Div', A_, B_)
            g = q.got()
            if g[0] == 'err':
                ctx.check(overflow(o, case, e), key, 'is an error for %s' % what)
            else:
                value(ctx, q, L, g, key, 'XIInteger', case, e, what)
        ctx.check(some > 0, key, 'never returns for %s' % what)
        return
    # the quotient in every region
    sign = -1 if (ca in (NEG, NINF)) != (cb in (NEG, NINF)) else 1
    points = [float('nan')] if NAN in (ca, cb) or ca in (NINF, PINF) and cb in (NINF, PINF) else [sign * float('inf')] if ca in (NINF, PINF) else \
        [0.0] if ca in (PZ, NZ) or cb in (NINF, PINF) else [sign * x for x in (0.25, 5.5, 1e9 + 0.5, LIM - 1024, LIM, LIM + 2048, 1e300)]
    for x in points:
        case = Quotient(x, cls=cls)
        fit = -LIM <= x < LIM
        some = 0
        for q, o in outs(I_, P):
            if not case.fits(o.st):
                continue
            some += 1
            g = q.got()
            if not fit:
                ctx.check(g[0] == 'err', key, 'is %s instead of an error when the quotient is too large' % short(q.val))
            elif g[0] == 'err':
                ctx.check(False, key, 'is an error for %s and a quotient of %s' % (what, x))
            else:
                value(ctx, q, L, g, key, 'XIInteger', case, ('Trunc', want(case, 'Div', A_, B_)), what)
        ctx.check(some > 0, key, 'never returns for %s' % what)


def unary(ctx, P, V, N, k, kx):
    key = '%s of %s' % (k, kx)
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, N.seq(), N.seq(N_item(N, kx, A_))))
    L = Lists(I_, P)
    if kx not in NUMS:
        for q, o in outs(I_, P):
            ctx.check(q.got()[0] == 'err', key, 'is %s although the operand is not a number' % short(q.val))
        ctx.check(bool(I_.rets), key, 'never returns')
        return 1
    for ca in classes(kx):
        case = Case(cls={A_: ca})
        e = want(case, 'Neg', A_) if k == 'OperatorUnaryMinus' else expr(case, A_)
        some = 0
        for q, o in outs(I_, P):
            if not case.fits(o.st):
                continue
            some += 1
            g = q.got()
            if g[0] == 'err':
                ctx.check(k == 'OperatorUnaryMinus' and kx == 'XIInteger' and (overflow(o, case, e) or overflow(o, case, mk('Sub', ('zero',), ('zero',)))), key, 'is an error for %s' % ca)
                continue
            if kx == 'XIInteger' and ca == PZ and e[0] == 'Neg':
                it = single(q, L, g)
                if it is not None and it[3] == kx and (case.number(q.norm(it[4][0])) == PZ or expr(case, q.norm(it[4][0])) == mk('Sub', ('zero',), ('zero',))):
                    continue
            value(ctx, q, L, g, key, kx, case, e, ca)
        ctx.check(some > 0, key, 'never returns for %s' % ca)
    return 1


def structure(ctx, P, V, N, k, sides):
    """an operand that is not a single item is an error"""
    one = N.seq(N_item(N, 'XIInteger', A_))
    fld = P.adts[N.xs]['variants'][0]['fields'][0]['name']
    many = ('y', 'A')
    lst = ('y', 'fld', many, 0, fld)
    for side in sides:
        for what, v in (('no item', N.seq()), ('several items', many)):
            st = mirai.State()
            st.add_le(lsub(I(2), mirai.sym('len', lst, nonneg=True)))
            l, r = (v, one) if side == LEFT else (one, v)
            I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, l, r), st=st)
            for q, o in outs(I_, P):
                ctx.check(q.got()[0] == 'err', '%s with %s on the %s' % (k, what, 'left' if side == LEFT else 'right'), 'is %s' % short(q.val))


def to(ctx, P, V, N, kx, ky):
    k = 'OperatorTo'
    key = '%s of %s and %s' % (k, kx, ky)
    st = mirai.State()
    if kx == ky == 'XIInteger':
        for x in (A_, B_):
            st.add_le(lsub(x, I(2 ** 63 - 1)))
            st.add_le(lsub(I(-2 ** 63), x))
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, N.seq(N_item(N, kx, A_)), N.seq(N_item(N, ky, B_))), st=st)
    L = Lists(I_, P)
    F = Folds(I_)
    for q, o in outs(I_, P):
        g = q.got()
        if kx != 'XIInteger' or ky != 'XIInteger':
            ctx.check(g[0] == 'err', key, 'is %s although an operand is no integer' % short(q.val))
            continue
        why = None
        if g[0] != 'ok':
            why = 'is %s' % short(q.val)
        elif L.empty(o.st, L.of(g[1])):
            if not o.st.ent_le(ladd(lsub(B_, A_), I(1))):
                why = 'is empty although the left number is not known to be the larger one'
        else:
            why = counted(I_, F, o, L.of(g[1]))
        ctx.check(why is None, key, why or '')
    ctx.check(bool(I_.rets), key, 'never returns')
    return 1


def counted(I_, F, o, l):
    """why the list is not a, a + 1, ..., b"""
    last = None
    if l[:2] == ('y', 'snoc'):
        last, l = l[3], l[2]
    og = F.origin(o.st, l)
    if og is None:
        return 'the list %s cannot be read back' % short(l)
    key, cell, path = og
    start = I_.norm(o.st, follow(o.st.aux[('gs', key)][cell], path))
    if not (start[0] == 'R' and not start[1]):
        return 'the list starts with %s' % short(start)
    p = None
    for b in F.around(o.st, key):
        v = I_.norm(b.st, follow(b.st.mem[cell], path))
        if v[:2] == ('y', 'snoc') and v[2] == l and v[3][:2] == ('y', 'elem'):
            it = F.iteration(b, key)
            if it is not None and it[1] == I(0) and v[3][2] == it[0] and b.st.nl(v[3][3]) == b.st.nl(it[2]) and last is None and \
                    o.st.ent_le(lsub(it[3], it[2])):
                return counted(I_, F, o, it[0])
        if v[:2] != ('y', 'snoc') or v[2] != l or v[3][0] != 'A' or v[3][3] != 'XIInteger':
            return 'a way round adds %s' % short(v)
        x = b.st.nl(I_.norm(b.st, v[3][4][0]))
        first, nxt = {}, {}
        for c, w in b.st.aux[('gw', key)].items():
            if w is None or c not in b.st.mem:
                continue
            s = b.st.aux[('gs', key)].get(c, w)
            for (y, ny), (e, _) in zip(moves(w, b.st.mem[c]), int_parts(s, w)):
                if y[0] == 'y':
                    first[y], nxt[y] = b.st.nl(e), b.st.nl(ny)
        at = lambda m: put(x, m)
        if o.st.nl(at(first)) != A_:
            return 'the first number is %s' % short(at(first))
        if lsub(at(nxt), x) != I(1):
            return 'the number behind %s is %s' % (short(x), short(at(nxt)))
        if not b.st.ent_le(lsub(x, B_)):
            return 'a number is added that may be larger than the right one'
        p = x
    if p is None:
        return 'no number is added'
    if last is not None:
        if last[0] != 'A' or last[3] != 'XIInteger' or o.st.nl(I_.norm(o.st, last[4][0])) != o.st.nl(p):
            return 'the last number is %s' % short(last)
        if not (o.st.ent_le(lsub(p, B_)) and o.st.ent_le(lsub(B_, p))):
            return 'the last number %s is not the right one' % short(p)
        return None
    if not o.st.ent_le(ladd(lsub(B_, p), I(1))):
        return 'ends before the right number'
    return None


def moves(w, v):
    if w == v and mirai.is_num(w):
        return [(w, w)]
    return list(int_parts(w, v))


def put(t, m):
    """a linear term with symbols replaced"""
    c, d = lin(t)
    out = I(c)
    for s, x in d.items():
        u = m.get(s, s)
        out = ladd(out, scale(u, x))
    return out


def scale(u, x):
    out = I(0)
    for _ in range(abs(x)):
        out = ladd(out, u) if x > 0 else lsub(out, u)
    return out
