"""Abstract interpretation of the node comparisons on every pair of kinds of item; for two nodes judged in the three cases of their
places in the document (the order number of a node stands for its place; only the same node has the same number)."""
from ..nodes import *
from ..cases import *
from .v04 import N_item
from .v08 import with_values, boolean

OPS = {'OperatorIsSameNode': 'eq', 'OperatorNodeBefore': 'lt', 'OperatorNodeAfter': 'gt'}
A_, B_ = ('y', 'a'), ('y', 'b')


class Places(Case):
    """two nodes of which the first is before, the same as or behind the second"""
    def __init__(self, do, how):
        a, b = [('y', 'call', do, (x,)) for x in (A_, B_)]
        Case.__init__(self, rel={(a, b): how})
        self.how = how

    def ptr(self, p):
        xs = p[2:] if p[0] == 'y' else p[1:]
        xs = [x[2] if x[:2] == ('y', 'fld') else x for x in xs]
        return self.how == 'eq' if set(xs) == {A_, B_} else None

    def bool(self, t):
        if t[:2] == ('y', 'ptreq'):
            return self.ptr(t)
        return Case.bool(self, t)

    def pred(self, p):
        if p[0] == 'ptreq' or p[0] == 'eqv' and set(p[1:]) == {A_, B_}:
            return self.ptr(p)
        return Case.pred(self, p)

    def has(self, t, v):
        if isinstance(v, bool) and t[0] == 'ptreq':
            b = self.ptr(t)
            return None if b is None else b == v
        return Case.has(self, t, v)

    def same(self, a, b):
        if {a, b} == {A_, B_}:
            return self.how == 'eq'
        return Case.same(self, a, b)


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('is, << and >> compare the places of two single nodes')
    do = P.find('NodePtr::document_order')
    n = 0
    for k, holds in sorted(OPS.items()):
        if k not in V.kinds:
            raise AnalysisError('no node kind %s' % k)
        for kx in N.kinds:
            for ky in N.kinds:
                n += pair(ctx, P, V, N, k, kx, ky, holds, do)
        structure(ctx, P, V, N, k)
    ctx.floor('combinations of an operator and kinds of operands', n, 150)
    ctx.saw(*V.entered)


def pair(ctx, P, V, N, k, kx, ky, holds, do):
    key = '%s of %s and %s' % (k, kx, ky)
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror', 'NodePtr::document_order'),
               models=with_values(V, N.seq(N_item(N, kx, A_)), N.seq(N_item(N, ky, B_))))
    L = Lists(I_, P)
    ctx.check(bool(I_.rets), key, 'never returns')
    for how in ('lt', 'eq', 'gt') if kx == ky == 'XINode' else (None,):
        case = Places(do, how) if how else Case()
        some = 0
        for o in I_.rets:
            if not case.fits(o.st):
                continue
            some += 1
            q = Query(I_, o)
            g = q.got()
            if how is None:
                ctx.check(g[0] == 'err', key, 'is %s although an operand is not a node' % short(q.val))
                continue
            b = boolean(q, L, g)
            r = None if b is None else case.bool(b)
            ctx.check(r is (how == holds), key, 'is %s and not %s when the left node is %s' % (
                short(q.val if b is None else b), how == holds, {'lt': 'before the right one', 'eq': 'the right one', 'gt': 'behind the right one'}[how]))
        ctx.check(some > 0, key, 'never returns')
    return 1


def structure(ctx, P, V, N, k):
    one = N.seq(N_item(N, 'XINode', A_))
    fld = P.adts[N.xs]['variants'][0]['fields'][0]['name']
    many = ('y', 'A')
    lst = ('y', 'fld', many, 0, fld)
    for side in (LEFT, RIGHT):
        for what, v in (('no item', N.seq()), ('several items', many)):
            st = mirai.State()
            st.add_le(lsub(I(2), mirai.sym('len', lst, nonneg=True)))
            l, r = (v, one) if side == LEFT else (one, v)
            I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror', 'NodePtr::document_order'), models=with_values(V, l, r), st=st)
            for o in I_.rets:
                q = Query(I_, o)
                ctx.check(q.got()[0] == 'err', '%s with %s on the %s' % (k, what, 'left' if side == LEFT else 'right'), 'is %s' % short(q.val))
