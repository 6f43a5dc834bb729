"""Abstract interpretation of the effective boolean value (and of fn:boolean, fn:not, fn:true and fn:false through the function
table) on every kind of item and every class of value; lists of more than one item are symbolic."""
from ..nodes import *
from ..cases import *

NUM = {'XIInteger': INTS, 'XIDecimal': FLOATS, 'XIDouble': FLOATS}


def wanted(kind, c):
    """the effective boolean value of a single item, None: there is none"""
    if kind == 'XINode':
        return True
    if kind == 'XIBoolean':
        return c
    if kind == 'XIString':
        return c != 'empty'
    if kind in NUM:
        return c not in (NAN, NZ, PZ)
    return None


def classes(kind):
    if kind in NUM:
        return NUM[kind]
    return {'XIBoolean': (True, False), 'XIString': ('empty', 'some')}.get(kind, (None,))


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('the effective boolean value of every kind of value, also by fn:boolean and fn:not')
    ebv = P.find('effective_boolean_value')
    table = P.find('evaluate_function')
    if P.fns[table]['argc'] != 4:
        raise AnalysisError('evaluate_function no longer has four arguments')
    opq = [e for e in V.envs() if e != table and '::func::' not in e]

    def direct(v, st):
        return V.run(None, ('xmlerror',), fn=ebv, args=[v], st=st), lambda x: x

    def by_table(name):
        def f(v, st):
            I_ = V.run(None, ('xmlerror',), fn=table, args=[S(name), ('R', () if v is None else (v,)), None, None], st=st, opaque=opq)
            return I_, None
        return f

    n = 0
    a = ('y', 'a')
    for name, how, neg in (('effective boolean value', direct, False), ('fn:boolean', by_table('fn:boolean'), False),
                           ('fn:not', by_table('fn:not'), True)):
        for kind in N.kinds:
            for c in classes(kind):
                case = Case(cls={a: c} if c is not None and not isinstance(c, bool) else {}, truth={a: c} if isinstance(c, bool) else {})
                n += decide(ctx, N, name, '%s%s' % (kind, '' if c is None else ' %s' % c), how(N.seq(N_item(N, kind, a)), mirai.State()),
                            case, wanted(kind, c), neg)
            # more than one item: only the first counts
            v = ('y', 'A')
            st = mirai.State()
            L = ('y', 'fld', v, 0, P.adts[N.xs]['variants'][0]['fields'][0]['name'])
            st.known[('y', 'elem', L, I(0))] = kind
            st.add_le(lsub(I(2), mirai.sym('len', L, nonneg=True)))
            n += decide(ctx, N, name, 'several items, the first %s' % kind, how(v, st), Case(), True if kind == 'XINode' else None, neg)
        n += decide(ctx, N, name, 'the empty sequence', how(N.seq(), mirai.State()), Case(), False, neg)
    for name, w in (('fn:true', True), ('fn:false', False)):
        n += decide(ctx, N, name, 'no argument', by_table(name)(None, mirai.State()), Case(), w, False)
    ctx.floor('cases', n, 100)
    ctx.saw(*V.entered)


def N_item(N, kind, *vals):
    return ('A', N.xi, N.kinds.index(kind), kind, tuple(vals))


def decide(ctx, N, name, what, run, case, want, neg):
    I_, conv = run
    if neg and want is not None:
        want = not want
    L = Lists(I_, ctx.P)
    key = '%s of %s' % (name, what)
    n = 0
    for o in I_.rets:
        if not case.fits(o.st):
            continue
        n += 1
        q = Query(I_, o)
        g = q.got()
        if want is None:
            ctx.check(g[0] == 'err', key, 'is %s instead of an error' % short(q.val))
            continue
        if g[0] != 'ok':
            ctx.check(False, key, 'is %s instead of %s' % (short(q.val), want))
            continue
        v = g[1]
        if conv is None:
            ps = L.parts(o.st, L.of(v))
            if len(ps) != 1 or ps[0][0] != 'e' or ps[0][1][0] != 'A' or ps[0][1][3] != 'XIBoolean':
                ctx.check(False, key, 'is %s instead of one boolean' % short(v))
                continue
            v = q.norm(ps[0][1][4][0])
        b = case.bool(v)
        if b is None:
            b = q.maybe(v)
        ctx.check(b is want, key, 'is %s instead of %s' % (short(v), want))
    ctx.check(n > 0, key, 'never returns')
    return 1
