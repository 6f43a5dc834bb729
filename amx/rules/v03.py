"""Abstract interpretation of the evaluator, one kind of expression at a time: for `and`, `or`, `if`, `some`, `every`, the comma
and parentheses, each path is compared with a decision procedure for the operator - which operand it has to look at first, what
the effective boolean value of that operand decides, and which operands it must leave alone."""
from ..ev import *
from ..sem import *

EBV = 'effective_boolean_value'


def run(ctx):
    P = ctx.P
    V = Ev(P)
    ebv = P.find(EBV)
    L, R = V.kid(V.x, LEFT), V.kid(V.x, RIGHT)
    two = {LEFT: None, RIGHT: None}
    leaves = (EBV, 'xmlerror')
    ctx.rule('each path of an operator returns what its operands decide')

    def b(q, v):
        return q.res(('y', 'call', ebv, (v,)))

    def s_or(q, L_):
        if q.truth(b(q, q.res(V.result(L)))):
            return ('bool', True)
        return ('bool', b(q, q.res(V.result(R))))

    def s_and(q, L_):
        if not q.truth(b(q, q.res(V.result(L)))):
            return ('bool', False)
        return ('bool', b(q, q.res(V.result(R))))

    for kind, sem, n in (('OperatorOr', s_or, 5), ('OperatorAnd', s_and, 5)):
        I_ = V.run((kind, two), leaves)
        check_paths(ctx, P, I_, kind, sem, n, V.env)

    def s_if(q, L_):
        c = q.truth(b(q, q.res(V.result(L))))
        return ('val', q.res(V.result(V.kid(V.x, RIGHT, LEFT if c else RIGHT))))
    I_ = V.run(('IfExpr', {LEFT: None, RIGHT: ('IfThenElse', two)}), leaves)
    check_paths(ctx, P, I_, 'IfExpr', s_if, 5, V.env)

    def s_comma(q, L_):
        l, r = q.any(V.result(L), V.result(R))
        return ('parts', [('l', L_.of(l)), ('l', L_.of(r))])
    I_ = V.run(('OperatorConcatenate', two), leaves)
    check_paths(ctx, P, I_, 'OperatorConcatenate', s_comma, 3, V.env)

    I_ = V.run(('ParenthesizedExpr', {LEFT: None}), leaves)
    check_paths(ctx, P, I_, 'ParenthesizedExpr', lambda q, L_: ('val', q.res(V.result(L))), 1, V.env)
    st = mirai.State()
    st.known[V.fld(V.x, LEFT)] = 'None'
    I_ = V.run(('ParenthesizedExpr', {}), leaves, st=st)
    check_paths(ctx, P, I_, 'ParenthesizedExpr ()', lambda q, L_: ('parts', []), 1, V.env)
    for kind in ('SomeExpr', 'EveryExpr', 'ForExpr', 'LetExpr'):
        I_ = V.run((kind, {RIGHT: None}), leaves)
        check_paths(ctx, P, I_, kind, lambda q, L_: ('val', q.res(V.result(R))), 1, V.env)
    for kind, stop in (('SomeVarBind', True), ('EveryVarBind', False)):
        quantifier(ctx, V, kind, stop, L, R, two, leaves, ebv)
    ctx.saw(*V.entered)


def quantifier(ctx, V, kind, stop, L, R, two, leaves, ebv):
    """some: true as soon as one is, false after the last; every: the other way round"""
    P = ctx.P
    I_ = V.run((kind, two), leaves)
    F = Folds(I_)
    lists = Lists(I_, P)
    seq = None
    key = None
    # the ways round: the body is evaluated and does not decide
    n = 0
    for o in I_.backs:
        q = Query(I_, o)
        l = ('y', 'vf', q.norm(V.result(L)), 'Ok', 0)
        it = F.iteration(o, o.info[2])
        if it is None or it[0] != q.norm(lists.of(l)):
            continue
        seq, key = it, o.info[2]
        body, val = body_of(q, V, R)
        ok = body is not None and q.known(body) == 'Ok'
        eb = ('y', 'call', ebv, (('y', 'vf', body, 'Ok', 0),)) if ok else None
        ok = ok and q.known(eb) == 'Ok' and q.known(('y', 'vf', eb, 'Ok', 0)) is (not stop)
        ctx.check(ok, kind + ' goes on', 'goes on to the next item although the body has not been found to be %s for this one'
                  % str(not stop).lower())
        ctx.check(it[1] == I(0), kind + ' starts', 'the first item looked at is the one at %s' % short(it[1]))
        n += 1
    ctx.floor(kind + ' ways round', n, 1)
    if not n:
        return
    for o in I_.rets:
        q = Query(I_, o)
        l = ('y', 'vf', q.norm(V.result(L)), 'Ok', 0)
        g = q.got()
        why = None
        if q.known(V.result(L)) == 'Err':
            why = None if g[0] == 'err' else 'the error of the range is lost'
        elif q.known(V.result(L)) is None:
            why = 'returns %s without having evaluated the range' % short(q.val)
        else:
            body, val = body_of(q, V, R)
            try:
                if body is None:
                    done = q.st.ent_le(lsub(I_.length(q.st, lists.of(l)), seq[2])) or q.st.ent_le(I_.length(q.st, lists.of(l)))
                    if not done:
                        raise Bad('returns %s although not all items have been looked at' % short(q.val))
                    why = judge(q, lists, ('bool', not stop))
                else:
                    x = q.res(('y', 'call', ebv, (q.res(body),)))
                    if q.truth(x) is not stop:
                        raise Bad('stops although the body is %s for this item' % str(not stop).lower())
                    why = judge(q, lists, ('bool', stop))
            except Stop as e:
                why = judge(q, lists, e.exp)
            except Bad as e:
                why = str(e)
        ctx.check(why is None, kind, why or '')
        if g[0] != 'err':
            now = q.norm(o.st.mem.get(('S', V.env), V.env))
            ctx.check(now == V.env, kind + ' environment', 'leaves the environment changed: %s' % short(now))
    ctx.floor(kind + ' paths', len(I_.rets), 4)


def body_of(q, V, R):
    """the evaluation of the body that this path has made last"""
    r = None
    for e in q.st.events():
        if e[0] == 'call' and e[1] == V.ev and q.norm(e[2][1]) == q.norm(R):
            r = q.norm(e[3])
    return r, None
