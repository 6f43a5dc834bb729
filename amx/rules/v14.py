"""Abstract interpretation of `instance of` and `treat as`, one form of sequence type at a time (empty-sequence(), item(), kind
tests, function(*), array and map types, atomic types, types in parentheses): on every path the answer is compared with what the
type demands of the number of items and of each item - the item's own kind, the verdict of a kind test on a node, the verdict on
each member of an array or entry of a map."""
from ..types import *
from ..lib import loop_changes

A, B = ('y', 'a'), ('y', 'b')


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    T = Types(P, V, N)
    ctx.rule('the number of items is what the occurrence says')
    n = counts(ctx, P, V, N, T)
    ctx.rule('every item is what the item type says')
    n += kinds(ctx, P, V, N, T)
    n += pairs(ctx, P, V, N, T)
    ctx.rule('every member of an array and every entry of a map is what the type says')
    n += arrays(ctx, P, V, N, T)
    n += maps(ctx, P, V, N, T)
    ctx.rule('any number of items is treated alike')
    every(ctx, P, V, N, T)
    ctx.rule('treat as gives its operand or an error')
    treat(ctx, P, V, N, T)
    ctx.floor('values against types', n, 250)
    ctx.saw(*V.entered)


def compare(ctx, key, I_, P, T, demands, msg=''):
    """demands(q, verdicts) -> list of True / False / 'Err' / None, one for each thing demanded"""
    L = Lists(I_, P)
    ctx.check(bool(I_.rets), key, 'never answers')
    for o in I_.rets:
        q = Query(I_, o)
        if irreflexive(o.st):
            continue
        ds = demands(q, T.verdicts(q))
        a = answer(q, L, q.got())
        if a is True:
            ok = all(d is True for d in ds)
        elif a is False:
            ok = any(d is False for d in ds)
        elif a == 'Err':
            ok = any(d == 'Err' for d in ds)
        else:
            ok = False
        ctx.check(ok, key, 'is %s%s' % (a, msg))
    return 1


def irreflexive(st):
    """a number that is not NaN is equal to itself: no such path"""
    return any(v is False and t[:3] == ('y', 'bin', 'Eq') and t[3] == t[4] and
               st.known.get(('y', 'num', 'is_nan', (t[3],))) is False for t, v in st.known.items())


def count_ok(n, occ):
    lo, hi = OCC[occ]
    return lo <= n and (hi is None or n <= hi)


def some_items(N, n):
    return [N_item(N, 'XIString', ('y', 'v%d' % i)) for i in range(n)]


def counts(ctx, P, V, N, T):
    done = 0
    for occ in OCC:
        for kind, names in (('ItemTest', None), ('AtomicOrUnionType', {(): 'xs:string'})):
            for n in range(4):
                I_, x = T.run(N.seq(*some_items(N, n)), kind, occ, names=names)
                done += compare(ctx, '%d item(s) and the occurrence "%s"' % (n, occ), I_, P, T, lambda q, v: [count_ok(n, occ)],
                                ' (%s)' % kind)
    for n in range(3):
        I_, x = T.run(N.seq(*some_items(N, n)), 'EmptySequenceTest')
        done += compare(ctx, '%d item(s) and empty-sequence()' % n, I_, P, T, lambda q, v: [n == 0])
    return done


def forms(T):
    """the item types that look at one item only: (what, kind, shape, names, demand(q, verdicts, item, node of the type))"""
    V = T.V

    def node(q, v, it, x):
        if it[3] != 'XINode':
            return False
        r = [b for (s, t), b in v.items() if s == it[4][0] and t in (x, V.kid(x, LEFT))]
        return r[0] if r else None

    def function(q, v, it, x):
        if it[3] in ('XIMap', 'XIArray'):
            return True
        if it[3] != 'XItemXNodePtr':
            return False
        k = q.known(V.fld(it[4][0], 'n_type'))
        return k in FUNCTION if k is not None else False if set(FUNCTION) <= set(q.st.excl.get(V.fld(it[4][0], 'n_type'), ())) else None
    out = [('item()', 'ItemTest', None, None, lambda q, v, it, x: True),
           ('a kind test', 'KindTest', {LEFT: None}, None, node),
           ('function(*)', 'AnyFunctionTest', None, None, function)]
    for nm in NAMES + (OTHER,):
        out.append((nm or 'an unknown type', 'AtomicOrUnionType', None, {(): nm}, lambda q, v, it, x, nm=nm: is_a(it[3], nm)))
    return out


def kinds(ctx, P, V, N, T):
    done = 0
    for what, kind, shape, names, demand in forms(T):
        for k in N.kinds:
            if what == 'an unknown type' and k not in ATOMIC:
                continue
            it = N_item(N, k, A)
            for wrap in (0, 1) if what in ('item()', 'a kind test', 'function(*)', 'xs:decimal') else (0,):
                I_, x = T.run(N.seq(it), kind, '', shape, names, wrap=wrap)
                done += compare(ctx, '%s against %s%s' % (k, what, ' in parentheses' if wrap else ''), I_, P, T,
                                lambda q, v: [demand(q, v, it, x)])
    I_, x = T.run(N.seq(N_item(N, 'XIString', A)), 'ItemTest', '', wrap=2)
    return done + compare(ctx, 'item() in two pairs of parentheses', I_, P, T, lambda q, v: [True])


def pairs(ctx, P, V, N, T):
    """of two items each counts"""
    done = 0
    for what, kind, shape, names, demand in forms(T):
        if what not in ('a kind test', 'function(*)', 'xs:decimal'):
            continue
        for ka in ('XINode', 'XIInteger', 'XIArray', 'XIString'):
            for kb in ('XINode', 'XIDecimal', 'XIMap', 'XIString'):
                a, b = N_item(N, ka, A), N_item(N, kb, B)
                I_, x = T.run(N.seq(a, b), kind, '+', shape, names)
                done += compare(ctx, '%s and %s against %s+' % (ka, kb, what), I_, P, T,
                                lambda q, v: [demand(q, v, a, x), demand(q, v, b, x)])
    return done


def arrays(ctx, P, V, N, T):
    done = 0
    shape = {LEFT: ('SequenceType', {LEFT: None})}
    for k in N.kinds:
        if k != 'XIArray':
            I_, x = T.run(N.seq(N_item(N, k, A)), 'ArrayTest', '', shape)
            done += compare(ctx, '%s against array(T)' % k, I_, P, T, lambda q, v: [False])
    for sizes in ((0,), (1,), (2,), (3,), (1, 2), (0, 1)):
        ms = [[('y', 'm%d%d' % (i, j)) for j in range(n)] for i, n in enumerate(sizes)]
        I_, x = T.run(N.seq(*[T.array(*m) for m in ms]), 'ArrayTest', '+', shape)
        t = V.kid(x, LEFT)
        done += compare(ctx, 'arrays of %s members against array(T)' % ' and '.join(map(str, sizes)), I_, P, T,
                        lambda q, v: [True] + [v.get((s, t)) for m in ms for s in m])
    return done


def maps(ctx, P, V, N, T):
    done = 0
    shape = {LEFT: ('AtomicOrUnionType', {}), RIGHT: ('SequenceType', {LEFT: None})}
    for k in N.kinds:
        if k != 'XIMap':
            I_, x = T.run(N.seq(N_item(N, k, A)), 'MapTest', '', shape, {(LEFT,): 'xs:anyAtomicType'})
            done += compare(ctx, '%s against map(K, V)' % k, I_, P, T, lambda q, v: [False])
    vals = [('y', 'm%d' % i) for i in range(3)]
    for kt in NAMES + (OTHER,):
        for ks in [(k,) for k in ATOMIC] + [('XIInteger', 'XIString'), ('XIString', 'XIInteger'), ('XIDouble', 'XIBoolean', 'XIString'), ()]:
            if len(ks) != 1 and kt not in ('xs:anyAtomicType', 'xs:integer'):
                continue
            keys = [N_item(N, k, ('y', 'k%d' % i)) for i, k in enumerate(ks)]
            I_, x = T.run(N.seq(T.map(*zip(keys, vals))), 'MapTest', '', shape, {(LEFT,): kt})
            t = V.kid(x, RIGHT)
            done += compare(ctx, 'a map with the keys %s against map(%s, V)' % (', '.join(ks), kt or 'an unknown type'), I_, P, T,
                            lambda q, v: [is_a(k, kt) for k in ks] + [v.get((vals[i], t)) for i in range(len(ks))] + [True])
    return done


def every(ctx, P, V, N, T):
    """a loop over the items goes on only with what the item says, not with what it has seen: nothing but the place changes"""
    many = ('y', 'A')
    n = 0
    for what, kind, shape, names, demand in forms(T) + [('array(T)', 'ArrayTest', {LEFT: ('SequenceType', {LEFT: None})}, None, None),
                                                        ('map(K, V)', 'MapTest', {LEFT: ('AtomicOrUnionType', {}), RIGHT: ('SequenceType', {LEFT: None})},
                                                         {(LEFT,): 'xs:integer'}, None)]:
        I_, x = T.run(many, kind, '*', shape, names)
        F = Folds(I_)
        L = Lists(I_, P)
        lst = L.of(many)
        for o in I_.backs:
            it = F.iteration(o, o.info[2])
            if it is None or it[0] != lst:
                continue
            n += 1
            ctx.check(it[1] == I(0), 'any number of items against ' + what, 'begins at item %s' % short(it[1]))
        for o in I_.rets:
            q = Query(I_, o)
            if answer(q, L, q.got()) is not True:
                continue
            ok = q.st.ent_le(I_.length(q.st, lst)) or any(
                k[0] == 'gw' and any(b.st.aux and done(F, q, b, k[1], lst, I_) for b in F.around(q.st, k[1])[:1]) for k in q.st.aux)
            ctx.check(ok or what == 'item()', 'any number of items against ' + what, 'is true although not all items have been looked at')
    ctx.floor('loops over the items', n, 12)


def done(F, q, b, key, lst, I_):
    it = F.iteration(b, key)
    return it is not None and it[0] == lst and q.st.ent_le(lsub(I_.length(q.st, lst), it[2]))


def treat(ctx, P, V, N, T):
    m = ('y', 'm')
    val = N.seq(T.array(m))
    I_, x = T.run(val, 'ArrayTest', '', {LEFT: ('SequenceType', {LEFT: None})}, op='OperatorTreatAs')
    for o in I_.rets:
        q = Query(I_, o)
        d = T.verdicts(q).get((m, V.kid(x, LEFT)))
        g = q.got()
        ok = g[0] == 'err' and d in (False, 'Err') or g[0] == 'ok' and q.norm(g[1]) == q.norm(val) and d is True
        ctx.check(ok, 'an array treated as array(T)', 'is %s although its member is found to be %s' % (short(q.val), d))
    ctx.floor('ways for an array treated as array(T)', len(I_.rets), 3)
    for k in N.kinds:
        for what, kind, shape, names, demand in forms(T):
            if what not in ('a kind test', 'xs:decimal', 'item()'):
                continue
            it = N_item(N, k, A)
            val = N.seq(it)
            I_, x = T.run(val, kind, '', shape, names, op='OperatorTreatAs')
            key = '%s treated as %s' % (k, what)
            ctx.check(bool(I_.rets), key, 'never returns')
            for o in I_.rets:
                q = Query(I_, o)
                d = demand(q, T.verdicts(q), it, x)
                g = q.got()
                if g[0] == 'err':
                    ctx.check(d in (False, 'Err'), key, 'is an error')
                else:
                    ctx.check(g[0] == 'ok' and q.norm(g[1]) == q.norm(val) and d is True, key, 'is %s' % short(q.val))
