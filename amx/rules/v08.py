"""Abstract interpretation of the comparison operators.  A value comparison is explored for every pair of kinds of item and judged in
every case two values of these kinds can be in (smaller, equal, greater, unordered because of NaN); a general comparison has to
find such a pair among all pairs of items, which is read off the two loops: what is known on the ways round, on the way out and
on the paths that return."""
from ..nodes import *
from ..cases import *
from .v04 import N_item

OPS = {'EQ': ('eq',), 'NE': ('lt', 'gt', 'un'), 'LT': ('lt',), 'LE': ('lt', 'eq'), 'GT': ('gt',), 'GE': ('gt', 'eq')}
NUMS = ('XIInteger', 'XIDecimal', 'XIDouble')
ATOMS = NUMS + ('XIString', 'XIBoolean')
REL = ('lt', 'eq', 'gt')


def atomizer(P, N):
    """the function from an item to its atomized item"""
    c = [f for f in P.fns if not f.startswith('<') and N.sig(f, ['xitem::XItem'], 'xitem::XItem') and P.fns[f]['locals'][0]['ty'].lstrip('&') == P.fns[f]['locals'][0]['ty']]
    if len(c) != 1:
        raise AnalysisError('no single function that atomizes an item: %s' % c)
    return c[0]


def cases(x, kx, y, ky, vx=None, vy=None):
    """[(relation or None when the two cannot be compared, Case)]"""
    a = vx or ('y', 'vf', x, kx, 0)
    b = vy or ('y', 'vf', y, ky, 0)
    kinds = {} if x is None else {x: kx, y: ky}
    if kx in NUMS and ky in NUMS:
        rels = REL + (('un',) if kx != 'XIInteger' or ky != 'XIInteger' else ())
        return [(r, Case(rel={(a, b): r}, kind=kinds)) for r in rels]
    if kx == ky == 'XIString':
        return [(r, Case(rel={(a, b): r}, kind=kinds)) for r in REL]
    if kx == ky == 'XIBoolean':
        out = []
        for p in (False, True):
            for q in (False, True):
                out.append(('lt' if p < q else 'gt' if p > q else 'eq', Case(truth={a: p, b: q}, kind=kinds)))
        return out
    return [(None, Case(kind=kinds))]


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('comparison operators decide by the order of the values')
    atom = atomizer(P, N)
    check_atomizer(ctx, P, V, N, atom)
    n = m = 0
    for op, holds in sorted(OPS.items()):
        k = 'OperatorValue' + op
        if k not in V.kinds or 'OperatorGeneral' + op not in V.kinds:
            raise AnalysisError('no node kind %s' % k)
        for kx in ATOMS:
            for ky in ATOMS:
                n += value(ctx, P, V, N, k, kx, ky, holds)
        structure(ctx, P, V, N, k, atom)
        m += general(ctx, P, V, N, 'OperatorGeneral' + op, holds, atom)
    ctx.floor('pairs of kinds in value comparisons', n, 6 * 25)
    ctx.floor('general comparisons', m, 6)
    ctx.saw(*V.entered)


def check_atomizer(ctx, P, V, N, atom):
    """an atomic item stays, a node becomes a string"""
    for k in N.kinds:
        it = N_item(N, k, ('y', 'a'))
        I_ = V.run(None, ('xmlerror',), fn=atom, args=[it], paths=2000)
        for o in I_.rets:
            v = I_.norm(o.st, o.val)
            if k == 'XINode':
                ok = v[0] == 'A' and v[3] == 'XIString'
                ctx.check(ok, 'atomizing %s' % k, 'gives %s' % short(v))
            else:
                ctx.check(v == it, 'atomizing %s' % k, 'gives %s instead of the item' % short(v))


def with_values(V, l, r):
    vals = {V.kid(V.x, LEFT): l, V.kid(V.x, RIGHT): r}

    def m(I_, st, a, fr, site, t, dty, g):
        x = I_.norm(st, a[1])
        if x not in vals:
            raise AnalysisError('evaluates %s' % short(x))
        return [(st, mirai.ok(vals[x]))]
    return {V.ev: m}


def value(ctx, P, V, N, k, kx, ky, holds):
    a, b = ('y', 'a'), ('y', 'b')
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, N.seq(N_item(N, kx, a)), N.seq(N_item(N, ky, b))))
    L = Lists(I_, P)
    key = '%s of %s and %s' % (k, kx, ky)
    for rel, case in cases(None, kx, None, ky, a, b):
        some_ = 0
        for o in I_.rets:
            if not case.fits(o.st):
                continue
            some_ += 1
            q = Query(I_, o)
            g = q.got()
            if rel is None:
                ctx.check(g[0] == 'err', key, 'is %s although the two cannot be compared' % short(q.val))
                continue
            b1 = boolean(q, L, g)
            r = None if b1 is None else case.bool(b1)
            ctx.check(r is (rel in holds), key, 'is %s and not %s when the left value is %s' % (
                short(q.val if b1 is None else b1), rel in holds, {'lt': 'smaller', 'gt': 'greater', 'eq': 'equal', 'un': 'not comparable (NaN)'}[rel]))
        ctx.check(some_ > 0, key, 'never returns')
    return 1


def boolean(q, L, g):
    if g[0] != 'ok':
        return None
    ps = L.parts(q.st, L.of(g[1]))
    if len(ps) != 1 or ps[0][0] != 'e' or ps[0][1][0] != 'A' or ps[0][1][3] != 'XIBoolean':
        return None
    return q.norm(ps[0][1][4][0])


def structure(ctx, P, V, N, k, atom):
    """an empty operand: the empty sequence; more than one item: an error"""
    one = N.seq(N_item(N, 'XIInteger', ('y', 'a')))
    fld = P.adts[N.xs]['variants'][0]['fields'][0]['name']
    many = ('y', 'A')
    lst = ('y', 'fld', many, 0, fld)
    for what, l, r in (('an empty left operand', N.seq(), one), ('an empty right operand', one, N.seq()), ('two empty operands', N.seq(), N.seq()),
                       ('several items on the left', many, one), ('several items on the right', one, many)):
        st = mirai.State()
        st.add_le(lsub(I(2), mirai.sym('len', lst, nonneg=True)))
        I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=with_values(V, l, r), st=st, opaque=[atom])
        L = Lists(I_, P)
        for o in I_.rets:
            q = Query(I_, o)
            g = q.got()
            if 'several' in what:
                ctx.check(g[0] == 'err', '%s with %s' % (k, what), 'is %s' % short(q.val))
            else:
                ctx.check(g[0] == 'ok' and L.empty(o.st, L.of(g[1])), '%s with %s' % (k, what), 'is %s instead of the empty sequence' % short(q.val))


def general(ctx, P, V, N, k, holds, atom):
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), opaque=[atom])
    F = Folds(I_)
    L = Lists(I_, P)
    side = {'left': L.of(V.value(V.kid(V.x, LEFT))), 'right': L.of(V.value(V.kid(V.x, RIGHT)))}
    loops = {}
    looked = {s: {I_.norm(o.st, t[3][0])[3] for o in I_.outs for t in knows(o, side, atom)[s]} for s in side}
    for b in I_.backs:
        for s, l in side.items():
            F.hints = [l]
            it = F.iteration(b, b.info[2])
            if it is not None and it[0] == l and it[2] in looked[s]:
                loops.setdefault(s, set()).add((b.info[2], it[1], it[2]))
    for s in side:
        ctx.check(s in loops and all(x[1] == I(0) for x in loops[s]), k + ' goes through the ' + s, 'not every item of the %s operand is looked at' % s)
    if set(loops) != set(side):
        return 0
    done = lambda st, s: any(st.ent_le(lsub(I_.length(st, side[s]), x[2])) for x in loops[s])
    empty = lambda st, s: st.ent_le(I_.length(st, side[s]))
    pairs = 0
    outer = set()
    item = lambda s, n: ('y', 'call', atom, (('y', 'elem', side[s], n),))
    ways = []
    for b in I_.backs:
        here = [s for s in side if b.info[2] in {x[0] for x in loops[s]}]
        if here and any(done(b.st, s) for s in side if s not in here):
            outer.update(here)
        elif here:
            ways.append((b, here))
    for b, here in ways:
        pairs += 1
        for l in loops['left']:
            for r in loops['right']:
                x, y = item('left', l[2]), item('right', r[2])
                # from the outer loop, the items of the inner one that have not been reached yet can be anything
                if outer & set(here):
                    x, y = (x, ('y', 'any')) if 'left' in here else (('y', 'any'), y)
                for kx in ATOMS:
                    for ky in ATOMS:
                        for rel, case in cases(x, kx, y, ky):
                            ctx.check(not (rel in holds and case.fits(b.st)), k + ' goes on',
                                      'goes on although the two items, %s and %s, may be in the relation (%s)' % (kx, ky, rel))
    ctx.floor(k + ' ways round', pairs, 3)
    for o in I_.rets:
        q = Query(I_, o)
        g = q.got()
        if any(q.known(V.result(V.kid(V.x, s))) == 'Err' for s in (LEFT, RIGHT)):
            ctx.check(g[0] == 'err', k, 'returns %s although an operand is an error' % short(q.val))
            continue
        if g[0] == 'err':
            ctx.check(False, k, 'returns the error %s' % short(q.val))
            continue
        v = boolean(q, L, g)
        if v == ('b', False):
            ctx.check(any(done(o.st, s) if s in outer else empty(o.st, s) for s in side), k, 'is false although not all pairs have been looked at')
            continue
        kn = knows(o, side, atom)
        if v is None or len(kn['left']) != 1 or len(kn['right']) != 1:
            ctx.check(False, k, 'returns %s' % short(q.val))
            continue
        x, y = kn['left'][0], kn['right'][0]
        for kx in ATOMS:
            for ky in ATOMS:
                for rel, case in cases(x, kx, y, ky):
                    if rel not in holds and case.fits(o.st) and case.bool(v) is not False:
                        ctx.check(False, k, 'is true for %s and %s %s' % (kx, ky, 'that cannot be compared' if rel is None else 'with the left ' + rel))
                    else:
                        ctx.check(True, k, '')
    return 1


def knows(o, side, atom):
    """the atomized items of each side that the path has looked at"""
    out = {s: [] for s in side}

    def f(t):
        if t[:2] == ('y', 'call') and t[2] == atom and t[3][0][:2] == ('y', 'elem'):
            for s, l in side.items():
                if t[3][0][2] == l and t not in out[s]:
                    out[s].append(t)
        return False
    for t in list(o.st.known) + list(o.st.excl) + list(o.st.eqs) + list(o.st.les) + list(o.st.sub.values()):
        has_part(t, f)
    if o.val is not None:
        has_part(o.val, f)
    return out
