"""Abstract interpretation of predicates: what becomes of one item is a decision procedure over the value the predicate expression
has for it (a number is compared with the item's place, anything else counts by its effective boolean value); a chain of
predicates is read back as one filter after the other, and the direction in which places are counted from the kind of the
predicate node."""
from ..ev import *
from ..sem import *
from .v05 import heavy
from .v06 import focus_fields

EBV = 'effective_boolean_value'


def run(ctx):
    P = ctx.P
    V = Ev(P)
    ebv = P.find(EBV)
    ctx.rule('a predicate keeps exactly the items it is true for, in their order')
    pos, last = focus_fields(ctx, P, V)
    chain = P.find('filter_by_predicates')
    one, flags = chained(ctx, P, V, chain)
    for kind, rest in sorted(flags.items()):
        keep(ctx, P, V, one, kind, rest, pos, ebv)
    apply_one(ctx, P, V, one, flags['PredicateTop'])
    ctx.saw(*V.entered)


def sig(P, f):
    """the positions of the sequence, the node, the environment and of other arguments"""
    fn = P.fns[f]
    ty = [fn['locals'][i + 1]['ty'] for i in range(fn['argc'])]
    ix = lambda end: [i for i, t in enumerate(ty) if t.endswith(end)]
    s, x, e = ix('XSequence'), ix('XNodePtr'), ix('EvalEnv')
    if len(s) != 1 or len(x) != 1 or len(e) != 1:
        raise AnalysisError('the arguments of %s have changed: %s' % (f, ty))
    return s[0], x[0], e[0], [i for i in range(fn['argc']) if i not in (s[0], x[0], e[0])]


def arg(P, f, i):
    return ('y', 'arg', i, P.fns[f]['locals'][i + 1]['name'])


def chained(ctx, P, V, chain):
    """the predicates behind a step are applied one after the other: the function that applies one, and the other arguments it
    is given for each kind of predicate"""
    E = V.envs()
    inner = sorted({g['path'] for g, t in P.calls(P.fns[chain]) if g['path'] in E and g['path'] != chain})
    if len(inner) != 1:
        raise AnalysisError('filter_by_predicates no longer uses one function for each predicate: %s' % inner)
    one = inner[0]
    I_ = V.run(None, heavy(P), fn=chain, opaque=list(E))
    s, x, e, rest = sig(P, one)
    cs, cx, ce, _ = sig(P, chain)
    flags = {}
    n = 0
    for o in I_.backs:
        q = Query(I_, o)
        ev = [z for z in o.st.events() if z[0] == 'call' and z[1] == one]
        w = o.st.aux[('gw', o.info[2])]
        start = o.st.aux[('gs', o.info[2])]
        mem = lambda c: o.st.mem.get(c)
        ok = len(ev) == 1
        if not ok:
            ctx.check(False, 'chain', 'a predicate is applied %d times' % len(ev))
            continue
        n += 1
        seq, node = [q.norm(ev[0][2][i]) for i in (s, x)]
        # the cell that holds the sequence and the one that holds the predicate
        cellq = [c for c, v in w.items() if v is not None and v != start.get(c) and q.norm(v) == seq and v[:2] == ('y', 'w')]
        r = ('y', 'vf', q.norm(ev[0][3]), 'Ok', 0)
        ctx.check(q.known(ev[0][3]) == 'Ok', 'chain', 'goes on after an error of a predicate')
        ctx.check(any(q.norm(mem(c)) == r for c in cellq), 'chain', 'the next predicate is not applied to what this one has left')
        ctx.check(any(q.norm(start.get(c)) == arg(P, chain, cs) for c in cellq), 'chain', 'the first predicate is not applied to '
                  'the whole sequence')
        cellx = [c for c, v in w.items() if v is not None and v != start.get(c) and v[:2] == ('y', 'w') and
                 q.norm(start.get(c)) == arg(P, chain, cx)]
        cur = {w[c] for c in cellx}
        expr = [V.kid(t, LEFT) for t in cur]
        nxt = [V.kid(t, RIGHT) for t in cur]
        nil = lambda t: t[0] == 'A'
        ctx.check(any(node == z for z in expr) or nil(node), 'chain', 'applies %s' % short(node))
        ctx.check(any(q.norm(mem(c)) == V.kid(w[c], RIGHT) or nil(q.norm(mem(c))) for c in cellx), 'chain',
                  'the next predicate is not the one behind this')
        kinds = {q.known(V.fld(t, 'n_type')) for t in cur} - {None}
        ctx.check(len(kinds) == 1, 'chain', 'the kind of the predicate is not looked at')
        if len(kinds) == 1:
            k = kinds.pop()
            a = tuple(q.norm(ev[0][2][i]) for i in rest)
            ctx.check(flags.setdefault(k, a) == a, 'chain', '%s is applied in different ways' % k)
    ctx.floor('predicates in a chain', n, 2)
    m = 0
    for o in I_.rets:
        q = Query(I_, o)
        g = q.got()
        if g[0] == 'err':
            continue
        m += 1
        v = g[1]
        # nothing is left to apply: the cursor is nil
        nil = any(q.known(V.fld(t, 'n_type')) == 'Nil' for k, w in o.st.aux.items() if k[0] == 'gw'
                  for t in w.values() if t is not None and t[:2] == ('y', 'w')) or \
            q.known(V.fld(arg(P, chain, cx), 'n_type')) == 'Nil'
        cur = any(q.norm(t) == v and q.norm(o.st.aux[('gs', k[1])].get(c)) == arg(P, chain, cs) for k, w in o.st.aux.items()
                  if k[0] == 'gw' for c, t in w.items() if t is not None) or v == arg(P, chain, cs)
        ctx.check(nil, 'chain ends', 'returns although there may be another predicate')
        ctx.check(cur, 'chain ends', 'returns %s' % short(v))
    ctx.floor('ways a chain ends', m, 1)
    ctx.check(set(flags) >= {'PredicateTop', 'PredicateRevTop'}, 'chain kinds', 'only %s can be applied' % sorted(flags))
    if set(flags) < {'PredicateTop', 'PredicateRevTop'}:
        raise AnalysisError('the kinds of predicates are not told apart')
    return one, flags


def keep(ctx, P, V, one, kind, rest, pos, ebv):
    s, x, e, others = sig(P, one)
    st = mirai.State()
    a = [arg(P, one, i) for i in range(P.fns[one]['argc'])]
    for i, v in zip(others, rest):
        a[i] = v
    seq, node, env = a[s], a[x], a[e]
    st.excl[V.fld(node, 'n_type')] = frozenset(['Nil'])
    I_ = V.run(None, (EBV, 'xmlerror'), fn=one, args=a, st=st)
    rev = kind == 'PredicateRevTop'

    def value(q):
        for z in q.st.events()[::-1]:
            if z[0] == 'call' and z[1] == V.ev:
                return z
        return None

    def truth(q, Ls, v, place):
        """what the value of the predicate decides"""
        l = Ls.of(v)
        if q.st.nl(I_.length(q.st, l)) == I(1):
            k = q.known(('y', 'elem', l, I(0)))
            k = k.split('::')[-1] if isinstance(k, str) else None
            pay = ('y', 'vf', ('y', 'elem', l, I(0)), k, 0) if k else None
            if k == 'XIInteger':
                d = q.st.nl(lsub(q.norm(pay), place))
                if isint(d):
                    return d[1] == 0
                if any(t is False and q.st.nl(c) in (d, q.st.nl(lsub(I(0), d))) for c, t in q.st.eqs.items()) or \
                        q.st.ent_le(ladd(d, I(1))) or q.st.ent_le(lsub(I(1), d)):
                    return False
                if q.st.ent_le(d) and q.st.ent_le(lsub(I(0), d)):
                    return True
                raise Bad('an integer is not compared with the place %s of the item' % short(place))
            if k in ('XIDecimal', 'XIDouble'):
                for c, t in q.st.known.items():
                    if c[:3] == ('y', 'bin', 'Eq') and isinstance(t, bool) and q.norm(pay) in [q.norm(z) for z in c[3:]] and \
                            any(z[:2] == ('y', 'cast') and q.st.nl(q.norm(z[2])) == q.st.nl(place) for z in c[3:]):
                        return t
                raise Bad('a number is not compared with the place %s of the item' % short(place))
            if k == 'XIBoolean' and q.maybe(pay) is not None:
                return q.truth(pay)
            if k == 'XINode':
                r = q.known(('y', 'call', ebv, (v,)))
                return True if r is None else q.truth(q.res(('y', 'call', ebv, (v,))))
        elif not (q.st.ent_le(lsub(I(2), I_.length(q.st, l))) or q.st.ent_le(I_.length(q.st, l)) or
                  '1' in {str(z) for z in q.st.excl.get(I_.length(q.st, l), ())} or
                  any(t is False and lin(c)[1].get(I_.length(q.st, l)) in (1, -1) and len(lin(c)[1]) == 1 and
                      abs(lin(c)[0]) == 1 for c, t in q.st.eqs.items())):
            raise Bad('a single number is not told apart from a sequence')
        return q.truth(q.res(('y', 'call', ebv, (v,))))

    def number(q, Ls, v):
        """has the path told a single number from everything else?"""
        l = Ls.of(v)
        ex = q.st.excl.get(('y', 'elem', l, I(0)), frozenset())
        return {z.split('::')[-1] for z in ex}

    def sem(q, Ls):
        def each(q2, n):
            z = value(q2)
            if z is None:
                raise Bad('the predicate is not evaluated for each item')
            c, xx, ee = z[2]
            c = q2.norm(c)
            if c[0] != 'A' or c[4][0] != ('R', (('y', 'elem', Ls.of(seq), n),)) and \
                    Ls.parts(q2.st, Ls.of(c)) != [('e', ('y', 'elem', Ls.of(seq), n))]:
                raise Bad('the predicate is evaluated for %s' % short(c))
            if q2.norm(xx) != node:
                raise Bad('evaluates %s' % short(xx))
            place = ladd(n, I(1)) if not rev else lsub(I_.length(q2.st, Ls.of(seq)), n)
            p = q2.norm(V.envget(ee, *pos))
            if q2.st.nl(p) != q2.st.nl(place):
                raise Bad('position() is %s instead of %s' % (short(p), short(place)))
            v = q2.res(z[3])
            l = Ls.of(v)
            if q2.st.nl(I_.length(q2.st, l)) == I(1) and q2.known(('y', 'elem', l, I(0))) is None:
                left = {'XIInteger', 'XIDecimal', 'XIDouble'} - number(q2, Ls, v)
                if left:
                    raise Bad('does not look whether the predicate gives %s' % ' or '.join(sorted(left)))
            return [('e', ('y', 'elem', Ls.of(seq), n))] if truth(q2, Ls, v, place) else []
        z = value(q)
        if z is not None:
            v = q.res(z[3])
            r = q.known(('y', 'call', ebv, (v,)))
            if r == 'Err':
                raise Stop('err', ('y', 'call', ebv, (v,)))
        return ('parts', [('for', Ls.of(seq), each)])
    check_paths(ctx, P, I_, kind, sem, 3, env)
    ctx.floor('%s ways round' % kind, len(I_.backs), 6)


def apply_one(ctx, P, V, one, rest):
    """E[p] on any expression: p filters the value of E, counting from its first item"""
    L, R = V.kid(V.x, LEFT), V.kid(V.x, RIGHT)
    s, x, e, others = sig(P, one)
    I_ = V.run(('ApplyPredicate', {LEFT: None, RIGHT: ('PredicateTop', {LEFT: None})}), heavy(P),
               opaque=[f for f in V.envs() if f != V.ev])

    def sem(q, Ls):
        v = q.res(V.result(L))
        a = [None] * P.fns[one]['argc']
        a[s], a[x], a[e] = v, V.kid(R, LEFT), V.env
        for i, t in zip(others, rest):
            a[i] = t
        return ('val', q.res(('y', 'call', one, tuple(a))))
    check_paths(ctx, P, I_, 'ApplyPredicate', sem, 2, V.env)
