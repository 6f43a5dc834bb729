"""Abstract interpretation of `cast as` and `castable as` for every kind of item, every atomic type with and without "?", and types
that are none of them; what is made of the value is compared with the conversion table, number class by number class and text by
text, and `castable as` has to say true exactly where the table has a value."""
from ..types import *
from ..cases import Case, FLOATS, INTS, NAN, NINF, PINF, PZ, NZ

A, B = ('y', 'a'), ('y', 'b')
TYPES = {'string': 'XIString', 'double': 'XIDouble', 'decimal': 'XIDecimal', 'integer': 'XIInteger', 'boolean': 'XIBoolean'}
TRUE, FALSE = ('true', '1'), ('false', '0')


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    T = Types(P, V, N)
    C = Casts(ctx, P, V, N, T)
    ctx.rule('a single value becomes one of the type, or it is not castable')
    n = 0
    for t in TYPES:
        for k in N.kinds:
            for name in ('xs:' + t, t) if k in ('XIDouble', 'XIString') else ('xs:' + t,):
                for q in ('', '?'):
                    n += C.single(k, t, name + q)
    ctx.rule('there is nothing to make of no type we know')
    for k in N.kinds:
        for name in ('xs:unknown', 'xs:unknown?', 'xs:int'):
            n += C.single(k, None, name)
    ctx.rule('no item is castable with "?" only, several items never')
    for t in list(TYPES) + [None]:
        name = 'xs:' + (t or 'unknown')
        n += C.empty(name, False) + C.empty(name + '?', True)
        for ks in (('XIString', 'XIString'), ('XIInteger', 'XINode')):
            n += C.several(ks, name) + C.several(ks, name + '?')
    ctx.floor('casts', n, 150)
    ctx.saw(*V.entered)


class Casts:
    def __init__(self, ctx, P, V, N, T):
        self.ctx, self.P, self.V, self.N, self.T = ctx, P, V, N, T
        self.text = [f for f, fn in P.fns.items() if N.sig(f, ['NodePtr'], 'String') and not fn['locals'][1]['ty'].endswith('XNodePtr')
                     and '::xpath_impl::' in '::' + f]
        if not self.text:
            raise AnalysisError('no function gives the text of a node')

    def go(self, op, value, name):
        V = self.V
        st = mirai.State()
        st.known[V.fld(V.kid(V.x, RIGHT, LEFT), NAME)] = S(name)
        ms = self.T.models(value, [])
        for f in self.text:
            ms[f] = lambda I_, st, a, fr, site, t, dty, g: [(st, ('y', 'text', I_.norm(st, a[0])))]
        return V.run((op, {LEFT: None, RIGHT: ('SingleType', {LEFT: ('TypeName', {})})}), ('xmlerror',), models=ms, st=st)

    def both(self, key, value, name, judge):
        """judge(q, item or None) -> what is wrong with the cast; judge(q) -> is it castable (True, False)"""
        ctx, P = self.ctx, self.P
        I_ = self.go('OperatorCastAs', value, name)
        L = Lists(I_, P)
        ctx.check(bool(I_.rets), 'cast ' + key, 'never gives anything')
        for o in I_.rets:
            q = Query(I_, o)
            g = q.got()
            if g[0] == 'err':
                bad = judge(q, 'err')
            elif g[0] == 'ok':
                ps = L.parts(q.st, L.of(g[1]))
                bad = judge(q, [q.norm(p[1]) for p in ps] if all(p[0] == 'e' for p in ps) else None)
            else:
                bad = 'is %s' % short(q.val)
            ctx.check(not bad, 'cast ' + key, bad or '')
        I_ = self.go('OperatorCastableAs', value, name)
        L = Lists(I_, P)
        ctx.check(bool(I_.rets), 'castable ' + key, 'never gives anything')
        for o in I_.rets:
            q = Query(I_, o)
            a = answer(q, L, q.got())
            bad = judge(q, a)
            ctx.check(not bad, 'castable ' + key, bad or '')
        return 1

    def empty(self, name, ok):
        def judge(q, a):
            if a is True or a is False:
                return a is not ok and 'is %s' % str(a).lower()
            return (a != [] and 'is not ()') if ok else a != 'err' and 'is no error'
        return self.both('() as %s' % name, self.N.seq(), name, judge)

    def several(self, kinds, name):
        v = self.N.seq(*[N_item(self.N, k, ('y', 'v%d' % i)) for i, k in enumerate(kinds)])
        return self.both('%s as %s' % (' and '.join(kinds), name), v, name, never)

    def single(self, k, t, name):
        v = self.N.seq(N_item(self.N, k, A))
        key = '%s as %s' % (k, name)
        if t is None or k not in ('XINode', 'XIString') + tuple(x for x in ATOMIC if x != 'XIString'):
            return self.both(key, v, name, never)

        def judge(q, a):
            bads = [self.wrong(q, case, vals, k, t, a) for case, vals in cases(k, t) if case is None or case.fits(q.st)]
            bads = [b for b in bads if b]
            return bads[0] if bads else None
        return self.both(key, v, name, judge)

    def wrong(self, q, case, cls, k, t, a):
        src = ('y', 'text', A) if k == 'XINode' else A
        if k in ('XINode', 'XIString') and t == 'boolean':
            w = q.known(src)
            w = w[1] if isinstance(w, tuple) and w[0] == 's' else w if isinstance(w, str) else None
            b = w in TRUE if w in TRUE + FALSE else None
            if w is None:
                ex = {z[1] if isinstance(z, tuple) else z for z in q.st.excl.get(src, ())}
                if not ex >= set(TRUE + FALSE):
                    return 'does not look which text it is'
            if b is None:
                return never(q, a)
            want = lambda x: x == ('b', b)
        else:
            want = lambda x: self.value(q, case, cls, k, t, src, x)
        if a is True:
            return None
        if a is False or a == 'err':
            return 'is %s although there is a value' % ('false' if a is False else 'an error')
        if not isinstance(a, list) or len(a) != 1 or a[0][0] != 'A' or a[0][3] != TYPES[t]:
            return 'is %s' % (a if not isinstance(a, list) else ', '.join(short(x) for x in a) or '()')
        return None if want(q.norm(a[0][4][0])) else 'is %s%s' % (short(a[0][4][0]), ' for %s' % cls if cls is not None else '')

    def value(self, q, case, cls, k, t, src, x):
        """is x what a value of kind k is as a t?"""
        if k == 'XIBoolean':
            if t == 'boolean':
                return case.bool(x) is cls
            if t == 'string':
                return x == S('true' if cls else 'false')
            if t == 'integer':
                return x == I(1 if cls else 0) or x == ('y', 'cast', A, 'bool', 'i64')
            return case.value_of(case.base(x)) == (1 if cls else 0) and (x[0] == 'fl' or x[1] == 'cast')
        if k in ('XINode', 'XIString'):
            if t == 'string':
                return x == src
            ty = 'i64' if t == 'integer' else 'f64'
            ps = [('y', 'parse', ty, z) for z in (src, ('y', 'str', 'trim', (src,)))]
            for p in ps:
                if x == ('y', 'vf', p, 'Ok', 0):
                    return q.known(p) == 'Ok'
            return any(q.known(p) == 'Err' for p in ps) and (x == I(0) if t == 'integer' else x[0] == 'fl' and x[1] == 'NaN')
        if t == 'boolean':
            b = case.bool(x)
            return b is (cls not in (NAN, PZ, NZ))
        if t == 'string':
            if k == 'XIDouble' and cls in (NAN, NINF, PINF):
                return x[0] == 's' and x[1] in {NAN: ('NaN',), NINF: ('-INF', '-Infinity'), PINF: ('INF', '+Infinity', 'Infinity')}[cls]
            d = ('y', 'disp', 'i64' if k == 'XIInteger' else 'f64', A)
            return x == d or x == ('cat', (('v', d),))
        if t == 'integer':
            return x == A if k == 'XIInteger' else x == ('y', 'cast', A, 'f64', 'i64') or \
                x == ('y', 'cast', ('y', 'num', 'trunc', (A,)), 'f64', 'i64')
        return x == (('y', 'cast', A, 'i64', 'f64') if k == 'XIInteger' else A)


def cases(k, t):
    if k == 'XIBoolean':
        return [(Case(truth={A: b}), b) for b in (True, False)]
    if k == 'XIInteger':
        return [(Case({A: c}), c) for c in INTS]
    if k in ('XIDecimal', 'XIDouble'):
        return [(Case({A: c}), c) for c in FLOATS if k == 'XIDouble' or c not in (NAN, NINF, PINF)]
    return [(None, None)]


def never(q, a):
    return None if a is False or a == 'err' else 'is %s although nothing can be made of it' % (
        'true' if a is True else a if not isinstance(a, list) else ', '.join(short(x) for x in a) or '()')
