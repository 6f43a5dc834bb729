"""Abstract interpretation of the function that tells whether one sequence type is a subtype of another, for every pair of forms of
types (its verdicts on the types inside are collected from the paths), and of `instance of` a function type for every kind of
item; the signatures of the named functions are read out of the table by the same exploration and compared with the
specification of the library."""
from ..types import *
from .v14 import irreflexive
from ..data.signatures import SIGNATURES, parse

A, B = ('y', 'sub'), ('y', 'sup')
SUPER = {'xs:integer': 'xs:decimal', 'xs:decimal': 'xs:numeric', 'xs:double': 'xs:numeric', 'xs:numeric': 'xs:anyAtomicType',
         'xs:string': 'xs:anyAtomicType', 'xs:anyURI': 'xs:string', 'xs:boolean': 'xs:anyAtomicType', 'xs:untypedAtomic': 'xs:anyAtomicType'}
ATOMS = sorted(set(SUPER) | set(SUPER.values()))
ANYTYPE = ('SequenceType', None, (None, None, None, None), 0)
MARKS = {'': (1, 1), '?': (0, 1), '*': (0, 9), '+': (1, 9)}
TESTS = ('AnyKindTest', 'TextTest', 'CommentTest', 'NamespaceNodeTest', 'PITest')


def derives(a, b):
    while a != b and a in SUPER:
        a = SUPER[a]
    return a == b


def atomic(n):
    return ('AtomicOrUnionType', n, 0, 0)


def typed(ret, params, kind='TypedFunctionTest'):
    r = 0
    for p in params[::-1]:
        r = ('Param', '', p, r)
    return (kind, '', 0 if kind == 'TypedFunctionTest' else None, ('ReturnType', '', ret, r))


def seqtype(occ, item):
    return ('SequenceType', occ, item, 0)


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    T = Types(P, V, N)
    Q = Sub(ctx, P, V, N, T)
    ctx.rule('a sequence type is a subtype where everything of it is of the other type')
    n = Q.marks()
    n += Q.pairs()
    ctx.floor('pairs of types', n, 300)
    ctx.rule('a named function has the type the library gives it')
    n = Q.named()
    ctx.rule('an item is of a function type where its own type is a subtype of it')
    n += Q.inline() + Q.partial() + Q.collections() + Q.nested() + Q.others() + Q.two()
    ctx.floor('items against function types', n, 150)
    ctx.saw(*V.entered)


class Sub:
    def __init__(self, ctx, P, V, N, T):
        self.ctx, self.P, self.V, self.N, self.T = ctx, P, V, N, T
        both = [f for f in P.fns if not f.startswith('<') and N.sig(f, ['parser::XNodePtr', 'parser::XNodePtr'], 'bool')]
        who = P.callers()
        self.both = both
        self.judges = sorted(f for f in both if any(c not in both for c in who.get(f, ())))
        if len(self.judges) != 1:
            raise AnalysisError('not one function tells whether a sequence type is a subtype of another: %s' % self.judges)
        self.judge = self.judges[0]
        self.lexer = [f for f, fn in P.fns.items() if not fn.get('std') and fn['argc'] == 1 and 'Result<' in fn['locals'][0]['ty'] and
                      'lexer::Lexer' in fn['locals'][0]['ty'] and fn['locals'][1]['ty'].endswith(('str', 'String'))]
        self.parser = [f for f, fn in P.fns.items() if not fn.get('std') and fn['argc'] == 1 and 'parser::' in f and
                       fn['locals'][1]['ty'].endswith('Lexer') and 'XNodePtr' in fn['locals'][0]['ty']]
        if not self.lexer or not self.parser:
            raise AnalysisError('no lexer or no parser')

    def put(self, st, x, sh):
        """sh: (kind, name or None, left, right); left, right: a shape, None (unknown), 0 (none)"""
        V = self.V
        kind, name, left, right = sh
        if kind is not None:
            st.known[V.fld(x, 'n_type')] = kind
        if name is not None:
            st.known[V.fld(x, NAME)] = S(name)
        for side, k in ((LEFT, left), (RIGHT, right)):
            if k == 0:
                st.known[V.fld(x, side)] = 'None'
            elif k is not None:
                st.known[V.fld(x, side)] = 'Some'
                self.put(st, V.kid(x, side), k)

    # ---- subtype ----------------------------------------------------------------------------------------------------
    def asked(self, q):
        """(one type, the other) -> what the path has been told"""
        out = {}
        for e in q.st.events():
            if e[0] == 'call' and e[1] in self.both:
                out[tuple(q.norm(z) for z in e[2])] = q.known(q.norm(e[3]))
        return out

    def decide(self, key, a, b, demands, fn=None):
        """demands(verdicts) -> the list of what has to hold for a to be a subtype of b"""
        V = self.V
        st = mirai.State()
        self.put(st, A, a)
        self.put(st, B, b)
        fn = fn or self.judge
        op = V.opaque(self.judge)

        def m(I_, st, args, fr, site, t, dty, g):
            return None if [I_.norm(st, z) for z in args] == [A, B] else op(I_, st, args, fr, site, t, dty, g)
        I_ = V.run(None, (), fn=fn, args=[A, B], models={self.judge: m}, st=st, one_way=lambda f: True,
                   reenter=[f for f in self.both if f != self.judge])
        self.ctx.check(bool(I_.rets), key, 'gives no answer')
        for o in I_.rets:
            q = Query(I_, o)
            v = q.norm(o.val)
            v = v[1] if v[0] == 'b' else q.known(v) if v[0] == 'y' else q.st.ev(v[1]) if v[0] == 'p' else None
            ds = demands(self.asked(q))
            ok = v is True and all(d is True for d in ds) or v is False and any(d is False for d in ds)
            self.ctx.check(ok, key, 'is %s' % {True: 'a subtype', False: 'no subtype'}.get(v, short(q.norm(o.val))))
        return 1

    def forms(self):
        """name, shape of the item type, what it is"""
        out = [('item()', ('ItemTest', '', 0, 0), ('item',))]
        for n in ATOMS:
            out.append((n, atomic(n), ('atomic', n)))
        for t in TESTS:
            out.append((t, ('KindTest', '', (t, '', 0, 0), 0), ('kind', t, '')))
        for n in ('p', 'q'):
            out.append(('PITest ' + n, ('KindTest', '', ('PITest', n, 0, 0), 0), ('kind', 'PITest', n)))
        out.append(('function(*)', ('AnyFunctionTest', '', 0, 0), ('functions',)))
        for ps in ((), (None,), (None, None), ('xs:integer',), ('xs:string',), ('xs:anyAtomicType',), ('xs:integer', 'xs:string')):
            shapes = [seqtype('', atomic(p)) if p else ANYTYPE for p in ps]
            out.append(('function(%s)' % ', '.join(p or 'T' for p in ps), typed(ANYTYPE, shapes), ('function', ps)))
        for k in ('xs:integer', 'xs:string', 'xs:anyAtomicType'):
            out.append(('map(%s, T)' % k, ('MapTest', '', atomic(k), ANYTYPE), ('map', k)))
        out.append(('array(T)', ('ArrayTest', '', ANYTYPE, 0), ('array',)))
        return out

    def item(self, a, b, x, y):
        """what has to hold for the item type a (at x) to be a subtype of b (at y)"""
        V = self.V
        if b[0] == 'item':
            return lambda v: [True]
        if a[0] == b[0] == 'atomic':
            return lambda v: [derives(a[1], b[1])]
        if a[0] == b[0] == 'kind':
            return lambda v: [b[1] == 'AnyKindTest' or a[1] == b[1] and b[2] in ('', a[2])]
        if b[0] == 'functions':
            return lambda v: [a[0] in ('functions', 'function', 'map', 'array')]
        ret = lambda z: V.kid(z, RIGHT, LEFT)
        par = lambda z, i: V.kid(z, *([RIGHT] * (i + 2) + [LEFT]))
        if a[0] == b[0] == 'function':
            n = len(a[1])
            if len(b[1]) != n:
                return lambda v: [False]
            return lambda v: [v.get((ret(x), ret(y)))] + [v.get((par(y, i), par(x, i))) for i in range(n)]
        if a[0] == b[0] == 'map':
            return lambda v: [v.get((V.kid(x, LEFT), V.kid(y, LEFT)), derives(a[1], b[1])), v.get((V.kid(x, RIGHT), V.kid(y, RIGHT)))]
        if a[0] == b[0] == 'array':
            return lambda v: [v.get((V.kid(x, LEFT), V.kid(y, LEFT)))]
        if a[0] in ('map', 'array') and b[0] == 'function' and len(b[1]) == 1 and b[1][0]:
            inner = V.kid(x, RIGHT if a[0] == 'map' else LEFT)
            key = V.kid(x, LEFT)
            return lambda v: [v.get((key, V.kid(par(y, 0), LEFT)), derives(a[1] if a[0] == 'map' else 'xs:integer', b[1][0])),
                              v.get((inner, ret(y)))]
        return lambda v: [False]

    def marks(self):
        """the occurrences"""
        n = 0
        some = [('item()', ('ItemTest', '', 0, 0), ('item',)), ('xs:integer', atomic('xs:integer'), ('atomic', 'xs:integer')),
                ('xs:string', atomic('xs:string'), ('atomic', 'xs:string'))]
        none = ('EmptySequenceTest', '', 0, 0)
        ia, ib = self.V.kid(A, LEFT), self.V.kid(B, LEFT)
        for oa, (la, ha) in MARKS.items():
            for na, sa, fa in some:
                n += self.decide('%s%s below empty-sequence()' % (na, oa), seqtype(oa, sa), seqtype('', none), lambda v: [False])
                n += self.decide('empty-sequence() below %s%s' % (na, oa), seqtype('', none), seqtype(oa, sa), lambda v: [la == 0])
                for ob, (lb, hb) in MARKS.items():
                    for nb, sb, fb in some:
                        d = self.item(fa, fb, ia, ib)
                        n += self.decide('%s%s below %s%s' % (na, oa, nb, ob), seqtype(oa, sa), seqtype(ob, sb),
                                         lambda v: [lb <= la and ha <= hb] + d(v))
        return n + self.decide('empty-sequence() below itself', seqtype('', none), seqtype('', none), lambda v: [True])

    def pairs(self):
        n = 0
        ia, ib = self.V.kid(A, LEFT), self.V.kid(B, LEFT)
        for na, sa, fa in self.forms():
            for nb, sb, fb in self.forms():
                if fa[0] in ('map', 'array') and fb[0] == 'function' and len(fb[1]) == 1 and not fb[1][0]:
                    continue                    # what is asked of an unknown parameter depends on what it is
                d = self.item(fa, fb, ia, ib)
                n += self.decide('%s below %s' % (na, nb), seqtype('', sa), seqtype('', sb), d)
        # types in parentheses are the types in them
        p = lambda s: ('ParenthesizedItemType', '', s, 0)
        for na, sa, fa in self.forms():
            if fa[0] in ('atomic', 'kind') and fa[1] in ('xs:integer', 'xs:string', 'TextTest'):
                for nb, sb, fb in self.forms():
                    if fb[0] == fa[0]:
                        d = self.item(fa, fb, ia, ib)
                        n += self.decide('(%s) below (%s)' % (na, nb), seqtype('', p(sa)), seqtype('', p(p(sb))), d)
        V = self.V
        for a, sa in (('map', ('MapTest', '', atomic('xs:integer'), ANYTYPE)), ('array', ('ArrayTest', '', ANYTYPE, 0))):
            for k in ('xs:integer', 'xs:anyAtomicType', 'xs:string'):
                sb = typed(ANYTYPE, [seqtype('', p(p(atomic(k))))])

                def d(v, a=a, k=k):
                    inner = V.kid(ib, RIGHT, RIGHT, LEFT, LEFT, LEFT, LEFT)
                    return [v.get((V.kid(ia, LEFT), inner), derives('xs:integer', k)),
                            v.get((V.kid(ia, RIGHT if a == 'map' else LEFT), V.kid(ib, RIGHT, LEFT)))]
                n += self.decide('a %s below function((%s))' % (a, k), seqtype('', sa), seqtype('', sb), d)
        return n

    # ---- items ------------------------------------------------------------------------------------------------------
    def run(self, value, params, name=None, occ='', st=None):
        """`value instance of function(params) as T`"""
        T, V = self.T, self.V
        st = st or mirai.State()
        self.put(st, T.T, seqtype(occ, typed(ANYTYPE, params)))
        op = V.opaque(self.judge)
        more = {self.judge: op}
        for f in self.lexer:
            more[f] = lambda I_, st, a, fr, site, t, dty, g: [(st, mirai.ok(('y', 'tokens', I_.norm(st, a[0]))))]
        for f in self.parser:
            more[f] = self.parsed(f)
        return T.run(value, 'TypedFunctionTest', occ, None, st=st, more=more)

    def parsed(self, f):
        def m(I_, st, a, fr, site, t, dty, g):
            x = I_.norm(st, a[0])
            if x[0] == 'S' or x[:2] != ('y', 'tokens'):
                x = I_.norm(st, I_.load(st, a[0])) if hasattr(I_, 'load') else x
            if x[:2] != ('y', 'tokens') or x[2][0] != 's':
                raise AnalysisError('parses %s' % short(x))
            sg = parse(x[2][1])
            if sg is None:
                raise AnalysisError('the signature %s cannot be read' % x[2][1])
            v = ('y', 'signature', x[2][1])
            self.put(st, v, typed(ANYTYPE, [ANYTYPE] * len(sg[0])))
            st.add(('signature', x[2][1], v))
            return [(st, mirai.ok(v))]
        return m

    def compare(self, key, I_, demands):
        """demands(q, asked, verdicts) -> list of what has to hold"""
        L = Lists(I_, self.P)
        self.ctx.check(bool(I_.rets), key, 'never answers')
        for o in I_.rets:
            q = Query(I_, o)
            if irreflexive(o.st):
                continue
            a = answer(q, L, q.got())
            ds = demands(q, self.asked(q), self.T.verdicts(q))
            ok = a is True and all(d is True for d in ds) or a is False and any(d is False for d in ds) or \
                a == 'Err' and any(d == 'Err' for d in ds)
            self.ctx.check(ok, key, 'is %s' % (a,))
        return 1

    def own(self, z, keep, n):
        """the demands of a function whose result type is at z and whose parameters, of which those in keep are open, behind it"""
        V = self.V
        t = V.kid(self.T.T, LEFT)

        def d(q, asked, v):
            if len(keep) != n:
                return [False]
            r = [asked.get((V.kid(z, RIGHT, LEFT), V.kid(t, RIGHT, LEFT)))]
            for i, k in enumerate(keep):
                r.append(asked.get((V.kid(t, *([RIGHT] * (i + 2) + [LEFT])), V.kid(z, *([RIGHT] * (k + 2) + [LEFT])))))
            return r
        return d

    def function(self, shape):
        """an item that is a function whose node has the shape"""
        st = mirai.State()
        f = ('y', 'f')
        self.put(st, f, shape)
        return N_item(self.N, 'XItemXNodePtr', f), f, st

    def named(self):
        n = 0
        for name, (params, ret) in sorted(SIGNATURES.items()):
            for m in range(4):
                if abs(m - len(params)) > 1:
                    continue
                it, f, st = self.function(('NamedFunctionRef', name, None, 0))
                I_, x = self.run(self.N.seq(it), [ANYTYPE] * m, st=st)
                key = '%s against a function type with %d parameters' % (name, m)

                def d(q, asked, v):
                    sg = [e for e in q.st.events() if e[0] == 'signature']
                    if len(sg) != 1:
                        self.ctx.check(False, key, 'the signature is not looked up')
                        return [None]
                    self.ctx.check(parse(sg[0][1]) == (params, ret), 'signature of ' + name, 'is %s' % sg[0][1])
                    return self.own(sg[0][2], list(range(len(params))), m)(q, asked, v)
                n += self.compare(key, I_, d)
        it, f, st = self.function(('NamedFunctionRef', 'fn:no-such-function#1', None, 0))
        I_, x = self.run(self.N.seq(it), [ANYTYPE], st=st)
        return n + self.compare('an unknown function', I_, lambda q, asked, v: [False])

    def inline(self):
        n = 0
        for k in range(4):
            for m in range(4):
                it, f, st = self.function(typed(ANYTYPE, [ANYTYPE] * k, 'InlineFunction'))
                I_, x = self.run(self.N.seq(it), [ANYTYPE] * m, st=st)
                n += self.compare('an inline function of %d parameters against %d' % (k, m), I_, self.own(f, list(range(k)), m))
        return n

    def partial(self):
        n = 0
        for name, arity in (('fn:abs', 1), ('fn:contains', 2), ('fn:substring', 3), ('fn:insert-before', 3)):
            for mask in range(2 ** arity):
                keep = [i for i in range(arity) if mask >> i & 1]
                if not keep:
                    continue
                r = 0
                for i in range(arity)[::-1]:
                    r = ('ArgumentPlaceholder', '', 0, r) if i in keep else ('ArgumentTop', '', None, r)
                for m in range(4):
                    if abs(m - len(keep)) > 1 and m != arity:
                        continue
                    it, f, st = self.function(('PartialFunctionCall', name, None, r))
                    I_, x = self.run(self.N.seq(it), [ANYTYPE] * m, st=st)
                    key = '%s with %d arguments, open %s, against %d' % (name, arity, keep, m)

                    def d(q, asked, v):
                        sg = [e for e in q.st.events() if e[0] == 'signature']
                        if len(sg) != 1:
                            self.ctx.check(False, key, 'the signature is not looked up')
                            return [None]
                        self.ctx.check(parse(sg[0][1]) == SIGNATURES['%s#%d' % (name, arity)], key, 'the signature is %s' % sg[0][1])
                        return self.own(sg[0][2], keep, m)(q, asked, v)
                    n += self.compare(key, I_, d)
        it, f, st = self.function(('PartialFunctionCall', 'fn:no-such-function', None, ('ArgumentPlaceholder', '', 0, 0)))
        I_, x = self.run(self.N.seq(it), [ANYTYPE], st=st)
        return n + self.compare('an unknown function with an open argument', I_, lambda q, asked, v: [False])

    def collections(self):
        V, N, T = self.V, self.N, self.T
        n = 0
        ret = V.kid(T.T, LEFT, RIGHT, LEFT)
        par = V.kid(T.T, LEFT, RIGHT, RIGHT, LEFT)
        vals = [('y', 'm%d' % i) for i in range(3)]
        for m in range(3):
            for kt in ('xs:anyAtomicType', 'xs:decimal', 'xs:integer', 'xs:string', 'xs:boolean'):
                if m != 1 and kt != 'xs:anyAtomicType':
                    continue
                ps = [seqtype('', atomic(kt))] * m
                for ks in ((), ('XIInteger',), ('XIString',), ('XIBoolean',), ('XIInteger', 'XIString'), ('XIBoolean', 'XIDouble', 'XIString')):
                    keys = [N_item(N, k, ('y', 'k%d' % i)) for i, k in enumerate(ks)]
                    I_, x = self.run(N.seq(T.map(*zip(keys, vals))), ps)
                    n += self.compare('a map with keys %s against function(%s)' % (', '.join(ks), ', '.join([kt] * m)), I_, lambda q, asked, v:
                                      [m == 1] + [is_a(k, kt) for k in ks] + [v.get((vals[i], ret)) for i in range(len(ks))])
                for size in range(4):
                    I_, x = self.run(N.seq(T.array(*vals[:size])), ps)

                    def d(q, asked, v):
                        at = [r for (s, t), r in v.items() if t == par and self.one_integer(s)]
                        return [m == 1] + [is_a('XIInteger', kt) if not at else at[0]] + [v.get((z, ret)) for z in vals[:size]]
                    n += self.compare('an array of %d against function(%s)' % (size, ', '.join([kt] * m)), I_, d)
        return n

    def nested(self):
        V, N, T = self.V, self.N, self.T
        n = 0
        ret = V.kid(T.T, LEFT, RIGHT, LEFT)
        w = ('y', 'm0')
        for kt in ('xs:anyAtomicType', 'xs:decimal', 'xs:string'):
            ps = [seqtype('', ('ParenthesizedItemType', '', ('ParenthesizedItemType', '', atomic(kt), 0), 0))]
            for k in ('XIInteger', 'XIString', 'XIBoolean'):
                I_, x = self.run(N.seq(T.map((N_item(N, k, ('y', 'k')), w))), ps)
                n += self.compare('a map with a key %s against function((%s))' % (k, kt), I_,
                                  lambda q, asked, v: [is_a(k, kt), v.get((w, ret))])
        return n

    def one_integer(self, s):
        return s[0] == 'A' and s[4][0][0] == 'R' and len(s[4][0][1]) == 1 and s[4][0][1][0][0] == 'A' and s[4][0][1][0][3] == 'XIInteger'

    def others(self):
        n = 0
        for k in self.N.kinds:
            if k in ('XIMap', 'XIArray', 'XItemXNodePtr'):
                continue
            I_, x = self.run(self.N.seq(N_item(self.N, k, ('y', 'v'))), [ANYTYPE])
            n += self.compare('%s against a function type' % k, I_, lambda q, asked, v: [False])
        return n

    def two(self):
        """of two items each counts"""
        V, N, T = self.V, self.N, self.T
        n = 0
        ret = V.kid(T.T, LEFT, RIGHT, LEFT)
        for first in (True, False):
            for other in ('XIString', 'XINode', 'XIMap'):
                it, f, st = self.function(typed(ANYTYPE, [ANYTYPE], 'InlineFunction'))
                w = ('y', 'w1')
                o = N_item(N, other, ('y', 'v')) if other != 'XIMap' else T.map((N_item(N, 'XIInteger', ('y', 'k')), w))
                I_, x = self.run(N.seq(it, o) if first else N.seq(o, it), [seqtype('', atomic('xs:integer'))], occ='+', st=st)
                n += self.compare('a function and %s, %s' % (other, 'in this order' if first else 'the other way around'), I_, lambda q, asked, v:
                                  self.own(f, [0], 1)(q, asked, v) + [v.get((w, ret)) if other == 'XIMap' else False])
        return n
