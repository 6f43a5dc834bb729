"""Abstract interpretation of the node test: for every axis, form of test and kind of node, with the names read as constants (equal,
different, equal up to a prefix, up to case, longer, shorter) and as unknowns, the truth value of every path is compared with what
the test means; the accessors of the node are entered, down to the fields of the tree."""
from ..types import *

NODES = ('DocumentRoot', 'Element', 'Text', 'Comment', 'XMLDecl', 'Instruction', 'Attribute', 'Directive')
PATTERNS = ('a', 'A', 'abc', 'p:a', 'p:abc', '*', 'p:*', 'a:*', '*:a', '*:p', 'xml:lang', 'é', 'div', 'text')
NAMES_ = ('a', 'A', 'b', 'abc', 'ab', 'aa', 'p', 'p:a', 'p:A', 'p:b', 'p:abc', 'p:ab', 'P:a', 'q:a', 'pp:a', 'xp:a', 'a:p', 'a:a', 'a:b',
          'q:p', 'q:pa', 'q:aa', 'xml:lang', 'xml:id', 'é', 'e', 'div', 'text', 'node')
DERIVED = {'xs:untyped': ('xs:untyped', 'xs:anyType'),
           'xs:untypedAtomic': ('xs:untypedAtomic', 'xs:anyAtomicType', 'xs:anySimpleType', 'xs:anyType')}
TYPENAMES = ('xs:untyped', 'xs:anyType', 'xs:untypedAtomic', 'xs:anyAtomicType', 'xs:anySimpleType', 'xs:string', 'xs:integer', 'xs:other')
X, ND = ('y', 'test'), ('y', 'node')


def matches(pattern, name):
    """a name test on the name of a node"""
    if pattern == '*' or pattern == name:
        return True
    p, c, l = pattern.partition(':')
    prefix, colon, local = name.partition(':')
    if not colon:
        prefix, local = '', name
    return c != '' and (l == '*' and prefix == p or p == '*' and local == l)


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    T = Types(P, V, N)
    R = Tests(ctx, P, V, T)
    ctx.rule('a name test is true of the nodes of its kind that have the name')
    n = R.names()
    ctx.floor('name tests', n, 1000)
    ctx.rule('a kind test is true of the nodes of its kind, with its name and type')
    n = R.kinds()
    ctx.floor('kind tests', n, 500)
    ctx.saw(*V.entered)


class Tests:
    def __init__(self, ctx, P, V, T):
        self.ctx, self.P, self.V = ctx, P, V
        tests = tests_of(P)
        if len(tests) != 1:
            raise AnalysisError('no single node test: %s' % tests)
        self.test = tests[0]
        self.T, self.N = T, T.N
        one = lambda e: [a for a in P.adts if a.endswith(e)][0]
        self.node_adt, self.ptr, self.type = one('dom::Node'), one('dom::NodePtr'), one('dom::NodeType')
        self.types = [v['name'] for v in P.adts[self.type]['variants']]
        if set(self.types) != set(NODES):
            raise AnalysisError('kinds of nodes: %s' % self.types)
        self.axes = sorted(k for k in V.kinds if k.startswith('Axis'))

    def node(self, kind, name, attrs=()):
        vals = []
        for g in self.P.adts[self.node_adt]['variants'][0]['fields']:
            n = g['name']
            if n == 'node_type':
                v = ('A', self.type, self.types.index(kind), kind, ())
            elif n == 'name':
                v = S(name) if isinstance(name, str) else name
            elif n == 'attributes':
                v = ('R', tuple(self.node('Attribute', k, ())[4][0] if w is None else self.attribute(k, w) for k, w in attrs))
            else:
                v = ('y', 'its ' + n)
            vals.append(v)
        pn = self.P.adts[self.ptr]['variants'][0]['name']
        return ('A', self.ptr, 0, pn, (('A', self.node_adt, 0, self.P.adts[self.node_adt]['variants'][0]['name'], tuple(vals)),))

    def attribute(self, name, value):
        a = self.node('Attribute', name)[4][0]
        i = [g['name'] for g in self.P.adts[self.node_adt]['variants'][0]['fields']].index('value')
        v = list(a[4])
        v[i] = S(value)
        return a[:4] + (tuple(v),)

    def put(self, st, x, sh):
        V = self.V
        kind, name, left = sh
        st.known[V.fld(x, 'n_type')] = kind
        if name is not None:
            st.known[V.fld(x, NAME)] = S(name)
        if left == 0:
            st.known[V.fld(x, LEFT)] = 'None'
        elif left is not None:
            st.known[V.fld(x, LEFT)] = 'Some'
            self.put(st, V.kid(x, LEFT), left)

    def ask(self, node, shape):
        st = mirai.State()
        self.put(st, X, shape)
        return self.V.run(None, (), fn=self.test, args=[node, X], st=st, one_way=lambda f: True)

    def instance(self, key, node, shape, want):
        st = mirai.State()
        self.put(st, self.V.kid(self.T.T, LEFT), shape)
        enter = {f: lambda *a: None for f in self.T.kindtests}
        I_, x = self.T.run(self.N.seq(N_item(self.N, 'XINode', node)), 'KindTest', shape={LEFT: None}, st=st, more=enter)
        L = Lists(I_, self.P)
        self.ctx.check(bool(I_.rets), key, 'gives no answer')
        for o in I_.rets:
            q = Query(I_, o)
            a = answer(q, L, q.got())
            self.ctx.check(a is want, key, 'is %s' % (a,))
        return 1

    def verdict(self, q):
        v = q.norm(q.val)
        if v[0] == 'b':
            return v[1]
        if v[0] == 'y':
            return q.known(v)
        return q.st.ev(v[1]) if v[0] == 'p' else None

    def decide(self, key, node, shape, want):
        I_ = self.ask(node, shape)
        self.ctx.check(bool(I_.rets), key, 'gives no answer')
        for o in I_.rets:
            v = self.verdict(Query(I_, o))
            self.ctx.check(v is want, key, 'is %s' % (short(o.val) if v is None else v))
        return 1

    def names(self):
        n = 0
        for axis in self.axes:
            main = 'Attribute' if axis == 'AxisAttribute' else 'Element'
            full = axis in ('AxisAttribute', 'AxisChild')
            for p in PATTERNS:
                for name in NAMES_ if full else ('a', 'p:a', 'q:b'):
                    n += self.decide('%s::%s of the %s %s' % (axis, p, main, name), self.node(main, name), (axis, p, 0), matches(p, name))
            for kind in self.types:
                for p, name in (('node()', 'a'), ('node()', '')):
                    n += self.decide('%s::node() of the %s "%s"' % (axis, kind, name), self.node(kind, name), (axis, p, 0), True)
                if kind == main:
                    continue
                for p in ('a', '*', 'p:a', 'p:*', '*:a'):
                    for name in ('a', 'p:a'):
                        n += self.decide('%s::%s of the %s %s' % (axis, p, kind, name), self.node(kind, name), (axis, p, 0), False)
            for p in PATTERNS:
                n += self.unknown('%s::%s of the %s of any name' % (axis, p, main), main, axis, p)
        return n

    def unknown(self, key, main, axis, p):
        """the name is not known: what a path has found out about it is that it is a certain name, or none of those"""
        nm = ('y', 'name')
        I_ = self.ask(self.node(main, nm), (axis, p, 0))
        self.ctx.check(bool(I_.rets), key, 'gives no answer')
        for o in I_.rets:
            q = Query(I_, o)
            k = q.norm(nm)
            if k[0] == 'y':
                k = q.st.known.get(nm, k)
            about = [t for t in list(o.st.known) + list(o.st.excl) if t != nm and mentions(t, nm)]
            if k[0] == 's':
                want = matches(p, k[1])
            elif about:
                continue                        # a part of the name counts: the constants above decide
            else:
                want = p == '*'
            v = self.verdict(q)
            self.ctx.check(v is want or ':' in p and k[0] != 's', key, 'is %s of %s' % (v, short(k)))
        return 1

    # ---- kind tests -------------------------------------------------------------------------------------------------
    def kinds(self):
        n = 0
        simple = (('AnyKindTest', lambda k: True), ('TextTest', lambda k: k == 'Text'), ('CommentTest', lambda k: k == 'Comment'))

        def both(key, node, test, want):
            kt = ('KindTest', None, test)
            m = self.instance('instance of ' + key, node, kt, want)
            for axis in ('AxisChild', 'AxisAttribute', 'AxisSelf', 'AxisDescendantOrSelf'):
                m += self.decide('%s::%s' % (axis, key), node, (axis, '', kt), want)
            return m
        for kind in self.types:
            nd = lambda name, attrs=(): self.node(kind, name, attrs)
            for t, w in simple:
                for name in ('', 'a', t):
                    n += both('%s of the %s "%s"' % (t, kind, name), nd(name), (t, '', 0), w(kind))
            for want in ('', 'a', 'p:a'):
                for name in ('', 'a', 'A', 'b', 'ab', 'p:a', 'q:a'):
                    n += both('processing-instruction(%s) of the %s "%s"' % (want, kind, name), nd(name), ('PITest', want, 0),
                              kind == 'Instruction' and want in ('', name))
            for what, main, base in (('ElementTest', 'Element', 'xs:untyped'), ('AttributeTest', 'Attribute', 'xs:untypedAtomic')):
                dflt = 'xs:anyType?' if main == 'Element' else 'xs:anyType'
                ty = lambda t: ('TypeName', t, 0)
                for want in ('*', 'a', 'p:a'):
                    for name in ('a', 'A', 'b', 'ab', 'p:a', 'q:a', 'pp:a'):
                        n += both('%s(%s) of the %s "%s"' % (what, want, kind, name), nd(name), (what, want, ty(dflt)),
                                  kind == main and want in ('*', name))
                if kind != main:
                    continue
                for t in TYPENAMES:
                    for mark in ('', '?') if main == 'Element' else ('',):
                        for want in ('*', 'a'):
                            for name in ('a', 'b'):
                                for nil in NIL if main == 'Element' else ((),):
                                    ok = want in ('*', name) and t in DERIVED[base] and (mark == '?' or nil not in NILLED)
                                    n += both('%s(%s, %s%s) of the %s %s with attributes %s' % (what, want, t, mark, kind, name, dict(nil)),
                                              nd(name, nil), (what, want, ty(t + mark)), ok)
        return n


NIL = ((), (('xsi:nil', 'true'),), (('xsi:nil', 'false'),), (('nil', 'true'), ('x', 'true')), (('xsi:nil', '0'),), (('xsi:nil', ''),), (('x', 'y'), ('xsi:nil', 'true'), ('z', 'false')))
NILLED = (NIL[1], NIL[6])


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(z, x) for z in t)
