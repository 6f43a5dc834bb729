"""Abstract interpretation of the functions on nodes through the function table, down to what the node API gives; the string value
of a node, a function that calls itself, is judged by one level of the recursion."""
from ..funcs import *

API = ('NodePtr::name', 'NodePtr::local_name', 'NodePtr::namespace_uri', 'NodePtr::root', 'NodePtr::node_type', 'NodePtr::value',
       'NodePtr::children', 'NodePtr::parent', 'NodePtr::attribute_value')


def run(ctx):
    P = ctx.P
    F = Texts(P)
    A = {n.split('::')[1]: P.find(n) for n in API}
    call = lambda n, *a: ('y', 'call', A[n], tuple(a))
    vals = valuers(F)
    leaves = ('xmlerror',) + API + tuple(vals)
    x = F.val(0)
    n = 0
    ctx.rule('the functions on nodes give what the node API tells of the node; string values are made of the text below a node')
    handed = {}
    for v in vals:
        n += string_value(ctx, F, v, call, vals, handed)

    def D(name, shapes, want, **kw):
        return F.decide(ctx, '%s(%s)' % (name, ', '.join({'e': '()', '*': 'sequence'}.get(s, ' '.join(SHAPES.get(c, c)[2:].lower() for c in s)) for s in shapes)),
                        F.run(name, shapes, leaves=leaves, **kw), want)
    for name, api in (('fn:name', 'name'), ('fn:local-name', 'local_name'), ('fn:namespace-uri', 'namespace_uri')):
        n += D(name, 'e', F.string([]))
        n += D(name, 'n', F.single('XIString', lambda q, t: None if q.norm(t) == call(api, x) else 'is %s' % short(t)))
        for s in ('nn', 's', 'i', 'b', 'd', 'sn'):
            n += D(name, [s], 'err')
    n += D('fn:root', 'e', [])
    n += D('fn:root', 'n', F.single('XINode', lambda q, t: None if q.norm(t) == call('root', x) else 'is %s' % short(t)))
    for s in ('nn', 's', 'i', 'b', 'd', 'sn'):
        n += D('fn:root', [s], 'err')
        n += D('fn:nilled', [s], 'err')
    n += D('fn:nilled', 'e', [])
    n += nilled(ctx, F, F.run('fn:nilled', 'n', leaves=leaves), call('node_type', x), call('attribute_value', x, S('xsi:nil')))
    n += D('fn:string', 'e', F.string([]))
    n += D('fn:string', 'n', F.single('XIString', lambda q, t: None if q.norm(t) in [('y', 'call', v, (x,)) for v in vals] else 'is %s' % short(t)))
    n += D('fn:string', 's', F.single('XIString', lambda q, t: None if q.norm(t) == x else 'is %s' % short(t)))
    for s in ('nn', 'ss', 'is'):
        n += D('fn:string', [s], 'err')
    n += data(ctx, F, F.run('fn:data', '*', leaves=leaves), vals)
    for shapes in ('sn', 'en'):
        n += lang(ctx, F, shapes, leaves, call)
    ctx.floor('paths', n, 60)
    ctx.saw(*F.V.entered)


def S(t):
    return ('s', t)


def valuers(F):
    """the functions that make a text of a node and call themselves"""
    out = []
    for f, fn in F.P.fns.items():
        if F.N.sig(f, ['NodePtr'], 'String') and not fn['locals'][1]['ty'].endswith('XNodePtr') and \
                '::xpath_impl::' in '::' + f and any(g['path'] == f for g, t in F.P.calls(fn)):
            out.append(f)
    if not out:
        raise AnalysisError('no function makes the string value of a node by calling itself')
    return out


def string_value(ctx, F, v, call, vals, handed):
    """text, comment, attribute and processing instruction: the value; element and document: the string values of the elements and
    texts among the children, in order"""
    me = ('y', 'node')
    I_ = F.V.run(None, ('xmlerror',) + API, fn=v, args=[me], models={g: F.V.opaque(g) for g in vals})
    others = [('y', 'call', g, (me,)) for g in vals if g != v]           # judged on its own
    kind, kids = call('node_type', me), call('children', me)
    seen = {}
    key = 'string value by %s' % v.split('::')[-1]
    L = None
    for o in I_.rets:
        q = Query(I_, o)
        k = q.known(kind)
        fs = Texts_folds(I_)
        ps = fs.expand(o.st, q.val)
        for t in ([k] if k else [t for t in TYPES if t not in (o.st.excl.get(kind) or ())]):
            if t not in TYPES:
                continue
            seen[t] = seen.get(t, 0) + 1
            why = None
            if len(ps) == 1 and ps[0] in others and handed.get((ps[0][2], t)) != v:
                handed[(v, t)] = ps[0][2]          # not back again: it is made somewhere
            elif t in ('Element', 'DocumentRoot'):
                why = from_children(q, fs, ps, kids, vals, call)
            elif ps != [call('value', me)]:
                why = 'the string value is %s' % short(ps, 150)
            ctx.check(why is None, '%s of a node of type %s' % (key, t), why or '')
    for t in TYPES:
        ctx.check(seen.get(t), '%s of a node of type %s' % (key, t), 'is never made')
    return len(I_.rets)


TYPES = ('DocumentRoot', 'Element', 'Text', 'Comment', 'Instruction', 'Attribute')


def Texts_folds(I_):
    return Folds(I_)


def from_children(q, fs, ps, kids, vals, call):
    n = q.I.length(q.st, kids)
    if not ps and q.st.ent_le(n):
        return None
    if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != kids or not q.st.ent_le(ps[0][2]) or not ps[0][4]:
        return 'the string value is %s' % short(ps, 150)
    got = set()
    for b, alt in ps[0][3]:
        at = [t for t in set(b.st.known) | set(b.st.excl) if t[:3] == ('y', 'call', call('node_type', kids)[2]) and has_part(t[3], lambda y: y[:2] == ('y', 'elem') and y[2] == kids)]
        ts = set(TYPES)
        for t in at:
            ts &= {b.st.known[t]} if b.st.known.get(t) else ts - set(b.st.excl.get(t) or ())
        for t in ts:
            got.add(t)
            want = [[('y', 'call', v, (ITEM,))] for v in vals] if t in ('Element', 'Text') else [[]]
            if alt not in want and t in ('Element', 'Text', 'Comment', 'Instruction'):
                return 'a child of type %s is taken as %s' % (t, short(alt, 100))
    return None if {'Element', 'Text'} <= got else 'children are left out'


def nilled(ctx, F, I_, kind, nil):
    n = 0
    for t in TYPES:
        for v in (None, 'true', 'other') if t == 'Element' else (None,):
            case = Nil(kind={kind: t, nil: 'None' if v is None else 'Some'})
            case.nil, case.value = ('y', 'vf', nil, 'Some', 0), v
            if t != 'Element':
                want = []
            else:
                want = F.single('XIBoolean', lambda q, b: None if case.bool(q.norm(b)) is (v == 'true') else 'is %s' % short(b))
            n += F.decide(ctx, 'fn:nilled of a node of type %s, xsi:nil %s' % (t, v), I_, want, case)
    return n


class Nil(Case):
    def has(self, t, v):
        if t == self.nil and self.value and v and v[0] == 's':
            return v == ('s', self.value) if self.value != 'other' else None if v != ('s', 'true') else False
        return Case.has(self, t, v)

    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x == self.nil[2] and y[0] == 'A' and y[3] in ('Some', 'None'):
                return y[3] == 'None' if not self.value else self.has(self.nil, y[4][0]) if y[3] == 'Some' else False
            if x == self.nil and y[0] == 's':
                return self.has(x, y)
        return Case.same(self, a, b)

    def bool(self, t):
        if t[:2] == ('y', 'bin') and t[2] in ('Eq', 'Ne'):
            r = self.same(t[3], t[4])
            if r is not None:
                return r == (t[2] == 'Eq')
        return Case.bool(self, t)


def data(ctx, F, I_, vals):
    """item by item, a node as the string of its string value, every other item as it is"""
    A = F.list(0)

    def f(q, L, v):
        ps = L.parts(q.st, L.of(v))
        if not ps and q.st.ent_le(F.len(0)):
            return None
        if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != A or not q.st.ent_le(ps[0][2]) or not ps[0][4]:
            return 'is %s' % short(ps, 150)
        for b, alt in ps[0][3]:
            el = [t for t in set(b.st.known) | set(b.st.excl) if t[:2] == ('y', 'elem') and t[2] == A]
            ks = set(F.N.kinds)
            for t in el:
                ks &= {b.st.known[t]} if b.st.known.get(t) else ks - set(b.st.excl.get(t) or ())
            one = [x[1] for x in alt if x[0] == 'e']
            if len(alt) != 1 or len(one) != 1:
                return 'an item is taken as %s' % short(alt, 100)
            node = ('y', 'vf', ITEM, 'XINode', 0)
            if 'XINode' in ks and not (one[0][0] == 'A' and one[0][3] == 'XIString' and one[0][4][0] in [('y', 'call', g, (node,)) for g in vals]):
                return 'a node is taken as %s' % short(one[0], 100)
            for k in sorted(ks & {'XIString', 'XIInteger', 'XIDecimal', 'XIDouble', 'XIBoolean'}):
                if one[0] != ITEM and one[0] != F.item(k, ('y', 'vf', ITEM, k, 0)):
                    return 'an item of kind %s is taken as %s' % (k[2:], short(one[0], 100))
        return None
    return F.decide(ctx, 'fn:data(sequence)', I_, f)


def lang(ctx, F, shapes, leaves, call):
    """the nearest node, going up from the node itself, with xml:lang; its value is the language or begins with it and `-`, letter
    case aside"""
    me = F.val(1)
    low = lambda t: ('y', 'str', 'to_lowercase', (t,))
    test = low(F.val(0)) if shapes[0] == 's' else S('')
    I_ = F.run('fn:lang', shapes, leaves=leaves, models={f: F.V.opaque(f) for f in F.N.rec})

    def f(q, L, v):
        it = F.one(q, L, v, 'XIBoolean')
        if it is None:
            return 'is %s instead of a truth value' % short(v)
        kept = [w for w in symbols(it) | {w for k in (q.st.eqs, q.st.known, q.st.excl) for y in k for w in symbols(y)} if last_kept(q, L, F, call, me, w)]
        try:
            found = kept[0] if kept else nearest(q, L, F, call, me)
        except Odd as e:
            return str(e)
        val = S('') if found is None else found if kept else low(found)
        for a in (True, False):
            for b in (True, False):
                case = Lang(val, test, a, b)
                if not case.fits(q.st) or not case.fits(q.st, q.norm):
                    continue
                if found is None and (b or shapes[0] == 'e' and not a):
                    continue              # the empty text begins with no language and "-"
                if case.bool(it) is not (a or b):
                    return 'is %s when the language is %sthe one asked for and %s with it and "-"' % (short(it), '' if a else 'not ', 'begins' if b else 'does not begin')
        return None
    return F.decide(ctx, 'fn:lang(%s, node)' % ('string' if shapes[0] == 's' else '()'), I_, f)


class Lang(Case):
    def __init__(self, val, test, same, begins):
        Case.__init__(self)
        self.val, self.test, self.eq, self.begins = val, test, same, begins
        self.pre = [('cat', (('v', test), ('s', '-'))) if test[0] != 's' else ('s', test[1] + '-')]

    def same(self, a, b):
        if {a, b} == {self.val, self.test}:
            return self.eq
        return Case.same(self, a, b)

    def has(self, t, v):
        if isinstance(v, tuple) and {t, v} == {self.val, self.test}:
            return self.eq
        return Case.has(self, t, v)

    def bool(self, t):
        if t[:3] == ('y', 'str', 'starts_with') and t[3][0] == self.val and t[3][1] in self.pre:
            return self.begins
        if t[:2] == ('y', 'bin') and t[2] in ('Eq', 'Ne'):
            r = self.same(t[3], t[4])
            if r is not None:
                return r == (t[2] == 'Eq')
        return Case.bool(self, t)


def symbols(t):
    out = set()
    has_part(t, lambda y: y[:2] == ('y', 'w') and out.add(y))
    return out


def nearest(q, L, F, call, me):
    """the value of xml:lang on the nearest node that has one (None: there is none): the node itself, one found by going over the
    node and its ancestors from the inside out or along the parent links, or the last one seen from the outside in"""
    st = q.st
    asks = {t: v for t, v in st.known.items() if t[:3] == call('attribute_value')[:3] and t[3][1:] == (XMLLANG,)}
    some = [t for t, v in asks.items() if v == 'Some']
    if len(some) > 1:
        raise Odd('two attributes are taken')
    if some and some[0][3][0] == me:
        return ('y', 'vf', some[0], 'Some', 0)
    for k in [k[1] for k in st.aux if k[0] == 'gw']:
        bs = L.F.around(st, k)
        if bs:
            for r in (by_index(q, L, F, call, me, k, bs), by_parent(q, L, F, call, me, k, bs)):
                if r is None or some and some[0][3][0] != r[0]:
                    continue
                if some:
                    return ('y', 'vf', some[0], 'Some', 0)
                if r[1]:
                    return None
    raise Odd('which attribute counts cannot be read back')


XMLLANG = S('xml:lang')


def asked(b, call):
    return {t[3][0]: t for t in set(b.st.known) | set(b.st.excl) if t[:3] == call('attribute_value')[:3] and t[3][1:] == (XMLLANG,)}


def without(b, t):
    return b.st.known.get(t) == 'None' or 'Some' in (b.st.excl.get(t) or ())


def by_index(q, L, F, call, me, key, bs):
    """(node looked at, whether the loop has come to its end) of a loop over the node and its ancestors from the inside out"""
    r = stepping(L, F, call, me, key, bs)
    if r is None:
        return None
    x, idx, n, up = r
    for b in bs:
        for y, t in asked(b, call).items():
            if y == x and not without(b, t):
                raise Odd('goes past a node that has the attribute')
    if not up:
        raise Odd('looks at the outermost node first')
    return x, q.st.ent_le(ladd(idx, I(1))) if up == 'down' else q.st.ent_le(lsub(n, idx))


def stepping(L, F, call, me, key, bs):
    """(node asked for xml:lang, its index, length of the list, how it goes from the inside out: 'up' or 'down' in the list, False:
    from the outside in) when each way round the loop asks the next of all of the node and its ancestors"""
    out = None
    for b in bs:
        got = None
        for x in asked(b, call):
            if x[:2] != ('y', 'elem'):
                continue
            l, idx = x[2], x[3]
            back = l[:2] == ('y', 'reverse')
            ps = L.parts(b.st, l[2] if back else l)
            if [p[:2] for p in ps] != [('l', ('y', 'call', p[1][2], (me,))) if p[0] == 'l' else ('e', me) for p in ps] or \
                    [F.N.roles.get(p[1][2]) if p[0] == 'l' else 'self' for p in ps] not in (['anc', 'self'], ['anc+self']):
                raise Odd('looks at %s' % short(l))
            n = L.F.I.length(b.st, l[2] if back else l)
            w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
            for c in w:
                if c not in b.st.mem or c not in s or b.st.mem[c] == w[c]:
                    continue
                for (h, nx), (s0, _) in zip(int_parts(w[c], b.st.mem[c]), int_parts(s[c], w[c])):
                    d = lsub(b.st.nl(nx), b.st.nl(h))
                    off = lsub(b.st.nl(idx), b.st.nl(h))
                    if d not in (I(1), I(-1)) or lin(off)[1]:
                        continue
                    first = b.st.nl(ladd(s0, off))
                    if d == I(1) and first == I(0):
                        got = x, idx, n, 'up' if back else False
                    elif d == I(-1) and not back and first == b.st.nl(lsub(n, I(1))):
                        got = x, idx, n, 'down'
        if got is None or out is not None and out != got:
            return None
        out = got
    return out


def by_parent(q, L, F, call, me, key, bs):
    """(node looked at, whether the loop has come to its end) of a walk along the parent links that starts at the node"""
    xs = set()
    for b in bs:
        w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
        got = None
        for x, t in asked(b, call).items():
            opt = x[:2] == ('y', 'vf') and x[3] == 'Some'
            y = x[2] if opt else x
            at = L.F.origin(b.st, y)
            if at is None or at[0] != key:
                continue
            start, nxt = follow(s[at[1]], at[2]), follow(b.st.mem[at[1]], at[2])
            start, nxt = L.F.I.norm(b.st, start), L.F.I.norm(b.st, nxt)
            up = call('parent', x)
            if opt and (start != some_of(F, me) and start != some_of(F, L.F.I.norm(b.st, me))):
                raise Odd('the walk starts at %s' % short(start))
            if not opt and start != me:
                raise Odd('the walk starts at %s' % short(start))
            if nxt not in ((up, some_of(F, ('y', 'vf', up, 'Some', 0))) if opt else (('y', 'vf', up, 'Some', 0),)):
                raise Odd('the walk goes on to %s' % short(nxt))
            if not without(b, t):
                raise Odd('goes past a node that has the attribute')
            got = (x, opt, y)
        if got is None:
            return None
        xs.add(got)
    if len(xs) != 1:
        return None
    x, opt, y = xs.pop()
    if opt:
        return x, q.known(y) == 'None'
    return x, q.known(call('parent', x)) == 'None' and q.known(call('attribute_value', x, XMLLANG)) == 'None'


def some_of(F, t):
    return ('A', 'std::option::Option', 1, 'Some', (t,))


def last_kept(q, L, F, call, me, w):
    """whether the text w is the lower-cased xml:lang of the last node that has one, from the outside in (the empty text: none)"""
    at = L.F.origin(q.st, w)
    if at is None:
        return False
    key, c, path = at
    bs = L.F.around(q.st, key)
    r = stepping(L, F, call, me, key, bs)
    if r is None or r[3] is not False or follow(q.st.aux[('gs', key)][c], path) != S('') or not q.st.ent_le(lsub(r[2], r[1])):
        return False
    t = call('attribute_value', r[0], XMLLANG)
    for b in bs:
        v = L.F.I.norm(b.st, follow(b.st.mem[c], path))
        if v != (w if without(b, t) else ('y', 'str', 'to_lowercase', (('y', 'vf', t, 'Some', 0),))):
            return False
    return True
