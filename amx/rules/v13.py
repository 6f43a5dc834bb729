"""Abstract interpretation of the entry points of XPath with the compiler of expressions and the evaluator as unknowns: what they are
called with, and what becomes of an error, of a value with a few items of each kind, and of a value with any number of items (the
loops over it read back as lists)."""
from ..types import *
from ..fold import ITEM
import itertools

NODE = 'XINode'


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    E = Entries(ctx, P, V, N)
    ctx.rule('an expression is compiled and evaluated once, for the node, outside any focus, with no variables')
    n = E.unknown()
    ctx.floor('entry points', n, 4)
    ctx.rule('the nodes of the value are given in its order')
    n = E.few()
    ctx.floor('values', n, 200)
    ctx.rule('a sequence holds the items of the value')
    E.wrapped()
    ctx.saw(*V.entered)


class Entries:
    def __init__(self, ctx, P, V, N):
        self.ctx, self.P, self.V, self.N = ctx, P, V, N
        own = [f for f, fn in P.fns.items() if not fn.get('std') and fn['kind'] == 'fn']
        ty = lambda f, i: P.fns[f]['locals'][i]['ty']
        self.comp = [f for f in own if P.fns[f]['argc'] == 1 and ty(f, 0).startswith('std::result::Result<') and
                     ty(f, 0).count('parser::XNodePtr') == 1 and ty(f, 1).endswith(('str', 'String'))]
        if not self.comp:
            raise AnalysisError('no compiler of expressions')
        self.entry = {}
        for name in ('eval_xpath', 'get_nodeset', 'get_first_node', 'each_node'):
            c = [f for f in own if f.endswith('::' + name) and ty(f, 1).endswith('dom::NodePtr')]
            if len(c) != 1:
                raise AnalysisError('no single %s' % name)
            self.entry[name] = c[0]

    def arg(self, name, i):
        return ('y', 'arg', i, self.P.fns[self.entry[name]]['locals'][i + 1]['name'])

    def explore(self, name, value):
        V = self.V

        def ev(I_, st, a, fr, site, t, dty, g):
            x = [I_.own(st, a[0]), I_.own(st, a[1])]
            e = a[2]
            e = I_.norm(st, st.mem.get(('S', e), e) if e[0] == 'y' else I_.deref(st, e))
            st.add(('evaluate', x[0], x[1], e))
            s2 = st.fork()
            s2.add(('failed',))
            return [(st, mirai.ok(value)), (s2, ('A', 'std::result::Result', 1, 'Err', (('y', 'failure'),)))]
        ms = {c: V.opaque(c) for c in self.comp}
        ms[V.ev] = ev
        return V.run(None, (), fn=self.entry[name], models=ms)

    def asked(self, key, name, q):
        """the compilations and evaluations of a path; 'Err' if one of them failed"""
        ctx, V = self.ctx, self.V
        me, text = self.arg(name, 0), self.arg(name, 1)
        c = [e for e in q.st.events() if e[0] == 'call' and e[1] in self.comp]
        v = [e for e in q.st.events() if e[0] == 'evaluate']
        ok = len(c) == 1 and q.norm(c[0][2][0]) == text
        ctx.check(ok, key, 'does not compile the expression exactly once')
        if not ok:
            return None
        r = q.norm(c[0][3])
        if q.known(r) == 'Err' and not v:
            return r, None
        ok = len(v) == 1 and q.known(r) == 'Ok'
        ctx.check(ok, key, 'does not evaluate the compiled expression exactly once')
        if not ok:
            return None
        seq, x, env = [q.norm(z) for z in v[0][1:]]
        ctx.check(seq == self.N.seq(self.N.item(me)), key, 'evaluates for %s, not for the node alone' % short(seq))
        ctx.check(x == ('y', 'vf', r, 'Ok', 0), key, 'evaluates %s' % short(x))
        ctx.check(env[0] == 'A' and all(z in (I(0), ('R', ())) for z in env[4]), key, 'evaluates in the environment %s' % short(env))
        return r, x

    def failed(self, q):
        return any(e == ('failed',) for e in q.st.events())

    def error(self, name, q, r, e):
        """the path ends in an error"""
        g = q.norm(q.val)
        if name == 'get_first_node':
            return g[0] == 'A' and g[3] == 'None'
        return g == r or g[0] == 'A' and g[3] == 'Err' and g[4][0] == e

    def unknown(self):
        """any value"""
        ctx = self.ctx
        val = ('y', 'value')
        for name in self.entry:
            I_ = self.explore(name, val)
            L = Lists(I_, self.P)
            lst = L.of(val)
            key = name
            ctx.check(bool(I_.rets), key, 'never returns')
            good = 0
            for o in I_.rets:
                q = Query(I_, o)
                a = self.asked(key, name, q)
                if a is None:
                    continue
                applied = [e for e in q.st.events() if e[0] == 'apply']
                if a[1] is None:
                    ctx.check(self.error(name, q, a[0], ('y', 'vf', a[0], 'Err', 0)) and not applied, key,
                              'is %s for an expression that does not compile' % short(q.val))
                    continue
                if self.failed(q):
                    ctx.check(self.error(name, q, None, ('y', 'failure')) and not applied, key,
                              'is %s where the evaluation is an error' % short(q.val))
                    continue
                g = q.norm(q.val)
                good += 1
                if name == 'eval_xpath':
                    ctx.check(g[0] == 'A' and g[3] == 'Ok' and g[4][0][0] == 'A' and len(g[4][0][4]) == 1 and
                              self.unwrap(q, g[4][0][4][0]) == val, key, 'is %s' % short(g))
                elif name == 'get_nodeset':
                    ok = g[0] == 'A' and g[3] == 'Ok'
                    ctx.check(ok, key, 'is %s' % short(g))
                    if ok:
                        self.filtered(key, q, L, g[4][0], lst)
                elif name == 'each_node':
                    ctx.check(g[0] == 'A' and g[3] == 'Ok', key, 'is %s' % short(g))
            ctx.check(good > 0, key, 'never succeeds')
            if name == 'each_node':
                self.each(key, I_, L, lst)
        return len(self.entry)

    def unwrap(self, q, v):
        v = q.norm(v)
        if v[0] == 'A' and v[1].endswith('XSequence') and len(v[4]) == 1:
            x = q.norm(v[4][0])
            if x == ('y', 'fld', ('y', 'value'), 0, Lists(q.I, self.P).seqfield):
                return ('y', 'value')
        return v

    def filtered(self, key, q, L, got, lst):
        """the list is what the nodes of lst are"""
        ps = [p for p in L.parts(q.st, got) if not (p[0] == 'l' and L.empty(q.st, p[1]))]
        if not ps and L.empty(q.st, lst):
            return
        ok = len(ps) == 1 and ps[0][0] == 'for' and q.norm(ps[0][1]) == lst and ps[0][2] == I(0) and ps[0][4]
        self.ctx.check(ok, key, 'does not go through all items of the value: %s' % L.show(ps))
        if ok:
            seen = set()
            for b, alt in ps[0][3]:
                e = ('y', 'elem', lst, ps[0][5])
                k = self.kind_of(b.st, lst, ps[0][5])
                seen.add(k)
                want = [('e', ('y', 'vf', ITEM, NODE, 0))] if k == NODE else []
                self.ctx.check(alt == want, key, 'gives %s for %s item' % (L.show(alt), 'a node' if k == NODE else 'another'))
            self.ctx.check(NODE in seen and len(seen) > 1, key, 'does not tell nodes from other items')

    def kind_of(self, st, lst, n):
        for t, v in list(st.known.items()):
            if t[:2] == ('y', 'elem') and t[2] == lst and isinstance(v, str):
                return v
        return 'other'

    def each(self, key, I_, L, lst):
        """each way round the loop that calls the function calls it for one node"""
        F = L.F
        done = set()
        for b in I_.backs:
            ap = [e for e in b.st.events() if e[0] == 'apply']
            if not ap:
                continue
            it = F.iteration(b, b.info[2])
            self.ctx.check(it is not None and it[1] == I(0), key, 'does not go through a list from its start')
            if it is None:
                continue
            x = I_.norm(b.st, ap[-1][2][0])
            if it[0] == lst:
                want = ('y', 'vf', ('y', 'elem', lst, it[2]), NODE, 0)
            else:
                want = ('y', 'elem', it[0], it[2])
            self.ctx.check(len(ap) == 1 and len(ap[0][2]) == 1 and I_.norm(b.st, want) == x, key,
                           'calls the function with %s' % short(x))
            done.add(b.info[2])
        self.ctx.check(len(done) == 1, key, 'calls the function in %d loops' % len(done))

    def few(self):
        """values of a few items of known kinds"""
        n = 0
        kinds = list(self.N.kinds)
        some = [NODE, 'XIString', 'XIMap']
        combos = [()] + [(k,) for k in kinds] + list(itertools.product(kinds, [NODE])) + list(itertools.product([NODE], kinds)) + \
            list(itertools.product(some, repeat=3)) + [(NODE,) * 4]
        for name in self.entry:
            for ks in combos:
                xs = [('y', 'x%d' % i) for i in range(len(ks))]
                val = self.N.seq(*[N_item(self.N, k, x) for k, x in zip(ks, xs)])
                nodes = [x for k, x in zip(ks, xs) if k == NODE]
                key = '%s with a value of (%s)' % (name, ', '.join(k[2:] for k in ks))
                I_ = self.explore(name, val)
                good = 0
                for o in I_.rets:
                    q = Query(I_, o)
                    ev = any(e[0] == 'evaluate' for e in q.st.events())
                    ap = [tuple(e[2]) for e in q.st.events() if e[0] == 'apply']
                    g = q.norm(q.val)
                    if not ev or self.failed(q):
                        self.ctx.check(not ap, key, 'calls the function although there is an error')
                        continue
                    if name == 'get_first_node':
                        ok = g[0] == 'A' and (g[3] == 'None' if not nodes else g[3] == 'Some' and q.norm(g[4][0]) == nodes[0])
                    elif name == 'get_nodeset':
                        ok = g[0] == 'A' and g[3] == 'Ok' and self.elements(I_, q, g[4][0]) == nodes
                    elif name == 'each_node':
                        ok = [tuple(q.norm(z) for z in a) for a in ap] == [(z,) for z in nodes]
                    else:
                        ok = g[0] == 'A' and g[3] == 'Ok' and q.norm(g[4][0][4][0]) == q.norm(val)
                    good += 1
                    self.ctx.check(ok, key, 'is %s' % short(g))
                self.ctx.check(good > 0, key, 'never succeeds')
                n += 1
        return n

    def elements(self, I_, q, v):
        ps = Lists(I_, self.P).parts(q.st, v)
        return [q.norm(p[1]) for p in ps if p[0] == 'e'] if all(p[0] == 'e' or p[0] == 'l' and I_.length(q.st, p[1]) == I(0) for p in ps) else ps

    def wrapped(self):
        """Sequence and Item"""
        P, V, N, ctx = self.P, self.V, self.N, self.ctx
        one = lambda e: [a for a in P.adts if a.endswith(e)][0]
        sq, it = one('xpath::Sequence'), one('xpath::Item')
        wrap = lambda a, v: ('A', a, 0, P.adts[a]['variants'][0]['name'], (v,))
        kinds = list(N.kinds)
        for n in range(4):
            items = [N_item(N, kinds[i], ('y', 'x%d' % i)) for i in range(n)]
            s = wrap(sq, N.seq(*items))
            I_ = V.run(None, (), fn=P.find('xpath::Sequence::len'), args=[s])
            for o in I_.rets:
                ctx.check(I_.norm(o.st, o.val) == I(n), 'Sequence::len of %d items' % n, 'is %s' % short(o.val))
            for i in range(n):
                I_ = V.run(None, (), fn=P.find('xpath::Sequence::get_item'), args=[s, I(i)])
                key = 'Sequence::get_item(%d) of %d items' % (i, n)
                ctx.check(bool(I_.rets), key, 'never returns')
                for o in I_.rets:
                    ctx.check(I_.norm(o.st, o.val) == wrap(it, items[i]), key, 'is %s' % short(o.val))
        for k in kinds:
            x = ('y', 'x')
            I_ = V.run(None, (), fn=P.find('xpath::Item::as_nodeptr'), args=[wrap(it, N_item(N, k, x))])
            key = 'Item::as_nodeptr of ' + k
            ctx.check(bool(I_.rets), key, 'never returns')
            for o in I_.rets:
                v = I_.norm(o.st, o.val)
                ctx.check(v[0] == 'A' and (v[3] == 'Some' and v[4][0] == x if k == NODE else v[3] == 'None'), key, 'is %s' % short(v))
