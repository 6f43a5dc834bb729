"""Abstract interpretation of the evaluator and of every function that is given the environment: each evaluation of a part of an
expression is a term (context, part, environment), so the focus it is made in can be read off.  A part sees either the focus of
the whole expression, or - in a step, a simple map and a predicate - one item, its place in the list and the length of the list."""
from ..ev import *
from ..sem import *
from .v05 import preserve, heavy, lists_field


def run(ctx):
    P = ctx.P
    V = Ev(P)
    L, R = V.kid(V.x, LEFT), V.kid(V.x, RIGHT)
    two = {LEFT: None, RIGHT: None}
    ctx.rule('each part of an expression is evaluated in the focus its construct prescribes')
    pos, last = focus_fields(ctx, P, V)
    E = V.envs()
    focus = Focus(ctx, P, V, E, pos, last)

    # the context item expression
    I_ = V.run(('ContextItem', {}), ('xmlerror',))
    check_paths(ctx, P, I_, 'ContextItem', lambda q, Ls: ('val', V.ctx), 1, V.env)

    # simple map: the results of all items, in their order
    I_ = V.run(('OperatorMap', two), heavy(P))
    lists = Lists(I_, P)

    def s_map(q, Ls):
        l = q.res(V.result(L))

        def each(q2, n):
            for e in q2.st.events()[::-1]:
                if e[0] == 'call' and e[1] == V.ev and q2.norm(e[2][1]) == R:
                    return [('l', Ls.of(q2.res(e[3])))]
            raise Bad('the right side is not evaluated for each item')
        for e in q.st.events()[::-1]:
            if e[0] == 'call' and e[1] == V.ev and q.norm(e[2][1]) == R:
                q.res(e[3])
                break
        return ('parts', [('for', Ls.of(l), each)])
    check_paths(ctx, P, I_, 'OperatorMap', s_map, 3)

    # every evaluation anywhere
    n = 0
    for k in V.kinds:
        if k != 'Nil':
            I_ = V.run((k, two), heavy(P), opaque=[f for f in E if f != V.ev])
            n += focus.scan(I_, k, V.ctx, V.env, {'OperatorPath': [L], 'OperatorMap': [L]}.get(k, ()))
    for f in sorted(E):
        if f == V.ev:
            continue
        I_ = V.run(None, heavy(P), fn=f, opaque=list(E))
        env = ('y', 'arg', E[f], P.fns[f]['locals'][E[f] + 1]['name'])
        n += focus.scan(I_, f.split('::')[-1], focus.ctxarg(f), env, True)
    ctx.floor('evaluations whose focus was read', n, 20)
    m = preserve(ctx, P, V, [f for f in V.envfields() if not lists_field(P, f)], 'leaves the focus')
    ctx.floor('functions and kinds that leave the focus as it was', m, 80)
    ctx.saw(*V.entered)


def focus_fields(ctx, P, V):
    """the fields of the environment that position() and last() give"""
    f = P.find('evaluate_function')
    out = []
    for nm in ('fn:position', 'fn:last'):
        I_ = V.run(None, ('xmlerror',), fn=f, args=[S(nm), ('R', ()), None, None])
        fld = None
        for o in I_.rets:
            q = Query(I_, o)
            g = q.got()
            ps = Lists(I_, P).parts(o.st, Lists(I_, P).of(g[1])) if g[0] == 'ok' else []
            ok = len(ps) == 1 and ps[0][0] == 'e' and ps[0][1][0] == 'A' and ps[0][1][3].endswith('Integer')
            x = ps[0][1][4][0] if ok else None
            ok = ok and x[:2] == ('y', 'fld') and x[2][:2] == ('y', 'arg')
            ctx.check(ok, nm, 'returns %s' % short(q.val))
            if ok:
                fld = (x[3], x[4])
        if fld is None:
            raise AnalysisError('%s does not give a field of the environment' % nm)
        out.append(fld)
    ctx.check(out[0] != out[1], 'fn:position and fn:last', 'give the same number')
    return out


class Focus:
    def __init__(self, ctx, P, V, E, pos, last):
        self.c, self.P, self.V, self.E, self.pos, self.last = ctx, P, V, E, pos, last
        self.memo = {V.ev: 0}
        xs = [a for a in P.adts if a.endswith('xsequence::XSequence')]
        self.seqfield = P.adts[xs[0]]['variants'][0]['fields'][0]['name']
        # parameters that are handed on as the context of an evaluation
        self.runs = {}
        todo = True
        while todo:
            todo = False
            for f in E:
                if f in self.memo:
                    continue
                if f not in self.runs:
                    self.runs[f] = [e for o in V.run(None, heavy(P), fn=f, opaque=list(E)).outs for e in o.st.events()
                                    if e[0] == 'call' and e[1] in E]
                for e in self.runs[f]:
                    if e[1] in self.memo and self.memo[e[1]] is not None:
                        c = e[2][self.memo[e[1]]]
                        if c[:2] == ('y', 'arg'):
                            self.memo[f] = c[2]
                            todo = True
                            break

    def ctxarg(self, f):
        i = self.memo.get(f)
        return ('y', 'arg', i, self.P.fns[f]['locals'][i + 1]['name']) if i is not None else None

    def scan(self, I_, name, c0, e0, over):
        """every evaluation that a run makes is in the focus (c0, e0) or in that of one item of a list"""
        n = 0
        seen = set()
        for o in I_.outs:
            for e in o.st.events():
                if e[0] != 'call' or e[1] not in self.E:
                    continue
                i = self.memo.get(e[1])
                env = e[2][self.E[e[1]]]
                c = I_.norm(o.st, e[2][i]) if i is not None else None
                if (e[1], c, env) in seen:
                    continue
                seen.add((e[1], c, env))
                n += 1
                p = I_.norm(o.st, self.V.envget(env, *self.pos))
                l = I_.norm(o.st, self.V.envget(env, *self.last))
                same = p == ('y', 'fld', e0) + self.pos and l == ('y', 'fld', e0) + self.last
                key = '%s evaluates' % name
                if i is None or c == c0:
                    ok = same
                    # the sides that are to be evaluated for each item are not evaluated in the outer focus
                    if i == 0 and e[1] == self.V.ev and over and over is not True and I_.norm(o.st, e[2][1]) not in over:
                        self.c.check(False, key, '%s is evaluated once instead of for each item' % short(e[2][1]))
                    self.c.check(ok, key, 'the context item is the outer one but %s' %
                                 ('position() is %s' % short(p) if p != ('y', 'fld', e0) + self.pos else 'last() is %s' % short(l)))
                    continue
                self.c.check(bool(over), key, 'evaluates a part with the context item %s' % short(c))
                one = c[0] == 'A' and len(c[4]) == 1 and c[4][0][0] == 'R' and len(c[4][0][1]) == 1 and \
                    c[4][0][1][0][:2] == ('y', 'elem')
                if not one:
                    self.c.check(False, key, 'the context is %s instead of one item' % short(c))
                    continue
                s, k = c[4][0][1][0][2:4]
                ln = I_.length(o.st, s)
                self.c.check(o.st.nl(l) == o.st.nl(ln), key, 'last() is %s and not the number of items' % short(l))
                # (which predicates count from the end is V17)
                want = [ladd(k, I(1))] + ([lsub(ln, k)] if over is True else [])
                self.c.check(o.st.nl(p) in [o.st.nl(w) for w in want], key, 'position() of the item at %s is %s' % (short(k), short(p)))
                if over is not True:
                    src = [('y', 'fld', ('y', 'vf', self.V.result(x), 'Ok', 0), 0, self.seqfield) for x in over]
                    self.c.check(s in [I_.norm(o.st, x) for x in src], key, 'the items are those of %s' % short(s))
        return n
