"""Abstract interpretation of the evaluator for the binding constructs: the environment each body is evaluated in is a term; that a
reference to the bound name gives the bound value there, and a reference to any other name what it gave outside, is read off
from the run of the evaluator for a reference.  That an environment is left as it was found is shown for every function that is
given one for writing, with the functions it calls assumed to do the same."""
from ..ev import *
from ..sem import *


def run(ctx):
    P = ctx.P
    V = Ev(P)
    L, R = V.kid(V.x, LEFT), V.kid(V.x, RIGHT)
    name = V.fld(V.x, 'name')
    two = {LEFT: None, RIGHT: None}
    leaves = ('effective_boolean_value', 'xmlerror')
    ctx.rule('a reference sees the innermost binding of its name')
    why = V.others(V.env, V.env, ())
    ctx.check(why is None, 'VarRef', why or '')
    for kind, many in (('ForVarBind', True), ('LetVarBind', False), ('SomeVarBind', True), ('EveryVarBind', True)):
        I_ = V.run((kind, two), leaves)
        lists = Lists(I_, P)
        l = ('y', 'vf', V.result(L), 'Ok', 0)
        nb = 0
        seen = set()
        for o in I_.rets + I_.backs:
            for e in o.st.events():
                if e[0] != 'call' or e[1] != V.ev:
                    continue
                c, x, env = [I_.norm(o.st, y) for y in e[2][:2]] + [e[2][2]]
                if (c, x, env) in seen:
                    continue
                seen.add((c, x, env))
                if x == L:
                    ctx.check(c == V.ctx and env == V.env, kind + ' range', 'the range is not evaluated where the expression is')
                    continue
                if x != R:
                    ctx.check(False, kind + ' parts', 'evaluates %s' % short(x))
                    continue
                nb += 1
                ctx.check(c == V.ctx, kind + ' context', 'the body has the context item %s' % short(c))
                if many:
                    vs = [v for v in terms(env) if v[0] == 'A' and v[1].endswith('XSequence') and v[4][0][0] == 'R']
                    val = [v for v in vs if len(v[4][0][1]) == 1 and v[4][0][1][0][:3] == ('y', 'elem', lists.of(l))]
                    ctx.check(len(val) == 1, kind + ' value', 'the variable is not bound to one item of the range at a time')
                    if not val:
                        continue
                    v = val[0]
                else:
                    v = l
                why = V.binds(env, name, v) or V.others(env, V.env, (name,))
                ctx.check(why is None, kind + ' binding', 'in the body %s' % why)
                for i, n in enumerate(V.envfields()):
                    if lists_field(P, n):
                        continue
                    x = V.envget(env, i, n)
                    ctx.check(x == ('y', 'fld', V.env, i, n), kind + ' focus', 'the body sees another %s' % n)
        ctx.floor(kind + ' bodies', nb, 1)
        if kind == 'ForVarBind':
            def s_for(q, Ls):
                r = q.res(V.result(L))

                def each(q2, n):
                    for e in q2.st.events()[::-1]:
                        if e[0] == 'call' and e[1] == V.ev and q2.norm(e[2][1]) == R:
                            return [('l', Ls.of(q2.res(e[3])))]
                    raise Bad('the body is not evaluated for each item')
                # an error of the body ends the loop
                for e in q.st.events()[::-1]:
                    if e[0] == 'call' and e[1] == V.ev and q.norm(e[2][1]) == R:
                        q.res(e[3])
                        break
                return ('parts', [('for', Ls.of(r), each)])
            check_paths(ctx, P, I_, kind, s_for, 3)
        if kind == 'LetVarBind':
            def s_let(q, Ls):
                q.res(V.result(L))
                for e in q.st.events()[::-1]:
                    if e[0] == 'call' and e[1] == V.ev and q.norm(e[2][1]) == R:
                        return ('val', q.res(e[3]))
                raise Bad('the body is not evaluated')
            check_paths(ctx, P, I_, kind, s_let, 2)
        for o in I_.rets:
            if Query(I_, o).got()[0] != 'err':
                why = V.same_env(I_, o.st, I_.norm(o.st, o.st.mem.get(('S', V.env), V.env)))
                ctx.check(why is None, kind + ' leaves', 'when it is done %s' % why)
    params(ctx, P, V)
    n = preserve(ctx, P, V, [f for f in V.envfields() if lists_field(P, f)])
    ctx.floor('functions and kinds that leave the variables as they were', n, 80)
    ctx.saw(*V.entered)


def binders(P, f):
    """the functions on the environment that f calls directly"""
    return sorted({g['path'] for g, t in P.calls(P.fns[f]) if '::EvalEnv::' in g['path']})


def params(ctx, P, V):
    """the body of an inline function sees the arguments under the names of the parameters, in their order, and they are gone
    when it is done"""
    f = P.find('call_inline_func')
    ops = binders(P, f)
    # what the two operations on the environment do: the one binds, the other undoes it
    push = pop = None
    me = ('y', 'arg', 0, 'self')
    nm, vl = ('y', 'pname'), ('y', 'pvalue')
    for p in ops:
        if P.fns[p]['argc'] == 3:
            push = p
            I_ = V.run(None, ('xmlerror',), fn=p, args=[V.env, nm, vl])
            for o in I_.rets:
                env = I_.norm(o.st, o.st.mem.get(('S', V.env), V.env))
                why = V.binds(env, nm, vl) or V.others(env, V.env, (nm,))
                ctx.check(why is None, 'binding a parameter', why or '')
                after = env
        elif P.fns[p]['argc'] == 2:
            pop = p
    if not push or not pop:
        raise AnalysisError('call_inline_func no longer binds and unbinds its parameters with functions on the environment')
    st = mirai.State()
    st.mem[('S', V.env)] = after
    I_ = V.run(None, ('xmlerror',), fn=pop, args=[V.env, nm], st=st)
    for o in I_.rets:
        why = V.same_env(I_, o.st, I_.norm(o.st, o.st.mem.get(('S', V.env), V.env)))
        ctx.check(why is None, 'unbinding a parameter', 'afterwards %s' % why)
    ctx.floor('ways to unbind', len(I_.rets), 1)

    E = V.envs()
    I_ = V.run(None, heavy(P), fn=f, opaque=list(E) + ops)
    lists = Lists(I_, P)
    F = Folds(I_)
    fn = P.fns[f]
    arg = [('y', 'arg', i, fn['locals'][i + 1]['name']) for i in range(fn['argc'])]
    ty = [fn['locals'][i + 1]['ty'] for i in range(fn['argc'])]
    xn = [a for a, t in zip(arg, ty) if t.endswith('XNodePtr')][0]
    vals = [a for a, t in zip(arg, ty) if 'Vec<' in t or '[' in t][0]
    cx = [a for a, t in zip(arg, ty) if t.endswith('XSequence') and a != vals][0]
    env = [a for a, t in zip(arg, ty) if t.endswith('EvalEnv')][0]
    body = V.kid(xn, LEFT)

    def names(st, t, field):
        """is the list t the field of each parameter, one after the other?"""
        ps = F.elements(st, t)
        if len(ps) == 1 and ps[0][0] == 'l':
            og = F.origin(st, ps[0][1])
            if og is None:
                return False
            key, c, path = og
            from .. import fold
            for b in F.around(st, key):
                v = F.elements(b.st, I_.norm(b.st, fold.follow(b.st.mem[c], path)))
                if not v or v[-1][0] != 'e' or len(v) != 2:
                    return False
                e = v[-1][1]
                if field == 'name':
                    if not (e[:2] == ('y', 'fld') and e[4] == 'name'):
                        return False
                elif not fold.has_part(e, lambda z: z[:2] == ('y', 'fld') and len(z) > 4 and z[4] == 'left') and \
                        not (e[0] == 'A'):
                    return False
            return bool(F.around(st, key))
        return False

    n = m = 0
    pops = {}
    for o in I_.backs:
        ev = [e for e in o.st.events()]
        # the events of this way round
        cut = max(i for i, e in enumerate(ev) if e[0] == 'loop')
        mine = [e for e in ev[cut:] if e[0] == 'call']
        before = [e for e in ev[:cut] if e[0] == 'call']
        pu = [e for e in mine if e[1] == push]
        po = [e for e in mine if e[1] == pop]
        if pu:
            n += 1
            k, v = [I_.norm(o.st, x) for x in pu[0][2][1:]]
            ok = len(pu) == 1 and k[:2] == ('y', 'elem') and v[:2] == ('y', 'elem') and v[2] == vals and \
                o.st.nl(k[3]) == o.st.nl(v[3]) and names(o.st, k[2], 'name')
            ctx.check(ok, 'parameters', 'binds %s to %s: not the argument of the same position' % (short(k), short(v)))
            it = F.iteration(o, o.info[2])
            ctx.check(ok and it is not None and it[0] == vals and it[1] == I(0) and o.st.nl(it[2]) == o.st.nl(v[3]),
                      'parameters all', 'not each argument is bound')
            ctx.check(not any(e[1] == V.ev for e in before + mine), 'parameters first', 'a parameter is bound behind the body')
            t = [e for e in mine if e[1].endswith('match_sequence_type')]
            ok = len(t) == 1 and I_.norm(o.st, t[0][2][0]) == v and \
                o.st.known.get(('y', 'vf', I_.norm(o.st, t[0][3]), 'Ok', 0)) is True
            x = I_.norm(o.st, t[0][2][1]) if t else None
            ok = ok and x[:2] == ('y', 'elem') and o.st.nl(x[3]) == o.st.nl(v[3]) and names(o.st, x[2], 'left')
            ctx.check(ok, 'parameter types', 'an argument is bound without having been found to be of the type declared for it')
        if po:
            m += 1
            k = I_.norm(o.st, po[0][2][1])
            if k[:2] == ('y', 'elem') and k[2][:2] == ('y', 'reverse'):
                k = k[:2] + (k[2][2], k[3])
            ok = len(po) == 1 and k[:2] == ('y', 'elem') and names(o.st, k[2], 'name')
            ctx.check(ok, 'parameters gone', 'removes %s' % short(k))
            ctx.check(any(e[1] == V.ev for e in before), 'parameters stay', 'a parameter is removed before the body is evaluated')
            if ok:
                pops.setdefault(o.info[2], []).append((o.st.aux[('gw', o.info[2])], o.st.nl(k[3]), k[2]))
    ctx.floor('parameters bound', n, 1)
    ctx.floor('parameters removed', m, 1)

    r = 0
    for o in I_.rets:
        q = Query(I_, o)
        if q.got()[0] == 'err':
            continue
        r += 1
        ev = [e for e in o.st.events() if e[0] == 'call']
        b = [e for e in ev if e[1] == V.ev]
        x = q.norm(b[0][2][1]) if b else None
        nil = x is not None and (x[0] == 'A' or o.st.known.get(V.fld(x, 'n_type')) == 'Nil')
        ctx.check(len(b) == 1 and (x == body or nil) and q.norm(b[0][2][0]) == cx and b[0][2][2] == env,
                  'inline function body', 'does not evaluate the body of the function in the context of the call')
        why = None
        try:
            why = judge(q, lists, ('val', q.res(b[0][3]))) if b else 'returns without the body'
        except Stop as e:
            why = judge(q, lists, e.exp)
        except Bad as e:
            why = str(e)
        ctx.check(why is None, 'inline function value', why or '')
        la = I_.length(o.st, vals)
        # the lists of the names of the parameters that this path has
        ls = set()
        for k, w in o.st.aux.items():
            if k[0] == 'gw':
                for v in w.values():
                    t = v and (v[3] if v[0] == 'V' else v)
                    if t and t[:2] == ('y', 'w') and F.origin(o.st, t) and names(o.st, t, 'name'):
                        ls.add(v)
        done = o.st.ent_le(la)
        same = done if not ls else all(o.st.ent_le(lsub(la, I_.length(o.st, l))) and o.st.ent_le(lsub(I_.length(o.st, l), la))
                                       for l in ls)
        for key, w, k, l in [(key,) + p for key, ps in pops.items() for p in ps]:
            if o.st.aux.get(('gw', key)) is not w:
                continue
            ns = [(s, x) for s, x in lin(k)[1].items() if s[:2] == ('y', 'N')]
            if len(ns) != 1 or abs(ns[0][1]) != 1:
                continue
            first = lsub(k, lmul(*ns[0]))
            if ns[0][1] == -1:
                done = done or o.st.ent_le(lsub(lsub(la, I(1)), first)) and o.st.ent_le(ladd(k, I(1)))
            else:
                done = done or o.st.ent_le(first) and o.st.ent_le(lsub(la, k))
        ctx.check(done, 'parameters all gone', 'returns although a parameter may still be bound')
        ctx.check(same, 'number of arguments', 'the body is evaluated although the number of arguments may be another one')
    ctx.floor('ways through an inline function', r, 1)
    V.entered |= I_.entered


def lists_field(P, n):
    a = [a for a in P.adts if a.endswith('eval::EvalEnv')][0]
    f = [f for f in P.adts[a]['variants'][0]['fields'] if f['name'] == n][0]
    return 'Vec' in f['ty'] or 'Map' in f['ty']


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            for y in terms(x):
                yield y


def preserve(ctx, P, V, fields, what='leaves the environment'):
    """every function given the environment for writing leaves these fields as they were, unless it returns an error"""
    n = 0
    E = V.envs()
    for k in V.kinds:
        if k == 'Nil':
            continue
        I_ = V.run((k, {LEFT: None, RIGHT: None}), heavy(P), opaque=[f for f in E if f != V.ev])
        n += 1
        for o in I_.rets:
            if Query(I_, o).got()[0] == 'err':
                continue
            why = V.same_env(I_, o.st, I_.norm(o.st, o.st.mem.get(('S', V.env), V.env)), fields)
            ctx.check(why is None, '%s %s' % (k, what), 'when it is done %s' % why)
    for f in sorted(E):
        if f == V.ev:
            continue
        i = E[f]
        me = ('y', 'arg', i, P.fns[f]['locals'][i + 1]['name'])
        V2 = Ev(P)
        V2.env = me
        # the parameters of an inline function come and go in loops: see params
        inner = binders(P, f) if f == P.find('call_inline_func', True) else []
        I_ = V2.run(None, heavy(P), fn=f, opaque=list(E) + inner)
        V.entered |= V2.entered
        n += 1
        for o in I_.rets:
            if Query(I_, o).got()[0] == 'err':
                continue
            why = V2.same_env(I_, o.st, I_.norm(o.st, o.st.mem.get(('S', me), me)), fields)
            ctx.check(why is None, '%s %s' % (f, what), 'when it is done %s' % why)
    return n


def heavy(P):
    """functions that take no environment and need not be entered to see what happens to it"""
    out = ['xmlerror']
    for p, f in P.fns.items():
        if f['kind'] == 'fn' and not f.get('std') and not any('EvalEnv' in f['locals'][i + 1]['ty'] for i in range(f['argc'])) and \
                ('::func::' in p or '::xsequence::' in p or '::xitem::' in p or '::oper::' in p or '::match_' in p) and \
                not p.endswith(('::new_xsequence', '::new_singleton', '::iter', '::len', '::push', '::append', '::is_empty')):
            out.append(p)
    return out
