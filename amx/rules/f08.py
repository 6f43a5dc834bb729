"""Abstract interpretation of the calls: of a function by its name, and of a function item, a map or an array, from the nodes of the
syntax tree through the evaluator to the function table; the lists of arguments are read off from the loops along their chains."""
from ..funcs import *
from ..chains import along, counter, loops, ended, nothing
from ..ev import LEFT, RIGHT
from .. import mirai
from .f07 import getters, same_key, each as each_of, taken


def run(ctx):
    P = ctx.P
    F = Texts(P)
    ctx.rule('a call evaluates its arguments in order and hands them to what is called')
    n = by_name(ctx, P, F)
    n += items(ctx, P, F)
    n += dynamic(ctx, P, F)
    n += by_kind(ctx, P, F)
    n += higher(ctx, P, F)
    ctx.floor('paths', n, 50)
    ctx.saw(*F.V.entered)


def caller(P, F):
    """the function that calls a function item with a list of arguments"""
    sig = lambda f: [f['locals'][i + 1]['ty'] for i in range(f['argc'])]
    c = []
    for p in F.V.envs():
        t = sig(P.fns[p])
        if len(t) == 4 and t[0].endswith('XNodePtr') and 'XSequence' in t[1] and ('Vec<' in t[1] or '[' in t[1]) and t[2].endswith('XSequence'):
            c.append(p)
    called = {g['path'] for p in c for g, t in P.calls(P.fns[p])}
    top = [p for p in c if p not in called]
    if len(top) != 1:
        raise AnalysisError('no single function that calls a function item: %s' % c)
    return top[0]


def argument(V, L, c=None):
    """each node of the chain adds the value of what is on its left, evaluated in the context of the call"""
    def each(b, x, ps):
        v = V.result(V.kid(x, LEFT), ctx=c)
        if b.st.known.get(v) != 'Ok':
            return 'goes on after an error'
        if len(ps) != 1 or ps[0][0] != 'e' or L.F.I.norm(b.st, ps[0][1]) != ('y', 'vf', v, 'Ok', 0):
            return 'an argument is added as %s' % short(ps, 150)
        return None
    return each


def refused(V, q, kinds, ok=()):
    """an error that the tree or an argument is to blame for"""
    for t, v in q.st.known.items():
        if t[:3] == ('y', 'call', V.ev) and v == 'Err':
            return True
        if t[:2] == ('y', 'fld') and v == 'None' and t[4] == 'left' and t[2][:2] == ('y', 'w'):
            return True
        if t[:2] == ('y', 'fld') and t[4] == 'n_type' and v == 'Nil' and t[2][:2] == ('y', 'vf') and t[2][2][:2] == ('y', 'fld') and \
                t[2][2][4] == 'left' and t[2][2][2][:2] == ('y', 'w'):
            return True
        if kinds and t[:2] == ('y', 'fld') and t[4] == 'n_type' and v not in kinds + ('Nil',) and v in V.kinds and t[2] != V.x:
            return True
    for t, v in q.st.excl.items():
        if kinds and t[:2] == ('y', 'fld') and t[4] == 'n_type' and t[2] != V.x and set(kinds) <= set(v or ()):
            return True
    return False


def handed(V, q):
    """the call that is made, or None"""
    v = q.val
    return v if v[:2] == ('y', 'call') else None


def by_name(ctx, P, F):
    V = F.V
    I_ = V.run(('FunctionCall', {}), ('xmlerror',), models={F.table: V.opaque(F.table)})
    L = Lists(I_, P)
    key = 'a call by name'
    calls = 0
    for o in I_.rets:
        q = Query(I_, o)
        c = handed(V, q)
        if c is not None and c[2] == F.table:
            calls += 1
            a = c[3]
            why = along(V, L, q, a[1], V.x, RIGHT, argument(V, L))
            ctx.check(why is None, key, 'the list of arguments ' + (why or ''))
            ctx.check([q.norm(a[0]), q.norm(a[2]), a[3]] == [V.fld(V.x, 'name'), V.ctx, V.env], key, 'is made as %s' % short(c, 150))
            continue
        ctx.check(q.got()[0] in ('err',) and refused(V, q, ('ArgumentTop',)), key, 'is %s' % short(q.val, 150))
    ctx.check(calls >= 2, key, 'is not made for every number of arguments')
    return len(I_.rets)


def items(ctx, P, F):
    """an inline function, a reference to a named function and a partial application are function items"""
    V = F.V
    n = 0
    for kind in ('InlineFunction', 'NamedFunctionRef', 'PartialFunctionCall'):
        I_ = V.run((kind, {}), ('xmlerror',))
        L = Lists(I_, P)
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            g = q.got()
            x = F.one(q, L, g[1], 'XItemXNodePtr') if g[0] == 'ok' else None
            ctx.check(x is not None and q.norm(x) == V.x, '%s as a value' % kind, 'is %s' % short(q.val))
    return n


def dynamic(ctx, P, F):
    """f(a, b): what f is decides; the arguments are evaluated in order in the context of the call"""
    V = F.V
    call = caller(P, F)
    same = same_key(P)
    get = {k: v[0] for k, v in getters(P).items() if len(v) == 1}
    if len(get) != 2:
        raise AnalysisError('no single function that gives the value of a map or an array for a key')
    models = {g: V.opaque(g) for g in list(get.values()) + [call, same]}
    I_ = V.run(('ApplyArgument', {LEFT: None, RIGHT: None}), ('xmlerror',), models=models)
    L = Lists(I_, P)
    what, post = V.result(V.kid(V.x, LEFT)), V.kid(V.x, RIGHT)
    val = L.of(('y', 'vf', what, 'Ok', 0))
    item = ('y', 'elem', val, I(0))
    seen = set()
    n = 0
    for o in I_.rets:
        n += 1
        q = Query(I_, o)
        g = q.got()
        if q.known(what) == 'Err':
            ctx.check(g[0] == 'err', 'a call', 'is a value although what is called is an error')
            continue
        kind = q.known(item) if q.st.nl(L.F.I.length(q.st, val)) == I(1) else None
        ls = list(loops(V, L, q.st, V.kid(post, LEFT)).items())
        if refused(V, q, ()):
            ctx.check(g[0] == 'err', 'a call', 'is a value although an argument is an error')
            continue
        # the list of the arguments of this path
        c = handed(V, q)
        if c is not None and c[2] == call:
            a = c[3]
            why = along(V, L, q, a[1], post, LEFT, argument(V, L))
            ctx.check(why is None, 'a call of a function', 'the list of arguments ' + (why or ''))
            ok = kind == 'XItemXNodePtr' and q.norm(a[0]) == ('y', 'vf', item, 'XItemXNodePtr', 0) and q.norm(a[2]) == V.ctx and a[3] == V.env
            ctx.check(ok, 'a call of a function', 'is made as %s' % short(c, 150))
            seen.add(('call', bool(ls)))
            continue
        for k, g_ in (('XIMap', get['XSeqMap']), ('XIArray', get['XSeqArray'])):
            if kind != k:
                continue
            key = 'a call of %s' % ('a map' if k == 'XIMap' else 'an array')
            args = arguments(V, L, q, post, key, ctx)
            one = args is not None and q.st.nl(args[1]) == I(1)
            found = [t for t in set(q.st.known) | set(q.st.excl) if t[:3] == ('y', 'call', g_)]
            if one and args[0] is not None:
                arg = L.of(('y', 'elem', args[0], I(0)))
                single = q.st.nl(L.F.I.length(q.st, arg)) == I(1)
            if g[0] == 'ok':
                ctx.check(one and single, key, 'is a value for other than one argument of one item')
                if not (one and single):
                    continue
                t = ('y', 'call', g_, (('y', 'vf', item, k, 0), ('y', 'elem', arg, I(0))))
                if q.known(t) == 'Some':
                    got = taken(L.parts(q.st, L.of(g[1])))
                    ctx.check(got == L.of(('y', 'vf', t, 'Some', 0)), key, 'is %s' % short(g[1], 150))
                    seen.add((k, 'Some'))
                else:
                    ctx.check(q.known(t) == 'None' and k == 'XIMap' and not L.parts(q.st, L.of(g[1])), key, 'is %s' % short(g[1], 150))
                    seen.add((k, 'None'))
            else:
                if one and single:
                    ok = bool(found) and all(q.known(t) == 'None' for t in found) and k == 'XIArray'
                    ctx.check(ok, key, 'is an error although there is a value')
                    seen.add((k, 'None'))
        if kind not in ('XItemXNodePtr', 'XIMap', 'XIArray'):
            ctx.check(g[0] == 'err', 'a call of something else', 'is %s' % short(q.val, 150))
    for s in [('call', False), ('call', True)] + [(k, v) for k in ('XIMap', 'XIArray') for v in ('Some', 'None')]:
        ctx.check(s in seen, 'a call', 'never comes to the case %s/%s' % s)
    return n


def arguments(V, L, q, post, key, ctx):
    """(list of the arguments, its length) of this path"""
    if nothing(V, q, post, LEFT):
        return None, I(0)
    for k, (x, bs) in loops(V, L, q.st, V.kid(post, LEFT)).items():
        w = q.st.aux[('gw', k)]
        for c, v in w.items():
            if v[0] == 'V' and v[3] and along(V, L, q, v[3], post, LEFT, argument(V, L)) is None:
                return v[3], v[1]
    return None


def by_kind(ctx, P, F):
    """a function item called with a list of arguments"""
    V = F.V
    call = caller(P, F)
    args = ('y', 'ARGS')
    la = mirai.sym('len', args, nonneg=True)
    inline = P.find('call_inline_func', True)
    models = {F.table: V.opaque(F.table)}
    if inline:
        models[inline] = V.opaque(inline)
    n = 0
    fn = P.fns[call]
    for kind in ('NamedFunctionRef', 'PartialFunctionCall', 'InlineFunction'):
        if kind == 'InlineFunction' and not inline:
            continue
        I_ = V.run((kind, {}), ('xmlerror',), fn=call, args=[V.x, args, V.ctx, V.env], models=models)
        L = Lists(I_, P)
        key = {'N': 'a call of a named function', 'P': 'a call of a partial application', 'I': 'a call of an inline function'}[kind[0]]
        done = 0
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            c = handed(V, q)
            err = q.got()[0] == 'err'
            if kind == 'InlineFunction':
                ok = c is not None and c[2] == inline and [q.norm(a) for a in c[3][:3]] == [V.x, args, V.ctx] and c[3][3] == V.env
                done += ok
                ctx.check(ok, key, 'is made as %s' % short(q.val, 150))
                continue
            if c is not None and c[2] == F.table:
                done += 1
                a = c[3]
                ok = q.norm(a[2]) == V.ctx and a[3] == V.env
                ctx.check(ok, key, 'is made as %s' % short(c, 150))
            elif not err:
                ctx.check(False, key, 'is %s' % short(q.val, 150))
                continue
            if kind == 'NamedFunctionRef':
                why = named(V, L, q, c, args, la, err)
            else:
                why = partial(V, L, q, c, args, la, err)
            ctx.check(why is None, key, why or '')
        ctx.check(done > 0, key, 'is never made')
    return n


def named(V, L, q, c, args, la, err):
    """the reference f#n: f is called when there are n arguments"""
    nm = V.fld(V.x, 'name')
    num = [t for t, v in q.st.known.items() if t[:2] == ('y', 'parse') and has_part(t, lambda y: y == nm)]
    if not num:
        return 'the number behind the name is not read'
    if any(q.known(t) == 'Err' for t in num):
        return None                       # the parser puts a number there
    n = [('y', 'vf', t, 'Ok', 0) for t in num]
    same = [x for x in n if agree(q, x, la)]
    if err:
        return 'is an error although the number of arguments is right' if not any(differ(q, x, la) for x in n) else None
    if not same:
        return 'is made although the number of arguments may be wrong'
    a = c[3]
    if q.norm(a[1]) != args:
        return 'hands over %s' % short(a[1], 150)
    f = q.norm(a[0])
    if not has_part(f, lambda y: y == nm) or has_part(f, lambda y: y[:2] == ('y', 'parse')):
        return 'calls %s' % short(f)
    # the parts before and behind the mark
    t = num[0]
    if not (before(f, nm) and behind(t, nm)):
        return 'calls %s for the number %s' % (short(f), short(t))
    return None


MARK = ('s', '#')


def split_at(x, nm):
    return has_part(x, lambda y: y == nm) and has_part(x, lambda y: y in (MARK, I(35), ('c', 35)))


def before(f, nm):
    """the part of the name before the mark"""
    if f[:2] == ('y', 'elem'):
        return f[3] == I(0) and split_at(f[2], nm)
    return f[:2] == ('y', 'sl') and f[2] == nm and f[3] == I(0) or f[:2] == ('y', 'fld') and split_at(f, nm) and f[3] == 0


def behind(t, nm):
    """the part behind it"""
    return has_part(t, lambda y: y[:2] == ('y', 'elem') and y[3] != I(0) and split_at(y[2], nm) or y[:2] == ('y', 'sl') and y[3] != I(0) or
                    y[:2] == ('y', 'fld') and y[3] == 1 and split_at(y, nm))


def agree(q, x, la):
    return same_number(q, x, la, True)


def differ(q, x, la):
    return same_number(q, x, la, False)


def same_number(q, x, y, want):
    return any(q.st.ev(('eq', q.st.nl(l))) is want for a in casts(q, x) for b in casts(q, y) for l in (lsub(a, b), lsub(b, a)))


def casts(q, x):
    """the number, and what it is after a conversion that this path has made"""
    k = q.st.nl(x)
    out = {x, ('y', 'cast', x, 'i64', 'usize'), ('y', 'cast', x, 'usize', 'i64')}
    for t in list(q.st.eqs) + [z for l in q.st.les for z in lin(l)[1]]:
        has_part(t, lambda y: out.add(y) and False if y[:2] == ('y', 'cast') and q.st.nl(y[2]) == k else False)
    return out


def partial(V, L, q, c, args, la, err):
    """the fixed arguments are evaluated, those left open are taken from the call, all in their order"""
    ls = loops(V, L, q.st, V.kid(V.x, RIGHT))
    counts = {}

    def each(b, x, ps):
        kind = b.st.known.get(V.fld(x, 'n_type'))
        if len(ps) != 1 or ps[0][0] != 'e':
            return 'a node of kind %s adds %s' % (kind, short(ps, 150))
        e = L.F.I.norm(b.st, ps[0][1])
        key = [k for k, v in ls.items() if any(b is y for y in v[1])][0]
        if kind == 'ArgumentPlaceholder':
            if e[:2] != ('y', 'elem') or e[2] != args:
                return 'what is left open becomes %s' % short(e)
            m = counter(L, b, key, e[3])
            if m is None or m[0] != I(0) or b.st.nl(m[1]) != b.st.nl(ladd(e[3], I(1))):
                return 'the arguments are not taken one after the other'
            if not b.st.ent_le(ladd(lsub(e[3], la), I(1))):
                return 'more arguments are taken than there are'
            counts.setdefault(b.st.nl(e[3]), []).append(1)
        elif kind == 'ArgumentTop':
            v = V.result(V.kid(x, LEFT))
            if b.st.known.get(v) != 'Ok' or e != ('y', 'vf', v, 'Ok', 0):
                return 'a fixed argument becomes %s' % short(e)
        else:
            return 'a node of the kind %s is an argument' % kind
        return None
    if err:
        if refused(V, q, ('ArgumentTop', 'ArgumentPlaceholder')):
            return None
        for k, (x, bs) in ls.items():
            for b in bs:
                each_quiet(each, b, x, L, k)
        used = list(counts) or [I(0)]
        for u in used:
            if q.st.ent_le(lsub(la, u)) and not ended(V, q, [x for x, _ in ls.values()][0]) if ls else False:
                return None               # one is missing
            if q.st.ent_le(ladd(lsub(u, la), I(1))) and (not ls or any(ended(V, q, x) for x, _ in ls.values())):
                return None               # one is left over
        if nothing(V, q, V.x, RIGHT) and q.st.ent_le(lsub(I(1), la)):
            return None
        return 'is an error although the number of arguments is right'
    why = along(V, L, q, c[3][1], V.x, RIGHT, each)
    if why:
        return 'the list of arguments ' + why
    if q.norm(c[3][0]) != V.fld(V.x, 'name'):
        return 'calls %s' % short(c[3][0])
    for k, (x, bs) in ls.items():
        for b in bs:
            if b.st.known.get(V.fld(x, 'n_type')) == 'ArgumentTop':
                for u in counts:
                    m = counter(L, b, k, u)
                    if m is not None and b.st.nl(m[1]) != b.st.nl(u):
                        return 'a fixed argument uses up one of the call'
    used = list(counts) or [I(0)]
    # no more are taken than there are: from none on, each way round takes one that is there
    if len(used) != 1 or not q.st.ent_le(lsub(la, used[0])):
        return 'is made although the number of arguments may be wrong'
    return None


def each_quiet(each, b, x, L, key):
    w = b.st.aux[('gw', key)]
    for c in w:
        v = b.st.mem.get(c, w[c])
        if v != w[c] and v[0] == 'V':
            ps = L.parts(b.st, L.F.I.norm(b.st, v))
            each(b, x, ps[-1:])


def higher(ctx, P, F):
    """fn:for-each and fn:filter call the function for every item, in order"""
    V = F.V
    call = caller(P, F)
    f = F.val(1)
    A = F.list(0)
    ebv = P.find('effective_boolean_value')
    n = 0
    res = ('y', 'call', call, (f, ('R', (F.N.seq(ITEM),)), V.ctx, V.env))
    val = ('y', 'vf', res, 'Ok', 0)
    for name in ('fn:for-each', 'fn:filter'):
        I_ = F.run(name, ['*', 'f'], leaves=('xmlerror', 'effective_boolean_value'), models={call: V.opaque(call)})
        L = Lists(I_, P)
        ok = 0
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            g = q.got()
            bad = [t for t, v in q.st.known.items() if v == 'Err' and (t[:3] == ('y', 'call', call) or t[:3] == ('y', 'call', ebv))]
            if g[0] != 'ok':
                ctx.check(bool(bad), name, 'is an error although no call is')
                continue
            ctx.check(not bad, name, 'is a value although a call is an error')
            ps = L.parts(q.st, L.of(g[1]))
            why = mapped(F, q, L, ps, A, res, val, ebv if name == 'fn:filter' else None)
            ctx.check(why is None, name, why or '')
            ok += 1
        ctx.check(ok > 0, name, 'is never a value')
        for s in ('s', 'i', 'n', 'e', 'ff'):
            I_ = F.run(name, ['*', s], leaves=('xmlerror', 'effective_boolean_value'), models={call: V.opaque(call)})
            for o in I_.rets:
                n += 1
                ctx.check(Query(I_, o).got()[0] == 'err', '%s with no function' % name, 'is a value')
    return n


def mapped(F, q, L, ps, A, res, val, ebv):
    st = q.st
    if not ps and st.ent_le(L.F.I.length(st, A)):
        return None
    if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != A or not st.ent_le(ps[0][2]) or not ps[0][4]:
        return 'is %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200)
    seen = set()
    for b, alt in ps[0][3]:
        if ebv is None:
            if taken(alt) != L.of(val):
                return 'an item becomes %s' % short(alt, 150)
            seen |= {True, False}
            continue
        t = {v for k, v in b.st.known.items() if k[:2] == ('y', 'vf') and k[2][:3] == ('y', 'call', ebv) and k[3] == 'Ok'}
        if t == {True} and alt == [('e', ITEM)] or t == {False} and alt == []:
            seen |= t
            continue
        return 'an item becomes %s when the function gives %s' % (short(alt, 150), t)
    return None if seen == {True, False} else 'some items are never kept or never left out'
