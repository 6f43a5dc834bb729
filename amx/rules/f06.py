"""Which functions there are: abstract interpretation of the look-up by name and number of arguments, for an unknown name and an
unknown number, and of the call for every function; the forms without the last argument are compared with those that have it."""
from ..funcs import *
from ..data.functions import FUNCTIONS
from .f05 import API, valuers


def run(ctx):
    P = ctx.P
    F = Texts(P)
    ctx.rule('exactly the named functions with their numbers of arguments are accepted and called, with the arguments in order; '
             'without the last argument they work on the context item')
    n = accepted(ctx, P, F)
    n += called(ctx, P, F)
    n += short_forms(ctx, P, F)
    ctx.floor('paths', n, 300)
    ctx.floor('functions', len(FUNCTIONS), 60)
    ctx.saw(*F.V.entered)


def accepted(ctx, P, F):
    """the paths of the look-up that accept know a name of the list and one of its numbers of arguments, those that refuse have
    ruled out every name that takes that many"""
    f = P.find('check_function_spec')
    name, num = ('y', 'name'), ('y', 'number')
    I_ = F.V.run(None, (), fn=f, args=[name, num])
    seen = set()
    for o in I_.rets:
        q = Query(I_, o)
        v = q.truth(q.val)
        k, n, no = q.known(name), q.known(num), o.st.excl.get(num) or ()
        if n is None:
            n = q.norm(num)
            n = None if lin(n)[1] else I(lin(n)[0])
        n = n if n is None else lin(n)[0] if isinstance(n, tuple) else int(n)
        no = [lin(x)[0] if isinstance(x, tuple) else int(x) for x in no]
        if v is True:
            nm = k[1] if k and k[0] == 's' else None
            ns = FUNCTIONS.get(nm, ())
            ok = nm in FUNCTIONS and (ns is None or n is not None and n in ns)
            ctx.check(ok, 'a function call that is accepted', 'of the name %s with %s arguments' % (nm, 'any number of' if n is None else n))
            if nm:
                seen |= {(nm, n)} if ns is not None or n is not None else {(nm, i) for i in range(9) if i not in no}
        else:
            if v is not False:
                ctx.check(False, 'a function call that is accepted', 'whether it is accepted is %s' % short(q.val))
                continue
            out = {x[1] for x in (o.st.excl.get(name) or ()) if x[0] == 's'}
            for nm, ns in sorted(FUNCTIONS.items()):
                for m in (range(6) if ns is None else ns):
                    if m not in no and (n is None or n == m) and nm not in out and k in (None, S(nm)):
                        ctx.check(False, 'the function %s with %d arguments' % (nm, m), 'is refused')
    for nm, ns in sorted(FUNCTIONS.items()):
        for m in (range(6) if ns is None else ns):
            ctx.check((nm, m) in seen or (nm, None) in seen, 'the function %s with %d arguments' % (nm, m), 'is never accepted')
    return len(I_.rets)


def called(ctx, P, F):
    """every accepted call goes to one function, with all arguments in order; an unknown name to none"""
    table = bodies(P, F)
    models = {f: F.V.opaque(f) for f in table}
    n = 0
    to = {}
    for nm, ns in sorted(FUNCTIONS.items()):
        for m in (range(6) if ns is None else ns):
            key = 'a call of %s with %d arguments' % (nm, m)
            args = tuple(F.arg('*', i) for i in range(m))
            I_ = F.run(nm, ['*'] * m, models=models)
            for o in I_.rets:
                n += 1
                q = Query(I_, o)
                v = q.val
                if v[:2] != ('y', 'call') or v[2] not in table:
                    if table:
                        ctx.check(not (q.got()[0] == 'err'), key, 'is an error')
                    continue
                a = [q.norm(x) for x in v[3]]
                want = [('R', args)] + [F.V.ctx, F.V.env][:len(a) - 1]
                ctx.check(a == want, key, 'is made with %s' % short(a))
                to.setdefault(v[2], set()).add(nm)
            ctx.check(I_.rets, key, 'never comes back')
    every = ('y', 'ARGS')
    for nm in sorted(nm for nm, ns in FUNCTIONS.items() if ns is None):
        key = 'a call of %s with any number of arguments' % nm
        st = mirai.State()
        st.assume(('le', lsub(I(6), mirai.sym('len', every, nonneg=True))))
        I_ = F.V.run(None, ('xmlerror',), fn=F.table, args=[S(nm), every, F.V.ctx, F.V.env], st=st, models=models, opaque=F.opq)
        L = Lists(I_, P)
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            v = q.val
            if v[:2] != ('y', 'call') or v[2] not in table:
                ctx.check(not table or v[:2] == ('y', 'call'), key, 'is %s' % short(v))
                continue
            ps = L.parts(q.st, L.F.I.norm(q.st, v[3][0]))
            ctx.check(ps == [('l', every)], key, 'is made with %s' % short([p[:2] for p in ps], 150))
            to.setdefault(v[2], set()).add(nm)
    for f, names in sorted(to.items()):
        ctx.check(len(names) == 1, 'the functions %s' % ' and '.join(sorted(names)), 'are the same one')
    for m in range(5):
        I_ = F.run(('y', 'name'), ['*'] * m, models=models)
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            if q.got()[0] == 'err':
                continue
            k = q.known(('y', 'name'))
            nm = k[1] if k and k[0] == 's' else None
            ctx.check(nm in FUNCTIONS and (FUNCTIONS[nm] is None or m in FUNCTIONS[nm]), 'a call of no function of the library',
                      'with the name %s and %d arguments is %s' % (nm, m, short(q.val)))
    return n


def bodies(P, F):
    """the functions that are given the list of arguments"""
    ty = lambda fn: fn['locals'][1]['ty']
    return sorted(f for f, fn in P.fns.items() if fn['argc'] and f != F.table and '{closure' not in f and
                  fn['locals'][0]['ty'].startswith('std::result::Result<xpath_impl::xsequence::XSequence') and
                  ('Vec<&' in ty(fn) or ty(fn).startswith('&[&')) and 'XSequence' in ty(fn))


def short_forms(ctx, P, F):
    """name() and name($context item) agree on every kind of context item"""
    vals = valuers(F)
    leaves = ('xmlerror',) + API + tuple(vals)
    models = {f: F.V.opaque(f) for f in F.N.rec}
    n = 0
    for nm, ns in sorted(FUNCTIONS.items()):
        if ns not in ((0, 1), (1, 2)) or nm in ('fn:string-join', 'fn:sum'):
            continue
        pre = ['s'] * ns[0]
        for sh in ('n', 's', 'i', 'd', 'b', 'e', 'nn'):
            a = F.run(nm, pre, leaves=leaves, models=models, context=F.arg(sh, len(pre)))
            b = F.run(nm, pre + [sh], leaves=leaves, models=models)
            key = '%s without its last argument, the context being %s' % (nm, {'e': 'empty', 'nn': 'two nodes'}.get(sh, SHAPES.get(sh, '')[2:].lower()))
            A, B = outcomes(F, a), outcomes(F, b)
            for x in A:
                n += 1
                if x in B:
                    continue
                fit = [y for y in B if together(x, y)]
                bad = [y for y in fit if x[0] != y[0]]
                ctx.check(fit and not bad, key, 'is %s instead of %s' % (short(x[0]), short(bad[0][0]) if bad else 'nothing known'))
    return n


def outcomes(F, I_):
    out = []
    for q, L, k, v in F.results(I_):
        if k == 'err':
            out.append(('err', canon(q.st.known), {c: set(e) for c, e in canon(q.st.excl).items()}, canon(q.st.eqs)))
            continue
        names = {}
        val = renamed(q.val, names)
        out.append((val,) + tuple({renamed(t, names): (renamed(x, names) if isinstance(x, tuple) else x) for t, x in sorted(d.items(), key=repr)}
                                  for d in (q.st.known, q.st.excl, q.st.eqs)))
    return out


def canon(d):
    names = {}
    return {renamed(t, names): x for t, x in sorted(d.items(), key=repr)}


FRESH = ('w', 'N', 'hv')


def renamed(t, names):
    """the term with the numbers of its symbols (loops, havocs) replaced by the order in which they first occur"""
    if isinstance(t, tuple):
        if t[:1] == ('y',) and len(t) > 2 and t[1] in FRESH:
            return ('y', t[1], names.setdefault(t, len(names)))
        return tuple(renamed(x, names) for x in t)
    return t


def together(x, y):
    """may both paths be taken"""
    for t, v in x[1].items():
        if t in y[1] and y[1][t] != v or v in (y[2].get(t) or ()):
            return False
    for t, v in y[1].items():
        if v in (x[2].get(t) or ()):
            return False
    return all(y[3].get(t, v) == v for t, v in x[3].items())
