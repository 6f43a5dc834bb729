"""Every path through the navigation functions of a node is compared with the link of the tree it stands for: the weak
parent link, the list of children or attributes, the walk up to the top, the first element below it, identity."""
from ..dom import *

FNS = ('parent', 'children', 'attributes', 'first_child', 'nth_child', 'root', 'root_element', 'name', 'value', 'node_type',
       'rc_clone')


def run(ctx):
    P = ctx.P
    D = Dom(P, ['NodePtr::' + f for f in FNS])
    eq = [p for p in P.fns if 'PartialEq' in p and p.endswith('::eq') and 'NodePtr' in p and 'dom' in p and 'XNode' not in p]
    n = 0
    for f in FNS + tuple(eq):
        fn = f if f in P.fns else 'NodePtr::' + f
        ctx.rule('%s: each path gives what the links of the tree say' % f.split('::')[-1])
        R = D.run(fn)
        me = D.node_of(D.arg(fn, 0))
        for o in R.rets:
            n += 1
            bad = R.changes(o, {}) or path(R, 'eq' if f in eq else f, o, me)
            ctx.check(bad is None, f, '%s (%s)' % (bad, pstate(o.st)[:300]))
        ctx.check(bool(R.rets), f + ' returns', 'no path returns')
        ctx.check(not [o for o in R.I.outs if o.kind == 'panic'], f + ' does not panic', 'a path panics')
    ctx.check(len(eq) == 1, 'node equality', 'functions: %s' % eq)
    ctx.saw(*D.entered)
    ctx.floor('paths', n, 16)


def path(R, f, o, me):
    D, st = R.D, o.st
    v = R.I.own(st, o.val)
    say = 'the result is ' + pp(v)[:200]
    if f in ('name', 'value', 'node_type'):
        return None if R.I.norm(st, o.val) == D.fld(me, f) else say
    if f == 'rc_clone':
        return None if R.unwrap(v) in (me, me[2]) else say
    if f == 'eq':
        other = D.node_of(D.arg(R.fn, 1))
        b = R.I.norm(st, o.val)
        if b[0] == 'b':
            t = R.is_same(other)(st, me, b[1])
            return None if t else say
        if b[0] == 'p' and b[1][0] == 'is':
            b = b[1][1]
        return None if b[:2] == ('y', 'ptreq') and set(b[2:4]) == {me, other} else say
    if f == 'root':
        return None if R.root_of(o, R.unwrap(v)) == me else say
    if f in ('children', 'attributes'):
        el = R.F.elements(st, v)
        if el == [('l', D.fld(me, f))]:
            return None
        ok = len(el) == 1 and el[0][0] == 'for' and el[0][1] == D.fld(me, f) and el[0][2] == I0 and el[0][4] and el[0][3] and \
            all(len(a) == 1 and a[0][0] == 'e' and R.unwrap(a[0][1]) == ITEM for _, a in el[0][3])
        return None if ok else 'the result is not the list of all ' + f
    if f == 'root_element':
        return root_element(R, o, me, v)
    if v[0] != 'A' or v[1] != OPT:
        return say
    if f == 'parent':
        p = R.parents(o, me)
        if p is False:
            return 'the path does not look at the parent link'
        if v[3] == 'None':
            return None if p is None else 'there is a parent'
        return None if p and R.unwrap(v[4][0]) == p else say
    seq = D.fld(me, 'children')
    i = I0 if f == 'first_child' else D.arg(R.fn, 1)
    n = mirai.sym('len', seq, nonneg=True)
    if v[3] == 'None':
        return None if st.ent_le(lsub(n, i)) else 'there is such a child'
    return None if R.unwrap(v[4][0]) == mirai.sym('elem', seq, st.nl(i)) else say


def root_element(R, o, me, v):
    D, st = R.D, o.st
    x = R.unwrap(v)
    e = x[2] if x == D.node_of(x[2] if x[0] == 'y' and len(x) > 2 else x) else x
    if e[:2] == ('y', 'elem'):
        seq, top = underlying(R, o, e[2])
        if seq is None or R.root_of(o, top) != me:
            return 'not a child of the topmost node: ' + pp(e)[:150]
        isel = lambda s2, y, truth: any(k[:2] == ('y', 'fld') and k[-1] == 'node_type' and base(k[2]) == y and
                                        ((kn == 'Element') if truth else False) for k, kn in s2.known.items()) or \
            (not truth and any(k[:2] == ('y', 'fld') and k[-1] == 'node_type' and base(k[2]) == y and 'Element' in ex
                               for k, ex in s2.excl.items())) or \
            (not truth and any(k[:2] == ('y', 'fld') and k[-1] == 'node_type' and base(k[2]) == y and kn != 'Element'
                               for k, kn in s2.known.items()))
        if not isel(st, e, True):
            return 'not an element'
        for k in [k[1] for k in st.aux if k[0] == 'gw']:
            bs = R.F.around(st, k)
            its = [R.F.iteration(b, k) for b in bs]
            if bs and all(it and it[0] == e[2] and it[1] == I0 and st.nl(it[2]) == st.nl(e[3]) and
                          isel(b.st, mirai.sym('elem', e[2], b.st.nl(it[2])), False) for it, b in zip(its, bs)):
                return None
        return 'not the first element'
    if R.root_of(o, x) == me:
        # no element: all children of the top have been looked at
        for k in [k[1] for k in st.aux if k[0] == 'gw']:
            bs = R.F.around(st, k)
            its = [R.F.iteration(b, k) for b in bs]
            if bs and all(it and it[1] == I0 and st.ent_le(lsub(it[3], it[2])) for it in its):
                q, top = underlying(R, o, its[0][0])
                if q is not None and top in (x, D.node_of(x)) and any('node_type' in str(s) for b in bs for s in list(b.st.known) + list(b.st.excl)):
                    return None
        return 'the topmost node although not all its children have been looked at'
    return 'the result is ' + pp(x)[:150]


def base(t):
    """the list element behind the wrapper of a pointer"""
    return t[2] if t[:2] == ('y', 'fld') and t[3] == 0 else t


def underlying(R, o, sq):
    """(children list, node) when the sequence is the list of children of a node, or an item-by-item copy of it"""
    f = lambda q: q[:2] == ('y', 'fld') and q[-1] == 'children'
    if f(sq):
        return sq, sq[2]
    el = R.F.elements(o.st, sq)
    if len(el) == 1 and el[0][0] == 'for' and el[0][2] == I0 and el[0][4] and f(el[0][1]) and el[0][3] and \
            all(len(a) == 1 and a[0][0] == 'e' and R.unwrap(a[0][1]) == ITEM for _, a in el[0][3]):
        return el[0][1], el[0][1][2]
    return None, None
