"""Every path through append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child and replace_with is
compared with the edit of the list of children it stands for.  Nodes are abstract heap cells; a position is identified by
the identity test that found it; that copies are deep is shown for the copying function by induction over the tree."""
from ..dom import *

FNS = ('append_child', 'insert_as_previous_sibling', 'insert_as_next_sibling', 'delete_child', 'replace_with')


def run(ctx):
    D = Dom(ctx.P, ['NodePtr::' + f for f in FNS])
    why = D.find_copies()
    for k, w in why.items():
        ctx.note('%s is not a copy of argument %d below argument %d: %s' % (k[0], k[1], k[2], w))
    n = 0
    for f in FNS:
        ctx.rule('%s: every path makes exactly the edit of the children that it stands for' % f)
        R = D.run('NodePtr::' + f)
        me, other = D.node_of(D.arg(R.fn, 0)), D.node_of(D.arg(R.fn, 1))
        edits = 0
        for o in R.rets:
            if R.infeasible(o, me) or R.infeasible(o, other):
                continue
            n += 1
            bad = path(R, f, o, me, other)
            if bad == 'edit':
                edits += 1
                bad = None
            ctx.check(bad is None, f, '%s (%s)' % (bad, pstate(o.st)[:300]))
        ctx.check(edits > 0, f + ' edits', 'no path of %s changes a list of children' % f)
        ctx.check(not [o for o in R.I.outs if o.kind == 'panic'], f + ' does not panic', 'a path panics')
    ctx.saw(*D.entered)
    ctx.floor('paths', n, 12)


def path(R, f, o, me, other):
    """'edit', None (rightly nothing done) or what is wrong"""
    D = R.D
    wr = {k: v for k, v in R.written(o).items() if k[1] != 'order'}
    if f in ('append_child', 'delete_child'):
        par = me
    else:
        par = R.parents(o, me)
        if par is False:
            return 'the path does not look for the parent'
        if par is None:
            return 'without a parent nothing must change' if wr else None
    old = D.fld(par, 'children')
    bad = R.changes(o, {(par, 'children')})
    if bad:
        return bad
    new = wr.get((par, 'children'), old)
    target = other if f == 'delete_child' else me
    same = R.is_same(target)
    if new == old:
        if f != 'append_child' and R.exhausted(o, old, same):
            return None
        return 'nothing happens although not every child has been compared with the node'
    if f == 'append_child':
        if new[:2] == ('y', 'snoc') and new[2] == old:
            return R.is_copy(o, new[3], other, par) or 'edit'
        if new[:2] == ('y', 'insert') and new[2] == old and new[3] == mirai.sym('len', old, nonneg=True):
            return R.is_copy(o, new[4], other, par) or 'edit'
        return 'the children become ' + pp(new)[:200]
    at = lambda i: same(o.st, mirai.sym('elem', old, o.st.nl(i)), True)
    if f == 'delete_child':
        if new[:2] == ('y', 'remove') and new[2] == old and at(new[3]):
            return 'edit'
        return 'the children become ' + pp(new)[:200]
    if f.startswith('insert'):
        k = I(1) if f == 'insert_as_next_sibling' else I0
        if new[:2] == ('y', 'insert') and new[2] == old and at(lsub(new[3], k)):
            return R.is_copy(o, new[4], other, par) or 'edit'
        if k == I(1) and new[:2] == ('y', 'snoc') and new[2] == old and is_last(R, o, old, me):
            return R.is_copy(o, new[3], other, par) or 'edit'
        return 'the children become ' + pp(new)[:200]
    if new[:2] == ('y', 'remove') and new[2][:2] == ('y', 'insert') and new[2][2] == old:
        mid = new[2]
        i = mid[3]
        j = new[3]
        gone = same(o.st, mirai.sym('elem', mid, o.st.nl(j)), True) or (at(i) and o.st.nl(j) == o.st.nl(ladd(i, I(1)))) or \
            (at(lsub(i, I(1))) and o.st.nl(j) == o.st.nl(lsub(i, I(1))))
        if gone and (at(i) or at(lsub(i, I(1)))):
            return R.is_copy(o, mid[4], other, par) or 'edit'
    if new[:2] == ('y', 'remove') and new[2][:2] == ('y', 'snoc') and new[2][2] == old and is_last(R, o, old, me):
        mid, j = new[2], new[3]
        if same(o.st, mirai.sym('elem', mid, o.st.nl(j)), True) or at(j):
            return R.is_copy(o, mid[3], other, par) or 'edit'
    r = R.replaced(o, new, old, same)
    if r:
        return R.is_copy(o, r[1], other, par) or 'edit'
    return 'the children become ' + pp(new)[:200]


def is_last(R, o, seq, me):
    """the path has found me as the last element of the list"""
    for s, v in o.st.known.items():
        if s[:2] == ('y', 'ptreq') and v is True and me in s[2:4]:
            e = s[3] if s[2] == me else s[2]
            if e[:3] == ('y', 'elem', seq) and o.st.ent_le(lsub(mirai.sym('len', seq, nonneg=True), ladd(e[3], I(1)))):
                return True
    return False
