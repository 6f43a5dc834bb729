"""Every path through set_attribute, delete_attribute and attribute_value is compared with the edit (or reading) of the
list of attributes it stands for; the position is identified by the name comparison that found it."""
from ..dom import *


def run(ctx):
    D = Dom(ctx.P, ['NodePtr::set_attribute', 'NodePtr::delete_attribute', 'NodePtr::attribute_value'])
    n = 0
    for f in ('set_attribute', 'delete_attribute', 'attribute_value'):
        ctx.rule('%s: every path makes exactly the edit of the attributes, or the reading, that it stands for' % f)
        R = D.run('NodePtr::' + f)
        me = D.node_of(D.arg(R.fn, 0))
        name = D.arg(R.fn, 1)
        value = D.arg(R.fn, 2) if f == 'set_attribute' else None
        acts = 0
        for o in R.rets:
            n += 1
            bad = path(R, f, o, me, name, value)
            if bad == 'act':
                acts += 1
                bad = None
            ctx.check(bad is None, f, '%s (%s)' % (bad, pstate(o.st)[:300]))
        ctx.check(acts > 0, f + ' acts', 'no path of %s does it' % f)
        ctx.check(not [o for o in R.I.outs if o.kind == 'panic'], f + ' does not panic', 'a path panics')
    ctx.saw(*D.entered)
    ctx.floor('paths', n, 7)


def path(R, f, o, me, name, value):
    D, st = R.D, o.st
    old = D.fld(me, 'attributes')
    wr = {k: v for k, v in R.written(o).items() if k[1] != 'order'}
    bad = R.changes(o, {(me, 'attributes')} if f != 'attribute_value' else {})
    if bad:
        return bad
    new = wr.get((me, 'attributes'), old)
    test = R.named(name)
    has = lambda i: test(st, mirai.sym('elem', old, st.nl(i)), True)
    if f == 'attribute_value':
        v = R.I.norm(st, o.val)
        if v[0] != 'A' or v[1] != OPT:
            return 'the result is ' + pp(v)[:200]
        if v[3] == 'None':
            return None if R.exhausted(o, old, test) else 'None although not every attribute name has been compared'
        x = v[4][0]
        for q in elems(x):
            if q[2] == old and x == D.fld(q, 'value') and has(q[3]) and first(R, o, old, q, test):
                return 'act'
        return 'the result is ' + pp(v)[:200]
    if f == 'delete_attribute':
        if new == old:
            return None if R.exhausted(o, old, test) else 'nothing happens although not every attribute name has been compared'
        if new[:2] == ('y', 'remove') and new[2] == old and has(new[3]):
            return 'act'
        return 'the attributes become ' + pp(new)[:200]
    if new == old:
        return 'nothing happens'
    r = R.replaced(o, new, old, test)
    if r:
        return attr(R, o, r[1], name, value, me) or 'act'
    if new[:2] == ('y', 'snoc') and new[2] == old:
        if not R.exhausted(o, old, test):
            return 'an attribute is added although not every attribute name has been compared'
        return attr(R, o, new[3], name, value, me) or 'act'
    return 'the attributes become ' + pp(new)[:200]


def elems(t):
    if isinstance(t, tuple):
        if t[:2] == ('y', 'elem'):
            yield t
        for x in t:
            for y in elems(x):
                yield y


def first(R, o, seq, e, test):
    """the element was found going through the list from the front, past elements that fail the test"""
    for k, w in o.st.aux.items():
        if k[0] != 'gw':
            continue
        bs = R.F.around(o.st, k[1])
        if not bs:
            continue
        its = [R.F.iteration(b, k[1]) for b in bs]
        if all(it is not None and it[0] == seq and it[1] == I0 and o.st.nl(it[2]) == o.st.nl(e[3]) and
               test(b.st, mirai.sym('elem', seq, b.st.nl(it[2])), False) for it, b in zip(its, bs)):
            return True
    return False


def attr(R, o, v, name, value, me):
    """None or what is wrong with the new attribute node"""
    v = R.unwrap(v)
    n = R.node(o.st, v)
    if n is None:
        return 'not a new node: ' + pp(v)[:100]
    t = R.I.norm(o.st, n['node_type'])
    if t[0] != 'A' or t[3] != 'Attribute':
        return 'the new node is not an attribute'
    if R.I.norm(o.st, n['name']) != name or R.I.norm(o.st, n['value']) != value:
        return 'the new attribute is not the given name and value'
    if R.parent_of(o.st, n) != me:
        return 'the new attribute does not have the element as its parent'
    return None
