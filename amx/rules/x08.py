"""Every path through the serializer is read back as the sequence of texts it concatenates - constants, fields of the
node, and loops over its attributes and children - and compared, node type by node type, with the XML form of that node."""
from ..lib import *
from ..ser import *


def run(ctx):
    P = ctx.P
    R = SerRun(P)
    ctx.saw(*R.I.entered)
    ctx.rule('to_string: the texts concatenated for each node type are the XML form of the node')
    seen = {}
    for o in R.rets:
        ts, node = R.type_of(o)
        ps = R.F.expand(o.st, R.I.norm(o.st, o.val))
        if node is None:
            ctx.check(False, 'to_string: node type', 'a path does not look at the node type: ' + show(ps)[:300])
            continue
        for t in ts:
            seen[t] = seen.get(t, 0) + 1
            why = form(R, o, t, node, ps)
            ctx.check(why is None, 'to_string of %s' % t, '%s: %s (%s)' % (why, show(ps)[:500], pstate(o.st)[:200]))
    for t in ('DocumentRoot', 'Element', 'Text', 'Comment', 'Instruction', 'XMLDecl'):
        ctx.check(t in seen, 'to_string handles %s' % t, 'no path serializes %s' % t)
    ctx.floor('serializer paths', len(R.rets), 6)
    ctx.rule('inner_xml: the children serialized one after the other')
    I = Interp(P, budget=400000, leaves={R.fn})
    F = Folds(I)
    n = 0
    outs = I.run('NodePtr::inner_xml')
    F = Folds(I)
    me = ('y', 'arg', 0, P.fns[P.find('NodePtr::inner_xml')]['locals'][1]['name'])
    for o in outs:
        n += 1
        ps = F.expand(o.st, I.norm(o.st, o.val))
        ok = len(ps) == 1 and ps[0][0] == 'for' and ps[0][4] and ps[0][2] == I0 and isfield(ps[0][1], 'children') and \
            rooted(ps[0][1][2], me) and len(ps[0][3]) >= 1 and all(recursive(R, a) for b, a in ps[0][3])
        ctx.check(ok, 'inner_xml', 'inner_xml is ' + show(ps)[:400])
    ctx.floor('inner_xml paths', n, 1)


I0 = ('i', 0, ())


def rooted(t, me):
    """a node reached from the receiver without going to another node"""
    while isinstance(t, tuple) and t[:2] == ('y', 'fld') and t[-1] not in ('children', 'parent', 'attributes'):
        t = t[2]
    return t == me


def recursive(R, a):
    """the pieces are one call of the serializer on the item, with the arguments it was started with"""
    if len(a) != 1 or a[0][:2] != ('y', 'call'):
        return False
    c = a[0]
    if c[2] not in R.I.entered and c[2] != R.fn:
        return False
    args = c[3]
    x = args[0]
    while isinstance(x, tuple) and x[0] == 'A' and len(x[4]) == 1:
        x = x[4][0]
    if x != ITEM and not (isfield(x, 'rc_node') and x[2] == ITEM):
        return False
    return all(y == I0 for y in args[1:])


def children(R, p, node):
    return p[0] == 'for' and isfield(p[1], 'children') and p[1][2] == node and p[2] == I0 and p[4] and p[3] and \
        all(recursive(R, a) for b, a in p[3])


def attributes(R, p, node):
    if not (p[0] == 'for' and isfield(p[1], 'attributes') and p[1][2] == node and p[2] == I0 and p[4] and p[3]):
        return 'the attributes are not written from the first to the last'
    for b, a in p[3]:
        if len(a) != 5 or a[0] != ('s', ' ') or a[2] != ('s', '="') or a[4] != ('s', '"') or not field_of(a[1], 'name', ITEM):
            return 'an attribute is not written as  name="value"'
        e = R.escaped(b, a[3])
        if e is None or not field_of(e[0], 'value', ITEM) or e[1] == {c: c for c in SPECIAL}:
            return 'an attribute value is not the escaped value of the attribute'
    return None


def form(R, o, t, node, ps):
    """None or what is wrong with the form of a node of type t"""
    s = lambda x: ('s', x)
    f = lambda x, n: field_of(x, n, node)
    if t == 'DocumentRoot':
        return None if len(ps) == 1 and children(R, ps[0], node) else 'a document is not the sequence of its children'
    if t == 'Text':
        e = R.escaped(o, ps[0]) if len(ps) == 1 else None
        return None if e and f(e[0], 'value') else 'a text is not its escaped value'
    if t == 'Comment':
        return None if len(ps) == 3 and ps[0] == s('<!--') and f(ps[1], 'value') and ps[2] == s('-->') else 'not a comment'
    if t == 'XMLDecl':
        return None if len(ps) == 3 and ps[0] == s('<?xml ') and f(ps[1], 'value') and ps[2] == s('?>') else 'not an XML declaration'
    if t == 'Instruction':
        return None if len(ps) == 5 and ps[0] == s('<?') and f(ps[1], 'name') and ps[2] == s(' ') and f(ps[3], 'value') and \
            ps[4] == s('?>') else 'not a processing instruction'
    if t == 'Element':
        if len(ps) < 4 or ps[0] != s('<') or not f(ps[1], 'name'):
            return 'an element does not start with < and its name'
        why = attributes(R, ps[2], node)
        if why:
            return why
        rest = ps[3:]
        n = mirai.sym('len', ('y', 'fld') + ps[2][1][2:3] + child_field(R, ps), nonneg=True)
        if rest == [s('/>')]:
            return None if o.st.ent_le(n) else 'the short form is used although the element may have children'
        if len(rest) == 5 and rest[0] == s('>') and children(R, rest[1], node) and rest[2] == s('</') and f(rest[3], 'name') and rest[4] == s('>'):
            return None
        return 'an element does not end with its children and end tag'
    return None if not ps else None


def child_field(R, ps):
    adt = [a for a in R.P.adts if a.endswith('dom::Node') or a == 'dom::Node'][0]
    for i, fd in enumerate(R.P.adts[adt]['variants'][0]['fields']):
        if fd['name'] == 'children':
            return (i, 'children')
    raise AnalysisError('no children field')
