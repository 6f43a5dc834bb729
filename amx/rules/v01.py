"""Abstract interpretation of a step: for every axis the evaluator is explored on a single context node, the list it returns is read
back as filtered node lists (through the loops that build it and the flags they carry), and each way an item can go is judged
against the nodes that the axis is, for every relation an item can have to the context node.  The recursive lists (ancestors,
descendants) are checked as recursion equations; several context nodes are a loop whose body is the same."""
from ..nodes import *
from .v05 import heavy

KNOWN = ('AxisAncestor', 'AxisAncestorOrSelf', 'AxisAttribute', 'AxisChild', 'AxisDescendant', 'AxisDescendantOrSelf',
         'AxisFollowing', 'AxisFollowingSibling', 'AxisParent', 'AxisPreceding', 'AxisPrecedingSibling', 'AxisRoot', 'AxisSelf')
KEEP = {
    'AxisFollowing': {'after'}, 'AxisPreceding': {'before'},
    'AxisFollowingSibling': {'after'}, 'AxisPrecedingSibling': {'before'},
}


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('each axis selects exactly its nodes that pass the node test, in document order')
    for f, r in sorted(N.roles.items()):
        ctx.check(r in ('anc', 'desc', 'self+desc', 'anc+self'), 'recursion %s' % f.split('::')[-1],
                  '%s lists %s: neither the ancestors nor the descendants in document order' % (f, r))
    tests = tests_of(P)
    if len(tests) != 1:
        raise AnalysisError('no single node test: %s' % tests)
    n = 0
    for k in sorted(V.kinds):
        if k.startswith('Axis') and k in KNOWN:
            n += 1
            for pred in (False, True):
                axis(ctx, P, V, N, tests, k, pred)
            many(ctx, P, V, N, k)
    ctx.floor('axes', n, 13)
    ctx.saw(*V.entered)


def wants(N, k, q, node):
    """the segments: base and the relations kept (None: all), for what this path knows about the node"""
    par = N.call('parent', node)
    up = ('y', 'vf', par, 'Some', 0)
    kind = q.known(N.call('node_type', node))
    attr = kind == 'Attribute'
    noattr = 'Attribute' in {str(z).split('::')[-1] for z in q.st.excl.get(N.call('node_type', node), ())} or (kind is not None and not attr)
    root = N.call('root', node)
    l = lambda name: ('l', N.call(name, node))
    r = lambda kind, x: ('r', kind, x)
    if k == 'AxisSelf':
        return [('e', node)]
    if k == 'AxisRoot':
        return [('e', root)]
    if k == 'AxisChild':
        return [l('children')]
    if k == 'AxisAttribute':
        return [l('attributes')]
    if k == 'AxisDescendant':
        return [r('desc', node)]
    if k == 'AxisDescendantOrSelf':
        return [('e', node), r('desc', node)]
    if k == 'AxisAncestor':
        return [r('anc', node)]
    if k == 'AxisAncestorOrSelf':
        return [r('anc', node), ('e', node)]
    has = q.known(par)
    if k == 'AxisParent':
        if has is None:
            raise Bad('does not depend on the parent of the node')
        return [('e', up)] if has == 'Some' else []
    if k in ('AxisFollowing', 'AxisPreceding'):
        if attr:
            return None
        return [('e', root), r('desc', root)]
    if k in ('AxisFollowingSibling', 'AxisPrecedingSibling'):
        if attr or has == 'None':
            return []
        if has is None:
            raise Bad('does not depend on the parent of the node')
        if not noattr and k == 'AxisPrecedingSibling':
            raise Bad('attributes are not told from the nodes that have siblings')
        return [('l', ('y', 'call', N.nav['children'], (up,)))]
    raise AnalysisError('an axis that is not known: %s' % k)


def axis(ctx, P, V, N, tests, k, pred):
    node = ('y', 'context node')
    st = V.state((k, {RIGHT: None} if pred else {}))
    if not pred:
        st.known[V.fld(V.x, RIGHT)] = 'None'
    E = [f for f in V.envs() if f != V.ev]
    filt = [f for f in E if N.sig(f, ['XSequence', 'XNodePtr', 'EvalEnv'], '') and 'filter' in f]
    chain = P.find('filter_by_predicates')
    I_ = V.run(None, ('xmlerror',) + NAV + tuple(tests) + tuple(N.rec), args=[N.seq(N.item(node)), V.x, V.env], st=st, opaque=[chain], models=N.models)
    S = Segs(I_, P)
    L = Lists(I_, P)
    key = '%s%s' % (k, ' with predicates' if pred else '')
    n = 0
    for o in I_.rets:
        q = Query(I_, o)
        why = None
        try:
            got = q.got()
            calls = [z for z in o.st.events() if z[0] == 'call' and z[1] == chain]
            if pred:
                # the predicates filter exactly the nodes of the axis
                if len(calls) != 1:
                    raise Bad('the predicates are applied %d times' % len(calls))
                z = calls[0]
                s = [i for i in range(3) if P.fns[chain]['locals'][i + 1]['ty'].endswith('XSequence')][0]
                x = [i for i in range(3) if P.fns[chain]['locals'][i + 1]['ty'].endswith('XNodePtr')][0]
                if q.norm(z[2][x]) != V.kid(V.x, RIGHT) and z[2][x][0] != 'A':
                    raise Bad('applies the predicate %s' % short(z[2][x]))
                if q.known(z[3]) == 'Err':
                    if got[0] != 'err':
                        raise Bad('returns %s although a predicate is an error' % short(q.val))
                    n += 1
                    continue
                if got[0] == 'err':
                    raise Bad('returns an error')
                v = z[2][s]
                out = ('y', 'vf', z[3], 'Ok', 0)
                if q.val != q.norm(z[3]) and not only(S, o.st, L.of(got[1]), L.of(out), N):
                    raise Bad('returns %s instead of what the predicates leave' % short(q.val))
            else:
                if got[0] == 'err':
                    raise Bad('returns an error')
                v = got[1]
            n += 1
            why = compare(S, N, o.st, q, L.of(q.norm(v)), wants(N, k, q, node), k, node, tests)
        except Unread as e:
            why = 'cannot be decided: %s' % e
        except Bad as e:
            why = str(e)
        ctx.check(why is None, key, why or '')
    ctx.floor('%s paths' % key, n, 1)


def only(S, st, l, src, N):
    """is l the list of the nodes of src?"""
    try:
        segs = S.of(st, l)
    except Unread:
        return False
    if not segs and st.ent_le(S.I.length(st, src)):
        return True
    if len(segs) != 1 or segs[0][0] != ('l', src):
        return False
    return nodes_only(segs[0][1], N)


def nodes_only(alts, N, vf=None):
    """each node of the list is kept, as it is"""
    kept = False
    for c, items in alts:
        kind = [v for t, v in c.items() if t == ITEM]
        isnode = kind and str(kind[0]).split('::')[-1] == 'XINode'
        if items:
            x = [i for i in items]
            if len(x) != 1 or x[0][1] not in (ITEM, N.item(('y', 'vf', ITEM, 'XINode', 0)), ('y', 'vf', ITEM, 'XINode', 0)):
                return False
            kept = True
        elif isnode or not kind and ('not', ITEM) not in c:
            return False
    return kept


def compare(S, N, st, q, l, want, k, node, tests):
    if want is None:
        return None
    got = N.splice(S.of(st, l))
    i = 0
    for w in want:
        if i < len(got) and got[i][0] == w:
            alts = got[i][1]
            i += 1
        elif i < len(got) and w[0] == 'e' and got[i][0] == ('e', N.item(w[1])):
            alts = [(c, [('e', w[1])] if it == [('e', N.item(w[1]))] else it) for c, it in got[i][1]]
            i += 1
        else:
            alts = [({}, [])]
        why = judge_item(S, N, st, q, w, alts, k, node, tests)
        if why:
            return why
    if i < len(got):
        return 'selects %s' % show_seg(got[i])
    return None


def show_seg(s):
    return ' '.join(short(x, 100) if isinstance(x, tuple) else str(x) for x in s[0])


def judge_item(S, N, st, q, w, alts, k, node, tests):
    item = w[1] if w[0] == 'e' else ITEM
    here = {}
    for t, v in list(st.known.items()) + list(st.eqs.items()):
        here[t] = v
    if k in ('AxisFollowingSibling', 'AxisPrecedingSibling'):
        rels = ('self', 'before', 'after')
    elif k in ('AxisFollowing', 'AxisPreceding'):
        rels = RELATIONS if w[0] != 'e' else ('self', 'anc')
    else:
        rels = ('any',)
    if not alts:
        return '%s is not looked at' % short(item)
    if 'self' in rels and len(rels) == 3 and all(
            any(t[0] == 'same' and set(t[1:]) == {item, node} and v is False for t, v in c.items()) for c, _ in alts):
        return None      # the list has the node in it: this path cannot be taken
    covered = set()
    for c, items in alts:
        xs = [x[1] for x in items]
        ok = xs in ([item], [N.item(item)])
        if xs and not ok:
            return 'selects %s instead of %s' % (', '.join(short(x) for x in xs), short(item))
        for rel in rels:
            for test in (True, False):
                poss = True
                for t, v in c.items():
                    b = N.truth(st, S, t, item, node, rel, test, tests)
                    if b is not None and b != v:
                        poss = False
                if w[0] == 'e':
                    for t, v in here.items():
                        b = N.truth(st, S, t, item, node, rel, test, tests) if t[:2] == ('y', 'call') else None
                        if b is not None and b != v:
                            poss = False
                if not poss:
                    continue
                covered.add((rel, test))
                keep = test and (rel in KEEP[k] if k in KEEP else True)
                if k == 'AxisRoot':
                    keep = True
                if bool(xs) != keep:
                    return '%s %s%s, which %s the node test' % (
                        'selects' if xs else 'does not select', short(item),
                        '' if rel == 'any' else ' (%s)' % {'self': 'the node itself', 'anc': 'an ancestor', 'desc': 'a descendant',
                                                           'before': 'a node before it', 'after': 'a node after it'}[rel],
                        'passes' if test else 'does not pass')
    return None


def many(ctx, P, V, N, k):
    """the step for a sequence of context nodes is the steps for each, one after the other"""
    E = V.envs()
    steps = [f for f in E if N.sig(f, ['NodePtr', 'XNodePtr', 'EvalEnv'], '') and 'XNodePtr' not in P.fns[f]['locals'][1]['ty']]
    if len(steps) != 1:
        raise AnalysisError('no single function for a step from one node: %s' % steps)
    step = steps[0]
    I_ = V.run((k, {}), ('xmlerror',) + NAV, opaque=[step])
    S = Segs(I_, P)
    L = Lists(I_, P)
    ctxl = L.of(V.ctx)
    n = 0
    for o in I_.rets:
        q = Query(I_, o)
        g = q.got()
        call = [z for z in o.st.events() if z[0] == 'call' and z[1] == step]
        if any(q.known(z[3]) == 'Err' for z in call):
            ctx.check(g[0] == 'err', k + ' from each node', 'returns %s although a step is an error' % short(q.val))
            continue
        if g[0] == 'err':
            ctx.check(False, k + ' from each node', 'returns an error')
            continue
        n += 1
        why = each(S, L, N, I_, o, q, L.of(g[1]), ctxl, step, V)
        ctx.check(why is None, k + ' from each node', why or '')
    ctx.floor('%s from each node paths' % k, n, 1)


def each(S, L, N, I_, o, q, l, ctxl, step, V):
    """the list is: for each node of the context, the nodes of the step from it"""
    P = N.P
    F = S.F
    ps = F.elements(o.st, l)
    for _ in range(3):
        # sequences of the nodes of a list are the list
        if len(ps) == 1 and ps[0][0] == 'for' and ps[0][4] and ps[0][2] == I(0) and ps[0][1][:2] == ('y', 'w') and \
                nodes_only([(S.conds(b, ps[0][1], ps[0][5]), a) for b, a in ps[0][3]], N) or \
                len(ps) == 1 and ps[0][0] == 'for' and ps[0][4] and ps[0][2] == I(0) and ps[0][1][:2] == ('y', 'w') and \
                all(a in ([('e', N.item(ITEM))], [('e', ITEM)]) for b, a in ps[0][3]):
            ps = F.elements(o.st, ps[0][1])
    if len(ps) != 1 or ps[0][0] != 'for' or not ps[0][4] or ps[0][2] != I(0):
        if not ps and o.st.ent_le(I_.length(o.st, ctxl)):
            return None
        return 'is not made by going through the context nodes: %s' % L.show(ps)
    _, sq, start, alts, done, n = ps[0]
    src = sq
    if sq != ctxl and not only_nodes_of(S, o.st, sq, ctxl, N):
        return 'goes through %s instead of the context' % short(sq)
    if not alts:
        return 'no step is made'
    for b, a in alts:
        z = [e for e in b.st.events() if e[0] == 'call' and e[1] == step and I_.norm(b.st, e[2][1]) == V.x]
        el = ('y', 'elem', sq, n)
        kind = str(b.st.known.get(el, '')).split('::')[-1]
        if not z:
            if sq == ctxl and kind != 'XINode' and not a:
                continue
            return 'a context node is passed over'
        z = z[-1]
        from_ = subst(z[2][0], item_of(sq, b.st.nl(n), b.st.nl))
        if from_ not in (ITEM, ('y', 'vf', ITEM, 'XINode', 0)):
            return 'the step is made from %s' % short(from_)
        r = subst(('y', 'vf', z[3], 'Ok', 0), item_of(sq, b.st.nl(n), b.st.nl))
        if len(a) == 1 and a[0][0] == 'l' and (a[0][1] == L.of(r)):
            continue
        if len(a) == 1 and a[0][0] == 'l' and a[0][1][:2] == ('y', 'w') or len(a) == 1 and a[0][0] == 'for':
            # the nodes of the result, taken out by a loop
            try:
                if a[0][0] == 'for' and a[0][1][:2] == ('y', 'w'):
                    ok = nodes_in(S, b.st, a[0], L.of(('y', 'vf', z[3], 'Ok', 0)), N)
                elif a[0][0] == 'for':
                    p = a[0]
                    raw = L.of(('y', 'vf', z[3], 'Ok', 0))
                    ok = p[4] and p[2] == I(0) and p[1] == L.of(r) and \
                        nodes_only([(S.conds(bb, raw, p[5]), [subst(y, item_of(raw, bb.st.nl(p[5]), bb.st.nl)) for y in aa])
                                    for bb, aa in p[3]], N)
                else:
                    ok = only(S, b.st, a[0][1], L.of(('y', 'vf', z[3], 'Ok', 0)), N)
            except Unread as e:
                return 'cannot be decided: %s' % e
            if ok:
                continue
        if not a and b.st.ent_le(I_.length(b.st, L.of(('y', 'vf', z[3], 'Ok', 0)))):
            continue
        return 'the nodes of a step become %s' % L.show(a)
    return None


def nodes_in(S, st, p, src, N):
    """a loop that copies a list of the nodes of src"""
    return p[4] and p[2] == I(0) and all(a == [('e', ITEM)] or [x[0] for x in a] == ['e'] and a[0][1][:2] == ('y', 'elem') and
                                         a[0][1][2] == p[1] for b, a in p[3]) and only(S, st, p[1], src, N)


def only_nodes_of(S, st, sq, src, N):
    try:
        segs = S.of(st, sq)
    except Unread:
        return False
    return len(segs) == 1 and segs[0][0] == ('l', src) and nodes_only(segs[0][1], N)
