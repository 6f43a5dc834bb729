"""Abstract interpretation of the operators on node sets and of the path operator.  The function that puts nodes into document
order is found by its call of a sort; its comparator and the loop that takes duplicates out are judged on their own, and in the
operators it stands for `canon(list)`.  The lists are read back as filtered lists of the operands' values; which of a path's
steps have given nodes or other items is followed through the flags the loop carries."""
from ..nodes import *


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    ctx.rule('node results are in document order without duplicates, and are the right nodes')
    sorts = sorters(P)
    if not sorts:
        raise AnalysisError('no function that sorts a list of nodes')
    only = [f for f in P.fns if N.sig(f, ['xsequence::XSequence'], 'bool') and P.fns[f]['locals'][0]['ty'] == 'bool' and all_nodes(P, V, N, f)]
    ms = {}
    for f in sorts:
        sorter(ctx, P, V, f)
        ms[f] = canon(P, f)
    n = 0
    for k in ('OperatorUnion', 'OperatorIntersect', 'OperatorExcept'):
        n += setop(ctx, P, V, N, k, ms)
    n += path(ctx, P, V, N, ms, only)
    ctx.floor('paths of the operators', n, 10)
    ctx.saw(*V.entered)


# ---- the order ----------------------------------------------------------------------------------------------------------
def nodevec(ty):
    return 'Vec<' in ty and ty.rstrip('>').endswith('NodePtr') and not ty.rstrip('>').endswith('XNodePtr')


def sorters(P):
    """the functions that sort a list of nodes they are given: path -> position of the list"""
    out = {}
    for p, f in P.fns.items():
        if f.get('std') or f['kind'] != 'fn':
            continue
        if not any(g and '::sort' in g['path'] and 'slice' in g['path'] for g, t in P.calls(f)):
            continue
        at = [i for i in range(f['argc']) if nodevec(f['locals'][i + 1]['ty']) or f['locals'][i + 1]['ty'].endswith('[dom::NodePtr]')]
        if len(at) == 1 and (f['locals'][0]['ty'] == '()' and 'mut ' in f['locals'][at[0] + 1]['ty'] or nodevec(f['locals'][0]['ty'])):
            out[p] = at[0]
    return out


def canon(P, f):
    i = sorters(P)[f]

    def m(I_, st, a, fr, site, t, dty, g):
        from ..models import as_vec, set_ref
        l = I_.norm(st, as_vec(I_, st, a[i]))
        c = as_vec(I_, st, ('y', 'canon', l))
        if P.fns[f]['locals'][0]['ty'] != '()':
            return [(st, c)]
        set_ref(I_, st, a[i], c)
        return [(st, mirai.UNIT)]
    return m


def sorter(ctx, P, V, f):
    i = sorters(P)[f]
    loc = P.fns[f]['locals']
    args = [('y', 'arg', j, loc[j + 1]['name']) for j in range(P.fns[f]['argc'])]
    me = args[i]
    st = mirai.State()
    inplace = loc[0]['ty'] == '()'
    if inplace:
        st.mem[('S', me)] = ('V', ('y', 'len', me), None, me)
    I_ = V.run(None, ('xmlerror', 'NodePtr::document_order'), fn=f, args=args, st=st)
    name = f.split('::')[-1]
    n = 0
    for o in I_.rets:
        q = Query(I_, o)
        l = q.norm(o.st.mem.get(('S', me), me)) if inplace else q.val
        try:
            if l == me or l[0] == 'R' and not l[1]:
                if not o.st.ent_le(lsub(I_.length(o.st, me), I(1 if l == me else 0))):
                    raise Bad('leaves a list of several nodes as it is')
            else:
                how = unique(P, I_, o, l)
                if len(how) > 2 and how[2] != mirai.UNIT:
                    neighbours(ctx, P, V, how[2], name)
                ordered(ctx, P, V, how[1], me, name)
            why = None
        except Bad as e:
            why = str(e)
        n += 1
        ctx.check(why is None, name, why or '')
    ctx.floor('paths of ' + name, n, 1)


def neighbours(ctx, P, V, c, name):
    """the closure of dedup_by or dedup_by_key tells nodes apart"""
    if not isinstance(c, str) or c not in P.fns:
        raise Bad('takes out duplicates by %s' % short(c))
    k = P.fns[c]['argc'] - 1
    I_ = V.run(None, ('xmlerror', 'NodePtr::document_order'), fn=c, args=[('y', 'env'), ('y', 'a'), ('y', 'b')][:k + 1])
    a, b = [('y', 'call', P.find('NodePtr::document_order'), (('y', x),)) for x in 'ab']
    for o in I_.rets:
        v = I_.norm(o.st, o.val)
        if k == 1:
            ok = v == a
        else:
            e = v[1] if v[0] == 'p' else v
            e = e[1] if e[0] == 'is' else e
            ok = pairof2(e, a, b)
        ctx.check(ok, name + ' duplicates', 'takes out neighbours by %s' % short(v))


def pairof2(e, a, b):
    if e[:2] == ('y', 'ptreq'):
        e = e[1:]
    if e[0] == 'ptreq':
        return {z[2] if z[:2] == ('y', 'fld') else z for z in e[1:]} == {('y', 'a'), ('y', 'b')}
    return e[0] in ('eq', 'eqv') and (set(e[1:]) == {a, b} or e[0] == 'eq' and e[1] in (lsub(a, b), lsub(b, a)))


def ordered(ctx, P, V, l, me, name):
    if l[:2] != ('y', 'sorted') or l[2] != me:
        raise Bad('the list is %s and not the sorted list of the nodes' % short(l))
    c = l[3]
    if not isinstance(c, str) or c not in P.fns:
        raise Bad('sorts by %s' % short(l))
    fn = P.fns[c]
    k = fn['argc'] - 1
    xs = [('y', 'a'), ('y', 'b')][:k]
    I_ = V.run(None, ('xmlerror', 'NodePtr::document_order'), fn=c, args=[('y', 'env')] + xs)
    do = P.find('NodePtr::document_order')
    order = lambda x: ('y', 'call', do, (x,))
    a, b = [order(x) for x in (('y', 'a'), ('y', 'b'))]
    for o in I_.rets:
        v = I_.norm(o.st, o.val)
        if k == 1:
            ctx.check(v == a, name + ' key', 'sorts by %s' % short(v))
            continue
        ok = v[0] == 'A' and {'Less': o.st.ent_le(ladd(lsub(a, b), I(1))), 'Greater': o.st.ent_le(ladd(lsub(b, a), I(1))),
                              'Equal': o.st.ent_le(lsub(a, b)) and o.st.ent_le(lsub(b, a))}.get(v[3], False)
        ctx.check(ok, name + ' order', 'two nodes are %s although their places in the document are not known to be so' % short(v))


def unique(P, I_, o, l):
    """('dedup', the list before): the list is another one without the neighbours that are equal"""
    if l[:2] == ('y', 'dedup'):
        return l[1:]
    if l[:2] != ('y', 'w'):
        raise Bad('duplicates stay in the list %s' % short(l))
    F = Folds(I_)
    og = F.origin(o.st, l)
    if og is None:
        raise Bad('the list %s cannot be read back' % short(l))
    key, cell, path = og
    start = I_.norm(o.st, follow(o.st.aux[('gs', key)][cell], path))
    if start[0] == 'R' and not start[1]:
        return copied(P, I_, F, o, key, cell, path, l)
    ix = None
    for b in F.around(o.st, key):
        v = I_.norm(b.st, follow(b.st.mem[cell], path))
        if v != l and not (v[:2] == ('y', 'remove') and v[2] == l):
            raise Bad('the list becomes %s' % short(v))
        # the pair that is compared
        pair = [(p, x) for p, x in list(b.st.known.items()) + list(b.st.eqs.items()) if isinstance(x, bool) and pairof(b.st, p, l)]
        if len(pair) != 1:
            raise Bad('goes round without having compared two neighbours')
        j = pairof(b.st, pair[0][0], l)
        if pair[0][1] != (v != l):
            raise Bad('%s although the two neighbours are %s' % ('removes a node' if v != l else 'removes nothing', 'equal' if pair[0][1] else 'different'))
        if v != l and b.st.nl(v[3]) not in (j, b.st.nl(ladd(j, I(1)))):
            raise Bad('removes the node at %s and not one of the pair at %s' % (short(v[3]), short(j)))
        # the index that goes along
        found = None
        for c, w in b.st.aux[('gw', key)].items():
            if c == cell or c not in b.st.mem or w is None:
                continue
            for (x, nx), (e, _) in zip(moves(w, b.st.mem[c]), int_parts(b.st.aux[('gs', key)].get(c, w), w)):
                x, nx = b.st.nl(x), b.st.nl(nx)
                off = lsub(j, x)
                if not isint(off):
                    continue
                step = lsub(nx, x)
                ent = b.st.nl(ladd(e, off))      # the first pair
                ln = I_.length(b.st, start)
                if step == I(-1) and ent == b.st.nl(lsub(ln, I(2))):
                    found = ('down', x, off[1])
                elif ent == I(0) and (step == I(0) if v != l else step == I(1)):
                    found = ('up', x, off[1])
        if found is None:
            raise Bad('the pairs of neighbours are not gone through one by one')
        if ix is not None and ix[0] != found[0]:
            raise Bad('the pairs of neighbours are not gone through one by one')
        ix = found
    if ix is None:
        raise Bad('duplicates are never removed')
    k = I_.norm(o.st, ladd(ix[1], I(ix[2])))
    own = follow(o.st.aux[('gw', key)][cell], path)
    size = own[1] if own[0] == 'V' else I_.length(o.st, l)
    fin = o.st.ent_le(ladd(k, I(1))) if ix[0] == 'down' else o.st.ent_le(lsub(size, ladd(k, I(1))))
    if not fin:
        raise Bad('not all pairs of neighbours are looked at')
    return ('y', 'dedup', start)[1:]


def moves(w, v):
    if w == v and mirai.is_num(w):
        return [(w, w)]
    return list(int_parts(w, v))


def pairof(st, p, l):
    """the index of the first when the condition says that two neighbours of the list are the same"""
    if p[:2] == ('y', 'ptreq'):
        p = p[1:]
    if p[0] not in ('ptreq', 'eqv') or len(p) != 3:
        return None
    ix = []
    for x in p[1:]:
        if x[:2] == ('y', 'fld') and p[0] == 'ptreq':
            x = x[2]
        elif x[:2] == ('y', 'call') and x[2].endswith('NodePtr::document_order'):
            x = x[3][0]
        else:
            return None
        if x[:2] != ('y', 'elem') or x[2] != l:
            return None
        ix.append(st.nl(x[3]))
    d = lsub(ix[0], ix[1])
    if d == I(1):
        return ix[1]
    if d == I(-1):
        return ix[0]
    return None


def copied(P, I_, F, o, key, cell, path, l):
    """the list without duplicates is built anew"""
    seq = None
    for b in F.around(o.st, key):
        it = F.iteration(b, key)
        if it is None or it[1] != I(0) or seq not in (None, it[0]):
            raise Bad('the nodes are not gone through one by one')
        seq, n, ln = it[0], it[2], it[3]
        v = I_.norm(b.st, follow(b.st.mem[cell], path))
        x = ('y', 'elem', seq, b.st.nl(n))
        eq = None
        own = follow(b.st.aux[('gw', key)][cell], path)
        size = own[1] if own[0] == 'V' else I_.length(b.st, l)
        last = lsub(size, I(1))
        for p, t in list(b.st.known.items()) + list(b.st.eqs.items()):
            if isinstance(t, bool) and p[:2] == ('y', 'contains') and p[2] == l and p[3] == x:
                eq = t
            if isinstance(t, bool) and (p[0] in ('ptreq',) or p[:2] == ('y', 'ptreq')):
                e = {z[2] if z[:2] == ('y', 'fld') else z for z in (p[1:] if p[0] == 'ptreq' else p[2:])}
                if x in e and any(z[:2] == ('y', 'elem') and z[2] == l and b.st.nl(z[3]) == b.st.nl(last) for z in e):
                    eq = t
        if eq is None and b.st.ent_le(size):
            eq = False
        if v == l and eq is not True:
            raise Bad('leaves out a node that is not known to be there already')
        if v != l and not (v[:2] == ('y', 'snoc') and v[2] == l and v[3] == x and eq is False):
            raise Bad('adds %s' % short(v))
        ix = (n, ln)
    if seq is None:
        raise Bad('the nodes are not gone through')
    if not o.st.ent_le(lsub(ix[1], ix[0])):
        raise Bad('not all nodes are looked at')
    return ('dedup', seq)


# ---- the tests of a value for being nodes only --------------------------------------------------------------------------
def all_nodes(P, V, N, f):
    me = ('y', 'arg', 0, P.fns[f]['locals'][1]['name'])
    try:
        I_ = V.run(None, ('xmlerror',), fn=f)
    except AnalysisError:
        return False
    F = Folds(I_)
    L = Lists(I_, P)
    l = L.of(me)
    kind = lambda st, n: st.known.get(('y', 'elem', l, st.nl(n)))
    ns = set()
    for b in I_.backs:
        it = F.iteration(b, b.info[2])
        if it is None or it[0] != l or it[1] != I(0) or kind(b.st, it[2]) != 'XINode':
            return False
        ns.add(it[2])
    for o in I_.rets:
        v = I_.norm(o.st, o.val)
        if v == ('b', True):
            if not any(o.st.ent_le(lsub(I_.length(o.st, l), n)) for n in ns | {I(0)}):
                return False
        elif v == ('b', False):
            if not any(e[:2] == ('y', 'elem') and e[2] == l and 'XINode' in x for e, x in o.st.excl.items()) and \
                    not any(e[:2] == ('y', 'elem') and e[2] == l and x != 'XINode' for e, x in o.st.known.items()):
                return False
        else:
            return False
    return bool(ns) and bool(I_.rets)


# ---- the operators ------------------------------------------------------------------------------------------------------
def nodes_in(st, S, l, N):
    """the lists whose nodes (and nothing else) the list consists of: [(list, {other list: member?})]"""
    out = []
    node = ('y', 'vf', ITEM, 'XINode', 0)
    for base, alts in S.of(st, l):
        if base[0] != 'l':
            raise Bad('one of the nodes is %s' % short(base[1]))
        some = {}
        for conds, items in alts:
            kind, members = None, {}
            for c, v in conds.items():
                if c == ITEM:
                    kind = v == 'XINode'
                elif c == ('not', ITEM):
                    kind = False if 'XINode' in v else kind
                elif c[:2] == ('y', 'contains') and c[3] == node and isinstance(v, bool):
                    try:
                        m = nodes_in(st, S, c[2], N)
                    except (Unread, Bad):
                        m = []
                    if len(m) != 1 or m[0][1]:
                        raise Bad('depends on whether a node is in %s' % short(c[2]))
                    members[m[0][0]] = v
                elif c[:2] == ('y', 'contains') and c[3] == node and c[2] in S.mine and v is True and not items:
                    members = None      # the node is there already
                    break
                elif c[:2] == ('y', 'contains') and c[3] == node and c[2] in S.mine and v is False:
                    pass
                else:
                    raise Bad('depends on %s' % short(c))
            if members is None:
                continue
            if kind is None and base[1][:2] != ('y', 'canon'):
                if items:
                    raise Bad('items that are not nodes are taken for nodes')
                continue
            if kind is False:
                if items:
                    raise Bad('items that are not nodes are taken over')
                continue
            if items not in ([], [('e', node)]):
                raise Bad('a node becomes %s' % ', '.join(short(x[1]) for x in items))
            some[tuple(sorted(members.items(), key=repr))] = bool(items)
        keep = [dict(k) for k, v in some.items() if v]
        drop = [dict(k) for k, v in some.items() if not v]
        if len(keep) != 1 or (keep[0] and [{k: not v for k, v in keep[0].items()}] != drop) or (not keep[0] and drop):
            raise Bad('the nodes of %s are %s' % (short(base[1]), 'left out' if not keep else 'not chosen by one condition'))
        out.append((base[1], keep[0]))
    return out


def canonical(st, S, L, N, v):
    """the list M when the value is the sequence of the nodes canon(M)"""
    segs = S.of(st, L.of(v))
    item = N.item(ITEM)
    if len(segs) == 1 and segs[0][0][0] == 'l' and segs[0][0][1][:2] == ('y', 'canon') and \
            all([i for i in items] == [('e', item)] for c, items in segs[0][1]):
        return segs[0][0][1][2]
    return None


def setop(ctx, P, V, N, k, ms):
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ('xmlerror',), models=ms)
    S = Segs(I_, P)
    S.mine = set()
    L = Lists(I_, P)
    l, r = [V.kid(V.x, s) for s in (LEFT, RIGHT)]
    n = 0
    for o in I_.rets:
        q = Query(I_, o)
        why = None
        try:
            g = q.got()
            if any(q.known(V.result(x)) == 'Err' for x in (l, r)):
                if g[0] != 'err':
                    raise Bad('returns %s although an operand is an error' % short(q.val))
            elif g[0] != 'ok':
                # items that are not nodes may be rejected
                if not any(e[:2] == ('y', 'elem') for e in list(o.st.excl) + list(o.st.known)):
                    raise Bad('returns %s' % short(q.val))
            else:
                lists = [L.of(V.value(x)) for x in (l, r)]
                if L.empty(o.st, L.of(g[1])):
                    need = lists if k == 'OperatorUnion' else lists[:1]
                    ok = all(L.empty(o.st, x) for x in need) or (k == 'OperatorIntersect' and any(L.empty(o.st, x) for x in lists))
                    if not ok:
                        raise Bad('returns the empty sequence')
                    continue
                m = canonical(o.st, S, L, N, g[1])
                if m is None:
                    raise Bad('the nodes are not put into document order: %s' % short(q.val))
                S.mine = {m}
                got = nodes_in(o.st, S, m, N)
                want = {'OperatorUnion': [(lists[0], {}), (lists[1], {})], 'OperatorIntersect': [(lists[0], {lists[1]: True})],
                        'OperatorExcept': [(lists[0], {lists[1]: False})]}[k]
                swap = {'OperatorUnion': want[::-1], 'OperatorIntersect': [(lists[1], {lists[0]: True})]}.get(k, want)
                got = [x for x in got if not L.empty(o.st, x[0])]
                if got not in ([w for w in want if not L.empty(o.st, w[0])], [w for w in swap if not L.empty(o.st, w[0])]):
                    raise Bad('consists of %s' % ('; '.join('the nodes of %s%s' % (short(b), ''.join(
                        ' that are %sin %s' % ('' if v else 'not ', short(c)) for c, v in m.items())) for b, m in got) or 'nothing'))
        except (Bad, Unread) as e:
            why = str(e)
        n += 1
        ctx.check(why is None, k, why or '')
    return n


def path(ctx, P, V, N, ms, only):
    k = 'OperatorPath'
    I_ = V.run((k, {LEFT: None, RIGHT: None}), ['xmlerror'] + only, models=ms)
    F = Folds(I_)
    L = Lists(I_, P)
    S = Segs(I_, P)
    l, r = [V.kid(V.x, s) for s in (LEFT, RIGHT)]
    left = L.of(V.value(l))
    nodes = lambda x: [('y', 'call', f, (x,)) for f in only]

    def nodesonly(q, x):
        for t in nodes(x):
            if isinstance(q.known(t), bool):
                return q.known(t)
        return None

    def step(q):
        """the evaluation of the right side for the item at hand"""
        e = [z for z in q.st.events() if z[0] == 'call' and z[1] == V.ev and q.norm(z[2][1]) == r]
        return e[-1][3] if e else None

    def kind(q, v):
        """what a step has given: 'nodes', 'atoms' or 'empty'"""
        if L.empty(q.st, L.of(v)):
            return 'empty'
        b = nodesonly(q, v)
        if b is False:
            return 'atoms'
        if b is True and ent_some(q.st, I_, L.of(v)):
            return 'nodes'
        return None
    # the loop over the left side and its flags
    keys = set()
    for b in I_.backs:
        it = F.iteration(b, b.info[2])
        if it is not None and it[0] == left and it[1] == I(0) and step(Query(I_, b)) is not None:
            keys.add(b.info[2])
    ctx.check(len(keys) == 1, k, 'the right side is evaluated in %d loops over the nodes of the left side' % len(keys))
    if len(keys) != 1:
        return 0
    key = keys.pop()
    ways = F.backs[key]
    means = {}
    for b in ways:
        for c, w in b.st.aux[('gw', key)].items():
            if w is not None and w[:2] == ('y', 'w') and b.st.aux[('gs', key)].get(c) == ('b', False):
                means.setdefault(c, {})
    for c in means:
        sets = {}
        for b in ways:
            q = Query(I_, b)
            res = step(q)
            kd = kind(q, ('y', 'vf', res, 'Ok', 0)) if res is not None else None
            v = b.st.mem.get(c)
            v = I_.norm(b.st, v) if v is not None else None
            w = b.st.aux[('gw', key)][c]
            is_, was = truth(q, v), truth(q, w)
            sets.setdefault(kd, set()).add('same' if v == w or (is_ is not None and is_ == was) else True if is_ is True else '?')
        m = [kd for kd, s in sets.items() if True in s]
        if len(m) == 1 and m[0] in ('nodes', 'atoms') and all(s <= {'same'} for kd, s in sets.items() if kd != m[0]) and '?' not in sets[m[0]]:
            means[c] = m[0]
        else:
            means[c] = None

    def flags(q, aux, also=None):
        """which kinds the steps so far have given, as far as the path knows: {kind: bool}"""
        out = {}
        for c, m in means.items():
            w = aux.get(c)
            if m is not None and w is not None and isinstance(q.known(w), bool):
                out[m] = q.known(w)
        if also in ('nodes', 'atoms'):
            out[also] = True
        return out
    inv = True
    n = 0
    for b in ways:
        q = Query(I_, b)
        res = step(q)
        n += 1
        if q.known(res) != 'Ok':
            ctx.check(False, k, 'goes on after an error of a step')
            continue
        kd = kind(q, ('y', 'vf', res, 'Ok', 0))
        f = flags(q, b.st.aux[('gw', key)], kd)
        if kd != 'empty' and not (f.get('nodes') is False or f.get('atoms') is False):
            inv = False
    for o in I_.rets:
        q = Query(I_, o)
        g = q.got()
        why = None
        n += 1
        try:
            if q.known(V.result(l)) == 'Err':
                if g[0] != 'err':
                    raise Bad('returns %s although the left side is an error' % short(q.val))
                continue
            lv = V.value(l)
            b = nodesonly(q, lv)
            inner = ('gw', key) in o.st.aux
            if g[0] == 'err' or g[0] == 'tail':
                if b is False:
                    continue
                res = step(q)
                if res is not None and q.known(res) == 'Err':
                    continue
                kd = kind(q, ('y', 'vf', res, 'Ok', 0)) if res is not None else None
                f = flags(q, o.st.aux.get(('gw', key), {}), kd)
                if not (f.get('nodes') and f.get('atoms')):
                    raise Bad('returns the error %s' % short(q.val))
                continue
            if b is not True and not L.empty(o.st, left):
                raise Bad('returns %s although the left side may contain items that are not nodes' % short(q.val))
            if not inner:
                if not (L.empty(o.st, left) and L.empty(o.st, L.of(g[1]))):
                    raise Bad('returns %s without having evaluated the right side' % short(q.val))
                continue
            f = flags(q, o.st.aux[('gw', key)])
            if not inv and not (f.get('nodes') is False or f.get('atoms') is False):
                raise Bad('nodes and other items may be mixed')
            try:
                m = canonical(o.st, S, L, N, g[1])
            except Unread:
                m = None
            if m is not None:
                if f.get('atoms') is True or not (f.get('nodes') is True or f.get('atoms') is False):
                    raise Bad('items that are not nodes are left out')
                seq = source(o.st, I_, L, N, m)
            else:
                if f.get('nodes') is True or not (f.get('atoms') is True or f.get('nodes') is False):
                    raise Bad('nodes are not put into document order')
                seq = L.of(g[1])
            ps = L.parts(o.st, seq)
            ps = [p for p in ps if not (p[0] == 'l' and L.empty(o.st, p[1]))]
            if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != left or ps[0][2] != I(0) or not ps[0][4]:
                raise Bad('is %s instead of the results of the right side for each node' % L.show(ps))
            for b, alt in ps[0][3]:
                q2 = Query(I_, b)
                val = L.of(('y', 'vf', step(q2), 'Ok', 0))
                sub = lambda x: subst(x, lambda y: ITEM if y[:2] == ('y', 'elem') and y[2] == left and b.st.nl(y[3]) == b.st.nl(ps[0][5]) else None)
                if not [p[:2] for p in alt] in ([('l', sub(val))], [] if L.empty(b.st, val) else None):
                    raise Bad('a step gives %s' % L.show(alt))
        except (Bad, Unread) as e:
            why = str(e)
        ctx.check(why is None, k, why or '')
    return n


def truth(q, v):
    """the boolean a value is known to be on this path"""
    if v is None:
        return None
    if v[0] == 'b':
        return v[1]
    if v[0] == 'p':
        return truth(q, v[1])
    if v[0] == 'not':
        t = truth(q, v[1])
        return None if t is None else not t
    if v[0] == 'is':
        return truth(q, v[1])
    t = q.known(v)
    return t if isinstance(t, bool) else None


def ent_some(st, I_, l):
    """is the list known not to be empty?"""
    ln = I_.length(st, l)
    return st.ent_le(lsub(I(1), ln)) or '0' in map(str, st.excl.get(ln, ()))


def source(st, I_, L, N, m):
    """the list whose nodes the list m consists of"""
    ps = L.parts(st, m)
    node = ('y', 'vf', ITEM, 'XINode', 0)
    if len(ps) == 1 and ps[0][0] == 'for' and ps[0][4] and ps[0][2] == I(0):
        for b, alt in ps[0][3]:
            x = ('y', 'elem', ps[0][1], b.st.nl(ps[0][5]))
            isnode = b.st.known.get(x) == 'XINode'
            if [p[:2] for p in alt] != ([('e', node)] if isnode else []):
                raise Bad('the nodes become %s' % L.show(alt))
        return ps[0][1]
    raise Bad('the nodes are %s' % L.show(ps))
