"""The numbering function is shown, by induction over the tree, to give a node a smaller number than its attributes, them
increasing numbers, and its children's subtrees increasing ranges behind those; a node's order is only read after the root's
cached number was found set or the whole tree renumbered from the root; and every path that adds to the tree ends with the
root's number reset (taking nodes away leaves the numbers of the rest in order).  Every place of the crate that writes an order number or borrows a list of nodes mutably is accounted
for."""
from ..dom import *

EDITS = ('append_child', 'insert_as_previous_sibling', 'insert_as_next_sibling', 'delete_child', 'replace_with',
         'set_attribute', 'delete_attribute')


def run(ctx):
    P = ctx.P
    D = Dom(P, ['NodePtr::document_order'] + ['NodePtr::' + f for f in EDITS])
    D.find_copies()
    num = numbering(ctx, D)
    reading(ctx, D, num)
    mods = editing(ctx, D)
    places(ctx, D, num, mods)
    ctx.saw(*D.entered)


# ---- numbering ------------------------------------------------------------------------------------------------------
def numbering(ctx, D):
    """{recursive function: (node argument, first number argument, 1 if the result is past all numbers given, else 0)}"""
    ctx.rule('numbering: self < attributes in order < subtrees of the children in order')
    out, whys = {}, []
    for f in sorted(D.rec - set(D.copies)):
        fn = D.P.fns[f]
        ints = [i for i in range(fn['argc']) if fn['locals'][i + 1]['ty'] == 'i64']
        nodes = [i for i in range(fn['argc']) if 'Node' in fn['locals'][i + 1]['ty']]
        for b in ints:
            for s in nodes:
                for d in (1, 0):
                    why = numbers(D, f, s, b, d)
                    if why is None:
                        out[f] = (s, b, d)
                        break
                    whys.append('%s: %s' % (f, why))
                if f in out:
                    break
    ctx.check(bool(out), 'numbering is in document order', 'no recursive function numbers a subtree in document order: ' + '; '.join(whys)[:800])
    return out


def numbers(D, f, s, b, d):
    R = D.run(f)
    st0, beg = D.arg(f, s), D.arg(f, b)
    me = D.node_of(st0) if D.P.fns[f]['locals'][s + 1]['ty'].endswith('NodePtr') else st0
    if not R.rets:
        return 'no path'
    for o in R.rets:
        st = o.st
        if R.changes(o, {}):
            return R.changes(o, {})
        M = None
        mine = [v for (n, fd), v in R.written(o).items() if fd == 'order' and n == me]
        if len(mine) != 1 or not st.ent_le(lsub(beg, mine[0])):
            return 'the node itself does not get a number from the given one on'
        M = mine[0]
        done = []
        for key in loops(o):
            r = loop(D, R, o, key, f, s, b, d, me, M)
            if r is None:
                continue
            if isinstance(r, str):
                return r
            done.append(r[0])
            M = r[1]
        if done != ['attributes', 'children']:
            return 'the lists numbered are, in this order: %s' % done
        v = R.I.norm(st, o.val)
        if not mirai.is_num(v) or not st.ent_le(lsub(ladd(M, I(d)), v)):
            return 'the result is not %s all numbers given' % ('past' if d else 'at least')
    return None


def loops(o):
    """keys of the loops a path has passed, in order"""
    ks = [(v, k[1]) for k, v in o.st.aux.items() if k[0] == 'entry']
    have = {k[1] for k in o.st.aux if k[0] == 'gw'}
    keys = [(o.st.aux.get(('entry', k), 0), k) for k in have]
    return [k for n, k in sorted(keys, key=lambda x: x[0])]


def events(b, key):
    return b.st.events()[b.st.aux.get(('entry', key), 0):]


def base_list(D, R, o, sq, me):
    """'children' or 'attributes' when the sequence is that list of the node, or a copy of it made item by item"""
    for k in ('children', 'attributes'):
        if sq == D.fld(me, k):
            return k
    el = R.F.elements(o.st, sq)
    if len(el) == 1 and el[0][0] == 'for' and el[0][2] == I0 and el[0][4] and len(el[0][3]) >= 1 and \
            all(len(a) == 1 and a[0][0] == 'e' and R.unwrap(a[0][1]) == ITEM for _, a in el[0][3]):
        for k in ('children', 'attributes'):
            if el[0][1] == D.fld(me, k):
                return k
    return None


def loop(D, R, o, key, f, s, b, d, me, M):
    """None (numbers nothing), an explanation, or (list, largest number given so far)"""
    bs = R.F.around(o.st, key)
    acts = []
    for q in bs:
        ev = [e for e in events(q, key) if e[0] == 'cellset' or (e[0] == 'call' and e[1] == f)]
        acts.append(ev)
    if not any(acts):
        return None
    which, best = None, None
    for q, ev in zip(bs, acts):
        it = R.F.iteration(q, key)
        if it is None or it[1] != I0 or not o.st.ent_le(lsub(it[3], it[2])):
            return 'a list is not gone through from its first to its last element'
        w = base_list(D, R, q, it[0], me)
        if w is None or (which and w != which):
            return 'numbers are given to something else than attributes and children'
        which = w
        item = mirai.sym('elem', it[0], q.st.nl(it[2]))
        its = {item, D.node_of(item)}
        if len(ev) != 1:
            return 'not exactly one number (or range) for each of the ' + which
        e = ev[0]
        if e[0] == 'cellset':
            if which == 'children':
                return 'the children are not numbered with what is below them'
            t = e[1][0][1] if e[1] and e[1][0][0] == 'S' else None
            if t not in its:
                return 'the number goes to another node: %r' % (e[1],)
            x = top = e[2]
        else:
            if which == 'attributes':
                return 'attributes are numbered like children'
            if R.unwrap(e[2][s]) not in its:
                return 'the range goes to another node'
            x = e[2][b]
            top = lsub(e[3], I(d))
        if not mirai.is_num(x):
            return 'no number'
        ok = None
        w0, w1 = q.st.aux[('gw', key)], q.st.mem
        s0 = q.st.aux[('gs', key)]
        for c in w0:
            if c not in w1 or c not in s0 or s0[c] == w1.get(c) and False:
                continue
            h, n, e0 = w0[c], w1[c], s0[c]
            if not (mirai.is_num(h) and mirai.is_num(n) and mirai.is_num(e0)):
                continue
            for dl in (1, 0):
                # so far everything is <= h - dl
                if o.st.ent_le(lsub(ladd(M, I(dl)), e0)) and q.st.ent_le(lsub(ladd(h, I(1 - dl)), x)) and \
                        q.st.ent_le(lsub(ladd(top, I(dl)), n)):
                    ok = (c, dl)
        if ok is None:
            return 'the numbers of the %s are not larger than all numbers given before' % which
        if best and best != ok:
            return 'the numbers of the %s do not grow in the same way on every path' % which
        best = ok
    c, dl = best
    return which, lsub(bs[0].st.aux[('gw', key)][c], I(dl))


# ---- reading --------------------------------------------------------------------------------------------------------
def reading(ctx, D, num):
    ctx.rule('document_order: the number of the node, after the root was found numbered or has been numbered')
    R = D.run('NodePtr::document_order')
    me = D.node_of(D.arg(R.fn, 0))
    n = 0
    for o in R.rets:
        n += 1
        v = R.I.norm(o.st, o.val)
        ok = v == D.fld(me, 'order')
        ctx.check(ok, 'document_order', 'the result is ' + pp(v)[:200])
        fine = False
        for s, ex in list(o.st.excl.items()):
            if s[:2] == ('y', 'fld') and s[-1] == 'order' and 0 in ex and R.root_of(o, s[2]) == me:
                fine = True
        for e in o.st.events():
            if e[0] == 'call' and e[1] in num:
                a = R.unwrap(e[2][num[e[1]][0]])
                if R.root_of(o, a) == me:
                    fine = True
        ctx.check(fine, 'document_order is up to date', 'the number is read although the root was neither numbered before nor now: ' + pstate(o.st)[:300])
    ctx.floor('document_order paths', n, 1)


# ---- editing --------------------------------------------------------------------------------------------------------
def editing(ctx, D):
    """every public function of a node that edits a list of nodes"""
    ctx.rule('every path that adds nodes to the tree resets the number of the root')
    P = D.P
    E = P.edges()
    pubs = [p for p, f in P.fns.items() if '::NodePtr::' in p and f.get('reach') and f['kind'] == 'fn']
    if not pubs:
        pubs = [P.find('NodePtr::' + f) for f in EDITS]
    n = 0
    entered = set()
    for p in sorted(pubs):
        reach = P.reachable([p]) | {p}
        if not any(mutable_lists(P, q) for q in reach if q in P.fns):
            continue
        R = D.run(p)
        entered |= R.I.entered
        me = D.node_of(D.arg(R.fn, 0))
        for o in R.rets:
            wr = [k for k, v in R.written(o).items() if k[1] in ('children', 'attributes') and not only_removed(D, k, v)]
            if not wr:
                continue
            n += 1
            roots = R.renumbered(o)
            ok = all(b in roots or (b in ups(R, o, me) and me in roots) or any(b == R.parents(o, r) for r in roots) for b, _ in wr)
            ctx.check(ok, '%s resets the numbering' % p.split('::')[-1],
                      'the %s of %s are changed, the numbering is reset above %s only' % (wr[0][1], pp(wr[0][0])[:80], [pp(r) for r in roots]))
    ctx.floor('edits', n, 5)
    return entered | D.rec


def only_removed(D, k, v):
    """a list from which elements were only taken: the numbers of the rest stay in order"""
    n = 0
    while v[:2] == ('y', 'remove'):
        v, n = v[2], n + 1
    return n > 0 and v == D.fld(*k)


def ups(R, o, me):
    p = R.parents(o, me)
    return [p] if p else []


def mutable_lists(P, p):
    """calls in p that borrow a list of nodes mutably"""
    return [t for g, t in P.calls(P.fns[p]) if g and g['path'].endswith('RefCell::<T>::borrow_mut') and 'Node' in str(g.get('gen')) and 'Rc' in str(g.get('gen'))]


def places(ctx, D, num, mods):
    """all writes of order numbers, and all functions that borrow a list of nodes mutably, are among those analysed"""
    P = D.P
    ctx.rule('nothing else writes order numbers or borrows the lists of nodes mutably')
    build = P.reachable([P.find('dom::new_document')]) | {P.find('dom::new_document')}
    n = 0
    for p, f in P.fns.items():
        for g, t in P.calls(f):
            if g and g['path'].startswith('std::cell::Cell') and 'i64' in str(g.get('gen')) and not g['path'].endswith(('::new', '::get')):
                n += 1
                ctx.check(p in mods or p in num or p in D.entered, 'order number written in ' + p, 'an order number is changed here', P.short(t.get('sp')))
        if mutable_lists(P, p):
            n += 1
            ctx.check(p in mods or p in build, 'list of nodes changed in ' + p, 'a list of nodes is borrowed mutably here')
    ctx.floor('places', n, 6)
    made = 0
    for p, f in P.fns.items():
        for b in f['blocks']:
            for s in b['s']:
                rv = s.get('rv') if s['k'] == '=' else None
                if rv and rv.get('k') == 'agg' and str(rv['kind'].get('path')).endswith('dom::Node'):
                    made += 1
                    R = D.run(p)
                    for o in R.rets + R.I.outs:
                        for c, v in o.st.mem.items():
                            if c[0] == 'H' and v[0] == 'A' and v[1].endswith('dom::Node') and o.kind == 'ret':
                                x = R.I.norm(o.st, dict(zip(D.fields, v[4]))['order'])
                                ctx.check(x == I0, 'new nodes are not numbered', 'a new node has the number ' + pp(x))
    ctx.count('places that make nodes', made)
