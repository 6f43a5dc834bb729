"""Lists made along a chain of nodes of the syntax tree: the loop is read off from its ways round."""
from .mirai import I, lsub, ladd
from .fold import follow, has_part
from .lib import int_parts
from .ev import LEFT, RIGHT


def cursor(V, L, b, key):
    """(symbol of the chain node, where it starts) when the way round moves it to its right"""
    w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
    for c, v in w.items():
        if v[:2] != ('y', 'w') or c not in s or c not in b.st.mem:
            continue
        nx = L.F.I.norm(b.st, b.st.mem[c])
        if nx == V.kid(v, RIGHT) or nx != v and b.st.known.get(V.fld(v, RIGHT)) == 'None':
            return v, L.F.I.norm(b.st, s[c])
    return None


def loops(V, L, st, start):
    """the loops on this path that go along the chain: loop -> (cursor, ways round that the parser's trees allow)"""
    out = {}
    for k in st.aux:
        if k[0] != 'gw':
            continue
        bs = L.F.around(st, k[1])
        cs = {cursor(V, L, b, k[1]) for b in bs}
        if len(cs) == 1 and None not in cs:
            x, s = cs.pop()
            if s == start:
                out[k[1]] = x, [b for b in bs if not malformed(V, b.st, x)]
    return out


def malformed(V, st, x):
    """the parser puts every part in place: a node behind the last one and one for the end"""
    last = V.fld(x, RIGHT)
    return any(v == 'None' and t[:2] == ('y', 'fld') and t != last and has_part(t, lambda y: y == x) for t, v in st.known.items())


def ended(V, q, x):
    """has the path seen the end of the chain?"""
    return q.known(V.fld(x, 'n_type')) == 'Nil'


def nothing(V, q, parent, side):
    return q.known(V.fld(parent, side)) == 'None' or ended(V, q, V.kid(parent, side))


def along(V, L, q, lst, parent, side, each, known=True):
    """None when the list is what `each` says of every node of the chain that begins at that side of the parent, in order;
    each(back state, node, parts it adds) -> None or what is wrong"""
    st = q.st
    lst = L.F.I.norm(st, lst)
    start = V.kid(parent, side)
    if lst[:1] == ('R',) and not lst[1]:
        return None if nothing(V, q, parent, side) else 'is empty'
    w = lst[3] if lst[0] == 'V' else lst
    at = L.F.origin(st, w)
    if at is None:
        return 'is built from %s' % str(lst)[:150]
    key, cell, path = at
    if L.parts(st, follow(st.aux[('gs', key)][cell], path)):
        return 'is not empty at first'
    ls = loops(V, L, st, start)
    if key not in ls:
        return 'is not made along the chain'
    x, bs = ls[key]
    for b in bs:
        ps = L.parts(b.st, follow(b.st.mem.get(cell, st.aux[('gw', key)][cell]), path))
        lead = L.parts(b.st, w)
        if ps[:len(lead)] != lead:
            return 'is made anew on the way'
        why = each(b, x, ps[len(lead):])
        if why:
            return why
    if not bs:
        return 'is never added to'
    if not ended(V, q, x):
        return 'may end before the chain does'
    return None


def counter(L, b, key, at):
    """what a way round makes of the number that the loop holds in `at`"""
    w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
    for c in w:
        if c not in s:
            continue
        for (x, n), (e, _) in zip(int_parts(w[c], b.st.mem.get(c, w[c])), int_parts(s[c], w[c])):
            if b.st.nl(x) == b.st.nl(at):
                return e, n
    return None
