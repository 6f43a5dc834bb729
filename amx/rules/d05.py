"""Every path through local_name, space_name and namespace_uri is compared with the split of the name at its first colon and
with the search for the namespace declaration on the element and its ancestors."""
from ..dom import *


def run(ctx):
    D = Dom(ctx.P, ['NodePtr::local_name', 'NodePtr::space_name', 'NodePtr::namespace_uri'])
    n = 0
    for f in ('local_name', 'space_name', 'namespace_uri'):
        ctx.rule('%s: each path gives the part of the name, or the declaration, it stands for' % f)
        R = D.run('NodePtr::' + f)
        me = D.node_of(D.arg(R.fn, 0))
        vals = 0
        for o in R.rets:
            n += 1
            bad = R.changes(o, {}) or (uri(R, o, me) if f == 'namespace_uri' else part(R, f, o, me))
            if bad == 'found':
                vals += 1
                bad = None
            ctx.check(bad is None, f, '%s (%s)' % (bad, pstate(o.st)[:400]))
        ctx.check(vals > 0 or f != 'namespace_uri', f + ' finds', 'no path finds a declaration')
        ctx.check(not [o for o in R.I.outs if o.kind == 'panic'], f + ' does not panic', 'a path panics')
    ctx.saw(*D.entered)
    ctx.floor('paths', n, 10)


def colon(st, name):
    """('none',) or (prefix term, local term) as the path has found out, or None; the terms are sets"""
    def call(s, *meth):
        return s[0] == 'y' and s[1] == 'str' and s[2] in meth and s[3] and s[3][0] == name
    for s, v in list(st.known.items()) + [(s, None) for s in st.excl]:
        if s[:2] == ('y', 'len') and s[2][:2] == ('y', 'splitn') or s[:2] == ('y', 'len') and 'splitn' in str(s[2])[:30]:
            sp = s[2]
            if name not in flat(sp) or (':' not in flat(sp) and ('s', ':') not in flat(sp)):
                continue
            if v == 2:
                return 'two', [mirai.sym('elem', sp, I0)], [mirai.sym('elem', sp, I(1))]
            if v == 1 or (v is None and 2 in st.excl[s]):
                return ('none', [mirai.sym('elem', sp, I0)])
    for l in st.les:
        for sp in [s[2] for s in lin(l)[1] if s[:2] == ('y', 'len') and s[2][:2] == ('y', 'splitn')]:
            n = mirai.sym('len', sp, nonneg=True)
            if sp[2] != name or sp[3] != I(2) or sp[4] not in (I(58), ('s', ':')):
                continue
            if st.ent_le(lsub(I(2), n)):
                return 'two', [mirai.sym('elem', sp, I0)], [mirai.sym('elem', sp, I(1))]
            if st.ent_le(lsub(n, I(1))):
                return ('none', [mirai.sym('elem', sp, I0)])
    for s, v in st.known.items():
        if s[:3] == ('y', 'str', 'find') and s[3] in ((name, I(58)), (name, ('s', ':'))):
            if v == 'None':
                return ('none', [])
            if v == 'Some':
                i = ('y', 'vf', s, 'Some', 0)
                return 'two', [('y', 'sl', name, I0, i)], [('y', 'sl', name, st.nl(ladd(i, I(1))), mirai.sym('len', name, nonneg=True))]
        if s[0] == 'y' and s[1] in ('find', 'split_once') and name in s[2:]:
            if v == 'None':
                return ('none', [])
            if v == 'Some' and s[1] == 'split_once':
                t = ('y', 'vf', s, 'Some', 0)
                return 'two', [('y', 'fld', t, 0, '0'), ('y', 'tup', t, 0)], [('y', 'fld', t, 1, '1'), ('y', 'tup', t, 1)]
            if v == 'Some':
                i = ('y', 'vf', s, 'Some', 0)
                return 'two', [('y', 'sl', name, I0, i)], [('y', 'sl', name, ladd(i, I(1)), mirai.sym('len', name, nonneg=True))]
    return None


def flat(t):
    return list(t) + [y for x in t if isinstance(x, tuple) for y in x] if isinstance(t, tuple) else []


def part(R, f, o, me):
    st = o.st
    name = R.D.fld(me, 'name')
    v = R.I.norm(st, o.val)
    c = colon(st, name)
    if c is None:
        return 'the path does not look for a colon in the name'
    if c[0] == 'none':
        ok = (v == name or v in c[1]) if f == 'local_name' else v == ('s', '')
    else:
        ok = v in (c[2] if f == 'local_name' else c[1])
    return None if ok else 'the result is ' + pp(v)[:200]


def wanted(R, st, me):
    """the names (terms) the declaration can have on this path"""
    name = R.D.fld(me, 'name')
    c = colon(st, name)
    if c is None:
        return None
    if c[0] == 'none':
        return [('s', 'xmlns')]
    pre = c[1]
    empty = any(st.known.get(p) in (('s', ''), '') or ('eqv' in str(l[:1]) and v is True and p in l and ('s', '') in l)
                for p in pre for l, v in list(st.eqs.items()) + [((0,), 0)])
    if empty:
        return [('s', 'xmlns')]
    return [('cat', (('s', 'xmlns:'), ('v', p))) for p in pre]


def uri(R, o, me):
    D, st = R.D, o.st
    want = wanted(R, st, me)
    if want is None:
        return 'the path does not look at the prefix'

    def test(s2, e, truth):
        for w in want:
            if R.named(w)(s2, e, truth):
                return True
            n = D.fld(e, 'name')
            if truth and s2.known.get(n) == w:
                return True
            if not truth and w in s2.excl.get(n, ()):
                return True
        return False
    v = R.I.norm(st, o.val)
    why = 'the search does not go from the node to its parent and on'
    for x, w, start, bs, key in R.walks(o):
        attrs = D.fld(x, 'attributes')
        if start != me:
            why = 'the search does not start at the node itself'
            continue
        if not all(R.exhausted(b, attrs, test) for b in bs):
            why = 'the search goes on although not every attribute has been looked at'
            continue
        if v == ('s', ''):
            if st.known.get(D.fld(x, 'node_type')) == 'DocumentRoot' or (x != w and st.known.get(w) == 'None') or \
                    (R.parents(o, x) is None and R.exhausted(o, attrs, test)):
                return None
            why = 'nothing is found although not all ancestors have been looked at'
            continue
        for e in find_terms(v, lambda t: t[:2] == ('y', 'elem')):
            if e[2] == attrs and v == D.fld(e, 'value') and test(st, e, True):
                return 'found'
        why = 'the result is ' + pp(v)[:200]
    return why


def find_terms(t, f):
    if isinstance(t, tuple):
        if t and t[0] == 'y' and f(t):
            yield t
        for x in t:
            for y in find_terms(x, f):
                yield y

