"""Every way around the document builder's token loop is compared, token kind by token kind, with what that token stands
for: which node is made, with which type, name and value, to whose children it is appended, and which element is the
innermost open one afterwards.  Nodes are abstract heap cells, so the links are between identified nodes."""
from ..lib import *
from ..sax import DocRun
from ..fold import Folds, ITEM, subst


def run(ctx):
    P = ctx.P
    D = DocRun(P)
    N = NodeShape(P)
    ctx.saw(*D.I.entered)
    ctx.rule('token -> node: one node of the token\'s type, name and value, appended to the innermost open element')
    F = Folds(D.I)
    seen = {}
    main = {}
    for o in D.backs:
        r = D.token(o)
        if r is None or not any(e[0] == 'call' and e[1] == D.tok for e in o.st.events()[o.st.aux.get(('entry', o.info[2]), 0):]):
            continue
        main.setdefault(o.info[2], []).append((o, r))
    for key, outs in main.items():
        curs = current(D, N, key, [o for o, r in outs])
        ctx.check(len(curs) == 1, 'the innermost open element is tracked', 'candidates: %d' % len(curs))
        if len(curs) != 1:
            continue
        cell, cur = curs[0]
        for o, r in outs:
            if r[0] != 'Ok':
                continue
            kinds = r[1] if isinstance(r[1], tuple) else (r[1],)
            for k in kinds:
                seen[k] = seen.get(k, 0) + 1
                why = token(D, N, F, o, k, r[2], cell, cur, key)
                ctx.check(why is None, 'new_document: %s' % k, '%s: %s' % (why, pstate(o.st)[:300]))
        o = outs[0][0]
        ent = D.I.own(o.st, o.st.aux[('gs', key)][cell])
        n = N.node(D.I, o.st, ent)
        ctx.check(n is not None and n['node_type'] == 'DocumentRoot', 'new_document starts at the document node', pp(ent))
        root = ent
        for q in D.rets:
            v = q.val
            if v[0] == 'A' and is_ok(v):
                p = D.I.own(q.st, payload(v))
                while p[0] == 'A' and len(p[4]) == 1:
                    p = p[4][0]
                ctx.check(p == root, 'new_document returns the document node', pp(p)[:200])
    for k in ('StartElement', 'EndElement', 'CharData', 'ProcInst', 'Comment'):
        ctx.check(k in seen, 'new_document handles %s' % k, 'no path for it')
    ctx.floor('token loop paths', sum(seen.values()), 6)


class NodeShape:
    def __init__(self, P):
        a = [a for a in P.adts if a == 'dom::Node' or a.endswith('::dom::Node')]
        if not a:
            raise AnalysisError('no struct dom::Node')
        self.fields = [f['name'] for f in P.adts[a[0]]['variants'][0]['fields']]

    def node(self, I, st, ptr):
        """the fields of the heap cell a pointer leads to, or None"""
        if ptr[0] != 'ref' or ptr[1][0] != 'H':
            return None
        v = st.mem.get(ptr[1])
        if v is None or v[0] != 'A' or len(v[4]) != len(self.fields):
            return None
        d = dict(zip(self.fields, v[4]))
        t = I.norm(st, d['node_type'])
        d['node_type'] = t[3] if t[0] == 'A' else t
        for k in ('name', 'value'):
            d[k] = I.norm(st, d[k])
        return d


def current(D, N, key, outs):
    """loop-carried node pointers that end up with the new element after a start tag"""
    out = []
    for o in outs:
        if D.token(o)[1] != 'StartElement':
            continue
        for c, a, b in loop_changes(o):
            n = N.node(D.I, o.st, D.I.own(o.st, b))
            if n is not None and n['node_type'] == 'Element' and a[:2] == ('y', 'w') and (c, a) not in out:
                out.append((c, a))
    return out


def additions(o, key):
    """events that add to a collection, since the head of the loop"""
    return [e for e in o.st.events()[o.st.aux[('entry', key)]:] if e[0] in ('push', 'insert', 'append', 'remove', 'extend')]


def token(D, N, F, o, k, tok, cell, cur, key):
    I = D.I
    st = o.st
    ev = additions(o, key)
    now = I.own(st, st.mem.get(cell, cur))
    fld = lambda i: ('y', 'vf', tok, k, i)
    if k in ('EOF', 'Directive'):
        return None if not ev and now == cur else 'this token must not change the tree'
    if k == 'EndElement':
        if ev:
            return 'an end tag must not add anything'
        par = ('y', 'fld', cur, N.fields.index('parent'), 'parent')
        up = [s for s in [now] if s[:2] == ('y', 'vf') and s[3] == 'Some']
        if up and up[0][2][:2] == ('y', 'upgrade') and mentions(up[0], lambda y: y == par):
            return None
        if now == cur and st.known.get(par) == 'None':
            return None
        return 'an end tag does not make the parent the current element'
    if len(ev) != 1 or ev[0][0] != 'push':
        return 'exactly one node must be appended, not %s' % [e[0] for e in ev]
    tgt, val = ev[0][2], I.own(st, ev[0][3])
    if tgt[0] != ('S', cur) or not tgt[1] or tgt[1][-1][2] != 'children':
        return 'the node is not appended to the children of the innermost open element'
    n = N.node(I, st, val)
    if n is None:
        return 'what is appended is not a new node'
    par = n['parent']
    if not (par[0] == 'A' and par[3] == 'Some' and I.norm(st, par[4][0]) == ('y', 'weak', cur)):
        return 'the parent of the new node is not the innermost open element'
    if n['children'][0] != 'V' or n['children'][2] != ():
        return 'the new node has children'
    want = None
    if k == 'StartElement':
        want = ('Element', fld(0), ('s', ''))
        if now != val:
            return 'the new element does not become the innermost open one'
        parts = F.elements(st, n['attributes'])
        ok = len(parts) == 1 and parts[0][0] == 'for' and parts[0][1] == fld(1) and parts[0][2] == ('i', 0, ()) and parts[0][4] and parts[0][3]
        if not ok:
            return 'the attributes are not taken over from the first to the last'
        for b, a in parts[0][3]:
            if len(a) != 1 or a[0][0] != 'e':
                return 'not exactly one attribute node per attribute'
            pushed = [e for e in additions(b, b.info[2]) if e[0] == 'push']
            if len(pushed) != 1:
                return 'not exactly one attribute node per attribute'
            m = N.node(I, b.st, I.own(b.st, pushed[0][3]))
            if m is None or m['node_type'] != 'Attribute':
                return 'an attribute is not a new attribute node'
            it = F.iteration(b, b.info[2])
            item = ('y', 'elem', fld(1), b.st.nl(it[2]))
            if not (attr(m['name'], item, 'name') and attr(m['value'], item, 'value')):
                return 'an attribute node has not the name and value of its attribute'
            p = m['parent']
            if not (p[0] == 'A' and p[3] == 'Some' and pointee(I, b.st, p[4][0]) == val[1]):
                return 'the parent of an attribute node is not the new element'
    else:
        if now != cur:
            return 'the innermost open element changes'
        if n['attributes'][0] != 'V' or n['attributes'][2] != ():
            return 'the new node has attributes'
        if k == 'CharData':
            want = ('Text', ('s', ''), fld(0))
        elif k == 'Comment':
            want = ('Comment', ('s', ''), fld(0))
        elif k == 'ProcInst':
            xml = [tv for p, tv in st.eqs.items() if p[0] == 'eqv' and fld(0) in p[1:] and ('s', 'xml') in p[1:]]
            kn = st.known.get(fld(0))
            if xml == [True] or kn == ('s', 'xml'):
                want = ('XMLDecl', None, fld(1))
            elif xml == [False] or ('s', 'xml') in st.excl.get(fld(0), ()):
                want = ('Instruction', fld(0), fld(1))
            else:
                return 'the XML declaration is not told from other processing instructions'
    if want is None:
        return None
    if n['node_type'] != want[0]:
        return 'the new node is %s, not %s' % (n['node_type'], want[0])
    if want[1] is not None and n['name'] != want[1] and not (want[1] == fld(0) and n['name'][0] == 's' and st.known.get(fld(0)) == n['name']):
        return 'the name of the new node is %s' % pp(n['name'])
    if n['value'] != want[2]:
        return 'the value of the new node is %s' % pp(n['value'])
    return None


def attr(t, item, name):
    return t[:2] == ('y', 'fld') and t[2] == item and t[-1] == name


def pointee(I, st, w):
    """the cell a weak pointer leads to"""
    w = I.own(st, w)
    if w[:2] == ('y', 'weak'):
        x = w[2]
        if x[0] == 'ref':
            return x[1]
        if x[:2] == ('y', 'hp'):
            return ('H',) + tuple(x[2:])
        return ('S', x)
    return None
