"""Shared by the rules about the DOM: nodes as abstract heap cells, lists of children as terms, and what a recursive
function does to the node it is given (shown for its body with the recursive calls assumed to do the same)."""
from .lib import *
from .fold import Folds, ITEM, subst, follow

I0 = I(0)
S_ME = 0


def scc(P, roots):
    """the functions reachable from roots that can call themselves"""
    E = P.edges()
    E = {k: set(x if isinstance(x, str) else x[0] for x in v) for k, v in E.items()}
    reach = {}

    def closure(p):
        seen, todo = set(), list(E.get(p, ()))
        while todo:
            q = todo.pop()
            if q not in seen:
                seen.add(q)
                todo += list(E.get(q, ()))
        return seen
    out = set()
    for p in P.reachable([P.find(r) for r in roots]):
        if p in P.fns and P.fns[p]['kind'] == 'fn' and p in closure(p):
            out.add(p)
    return out


class Dom:
    def __init__(self, P, roots):
        self.P = P
        a = [a for a in P.adts if a == 'dom::Node' or a.endswith('::dom::Node')]
        if not a:
            raise AnalysisError('no struct dom::Node')
        self.fields = [f['name'] for f in P.adts[a[0]]['variants'][0]['fields']]
        p = [a for a in P.adts if a == 'dom::NodePtr' or a.endswith('::dom::NodePtr')]
        self.ptrfield = P.adts[p[0]]['variants'][0]['fields'][0]['name']
        self.rec = scc(P, roots)
        self.entered = set()
        self.copies = {}         # recursive function -> (index of the source, index of the parent)
        self.obl = {}

    def run(self, fn, args=None, borrows=None):
        """borrows: collects what the guards of RefCell borrows that are live at another borrow allow to clash"""
        def opaque(path):
            rty = self.P.fns[path]['locals'][0]['ty']

            def f(I_, st, a, fr, site, t, dty, g):
                v = mirai.sym('call', path, tuple(self.name(I_.own(st, x)) for x in a), ty=rty)
                st.add(('call', path, v[3], v, self.P.short(t.get('sp')), fr.fn['path']))
                return [(st, v)]
            return f
        I_ = Interp(self.P, budget=400000, models={f: opaque(f) for f in self.rec})
        if borrows is not None:
            I_.guards = borrows
        rets = I_.run(fn, args)
        self.entered |= I_.entered
        for k, v in I_.obl.items():
            self.obl[k] = v
        return Run(self, fn, I_, rets)

    def name(self, p):
        return ('y', 'hp') + p[1][1:] if p[0] == 'ref' and p[1][0] == 'H' else p

    def fld(self, t, name):
        """the symbol of a field of the node a pointer symbol leads to"""
        return ('y', 'fld', t, self.fields.index(name), name)

    def arg(self, fn, i):
        f = self.P.fn(fn)
        return ('y', 'arg', i, f['locals'][i + 1]['name'])

    def node_of(self, t):
        """the pointer to the node of a NodePtr argument"""
        return ('y', 'fld', t, 0, self.ptrfield)

    # ---- recursive copies -------------------------------------------------------------------------------------------
    def find_copies(self):
        """which of the recursive functions return a deep copy of one argument below another"""
        why = {}
        for f in sorted(self.rec):
            n = self.P.fns[f]['argc']
            for s in range(n):
                for p in range(n):
                    if s == p:
                        continue
                    self.copies[f] = (s, p)
                    r = self.run(f)
                    src, par = self.arg(f, s), self.arg(f, p)
                    bad = None
                    for o in r.rets:
                        bad = bad or r.is_copy(o, r.I.own(o.st, o.val), src, par) or r.changes(o, {})
                    if r.rets and bad is None:
                        break
                    del self.copies[f]
                    why[(f, s, p)] = bad
                if f in self.copies:
                    break
        return why


class Borrows:
    """follows the guards of RefCell borrows: a borrow that may meet a live guard of the same cell, one of them for
    writing, is a clash (the program would panic)"""
    def __init__(self, D, known):
        self.D = D
        self.known = known           # recursive function -> {(field, for writing)} it borrows of nodes it did not make
        self.clashes = {}
        self.made = set()            # (field, for writing) of nodes that existed before
        self.n = 0

    def cell(self, v):
        """(node, field) of a reference to a cell"""
        if v[0] == 'ref':
            fs = tuple(p[1] for p in v[2] if p[0] == 'f')
            return v[1], fs
        if v[:2] == ('y', 'fld'):
            c, fs = self.cell(v[2])
            return c, fs + (v[3],)
        return ('S', v), ()

    def may(self, st, a, b):
        """can the two cells be the same one?"""
        if a == b:
            return True
        (x, f), (y, g) = a, b
        if f and g and f != g:
            return False
        if x == y:
            return not (f and g)
        kinds = (x[0] == 'H') + (y[0] == 'H')
        if kinds == 2:
            return False
        if kinds == 1:               # a node made here, and one that a loop or a call came up with
            s = y if x[0] == 'H' else x
            return bool(s[0] == 'S' and any_part(s[1], lambda t: t[:2] in (('y', 'w'), ('y', 'hv')) or
                                             (t[:2] == ('y', 'call') and len(t) > 4)))
        if x[0] == 'S' and y[0] == 'S':
            p = tuple(sorted((x[1], y[1]), key=repr))
            return st.known.get(('y', 'ptreq') + p) is not False
        return True

    def __call__(self, I_, st, path, decl, args, fr, t):
        sp = I_.P.short(t.get('sp'))
        if path in self.known:
            self.n += 1
            for c, m in I_.live_guards(st):
                for f, w in self.known[path]:
                    if (w or m) and (not c[1] or c[1][-1] == f):
                        self.clashes[(fr.fn['path'], sp)] = 'called while a list is borrowed that it borrows too'
            return frozenset()
        if decl is None or 'std::cell::RefCell' not in decl or not args:
            return frozenset()
        m = decl.rsplit('::', 1)[-1]
        if m in ('new', 'into_inner', 'get_mut', 'as_ptr'):
            return frozenset()
        c = self.cell(args[0])
        w = m not in ('borrow', 'try_borrow')
        self.n += 1
        if c[0][0] != 'H':
            self.made.add((c[1][-1] if c[1] else None, w))
        for d, v in I_.live_guards(st):
            if (w or v) and self.may(st, c, d):
                self.clashes[(fr.fn['path'], sp)] = 'borrowed %s while it may be borrowed already' % ('for writing' if w else 'for reading')
        if m in ('borrow', 'borrow_mut'):
            return frozenset([(c, w)])
        return frozenset()


def any_part(t, f):
    if isinstance(t, tuple):
        if f(t):
            return True
        return any(any_part(x, f) for x in t)
    return False


class Run:
    def __init__(self, D, fn, I_, rets):
        self.D, self.fn, self.I, self.rets = D, fn, I_, rets
        self.F = Folds(I_)
        self.backs = self.F.backs

    def unwrap(self, t):
        """the Rc behind wrappers of one field"""
        while t[0] == 'A' and len(t[4]) == 1 and t[1] not in (OPT, RES):
            t = t[4][0]
        return t

    def ptr(self, st, v):
        return self.unwrap(self.I.own(st, v))

    def node(self, st, p):
        """the fields of a new node"""
        if p[0] != 'ref' or p[1][0] != 'H':
            return None
        v = st.mem.get(p[1])
        if v is None or v[0] != 'A' or len(v[4]) != len(self.D.fields):
            return None
        return dict(zip(self.D.fields, v[4]))

    # ---- deep copies ------------------------------------------------------------------------------------------------
    def is_copy(self, o, v, src, par):
        """None when v is a deep copy of the node src with the parent par, else what is wrong"""
        D, st = self.D, o.st
        v = self.unwrap(v)
        if v[:2] == ('y', 'call') and v[2] in D.copies:
            s, p = D.copies[v[2]]
            a = [self.unwrap(x) for x in v[3]]
            if a[s] != src:
                return 'the copy is made of another node: %s' % pp(a[s])
            if a[p] != par and a[p] != self.name(par):
                return 'the parent of the copy is %s' % pp(a[p])
            return None
        n = self.node(st, v)
        if n is None:
            return 'not a new node: %s' % pp(v)[:200]
        for k in ('node_type', 'name', 'value'):
            x = self.I.norm(st, n[k])
            if x != D.fld(src, k):
                return 'the %s of the copy is %s' % (k, pp(x)[:200])
        w = self.parent_of(st, n)
        if w != self.name(par):
            return 'the parent of the copy is %s' % (pp(w)[:200] if w else 'missing')
        for k in ('children', 'attributes'):
            el = self.F.elements(st, self.I.own(st, n[k]))
            if len(el) != 1 or el[0][0] != 'for' or el[0][1] != D.fld(src, k) or el[0][2] != I0 or not el[0][4]:
                return 'the %s of the copy are not made from all %s of the source: %s' % (k, k, str([x[0] for x in el]))
            for b, alt in el[0][3]:
                if len(alt) != 1 or alt[0][0] != 'e':
                    return 'not one %s of the copy for each one of the source' % k
                e = alt[0][1]
                why = self.is_copy_item(b, e, v)
                if why:
                    return 'in the %s of the copy: %s' % (k, why)
        return None

    def is_copy_item(self, b, e, par):
        e = self.unwrap(e)
        if e[:2] == ('y', 'call') and e[2] in self.D.copies:
            s, p = self.D.copies[e[2]]
            a = e[3]
            x = self.unwrap(a[s])
            if x != ITEM and x != self.D.node_of(ITEM):
                return 'not a copy of the same item'
            return None if a[p] == self.name(par) else 'its parent is %s' % pp(a[p])[:150]
        return 'not a deep copy: %s' % pp(e)[:150]

    def name(self, p):
        return self.D.name(p)

    def parent_of(self, st, n):
        """the pointer a new node keeps to its parent"""
        p = self.I.norm(st, n['parent'])
        if p[0] == 'A' and p[3] == 'Some':
            w = p[4][0]
            if w[:2] == ('y', 'weak'):
                return w[2]
        return None

    # ---- effects ----------------------------------------------------------------------------------------------------
    def written(self, o):
        """{(pointer, field)} of nodes that existed before whose field is different afterwards: value"""
        out = {}
        for c, v in o.st.mem.items():
            if c[0] != 'S':
                continue
            base = c[1]
            if v[0] == 'U' and v[1] == base:
                for k, x in v[2]:
                    nm = self.D.fields[k] if k < len(self.D.fields) else k
                    x = self.I.own(o.st, x)
                    if x != self.D.fld(base, nm):
                        out[(base, nm)] = x
            elif v != base:
                out[(base, None)] = v
        return out

    def changes(self, o, allowed):
        """None when nothing but order numbers and the allowed fields has changed"""
        for (b, f), v in self.written(o).items():
            if f == 'order' or (b, f) in allowed:
                continue
            if f is None and b[:2] != ('y', 'fld') and not self.is_node(b):
                continue
            return 'it also changes the %s of %s' % (f, pp(b)[:120])
        return None

    def is_node(self, b):
        t = mirai.TYPES.get(b) or ''
        return 'Node' in t

    # ---- searching --------------------------------------------------------------------------------------------------
    def exhausted(self, o, seq, same):
        """a search through the list seq has looked at every element, each of which failed the test
        same(state, element, outcome)"""
        for k, w in o.st.aux.items():
            if k[0] != 'gw':
                continue
            key = k[1]
            bs = self.F.around(o.st, key)
            if not bs:
                continue
            ok = True
            for b in bs:
                it = self.F.iteration(b, key)
                if it is None or it[0] != seq or it[1] != I0:
                    ok = False
                    break
                e = mirai.sym('elem', seq, b.st.nl(it[2]))
                if not same(b.st, e, False) or not o.st.ent_le(lsub(it[3], it[2])):
                    ok = False
                    break
            if ok:
                return True
        return False

    def is_same(self, target):
        """tests identity with the node target"""
        def f(st, e, truth):
            a, b = sorted((e, target), key=repr)
            return st.known.get(('y', 'ptreq', a, b)) is truth
        return f

    def named(self, name):
        """tests the name of a node"""
        def f(st, e, truth):
            n = self.D.fld(e, 'name')
            for l, v in list(st.eqs.items()):
                if l[0] == 'eqv' and set(l[1:3]) == {n, name} and v is truth:
                    return True
            return False
        return f

    def replaced(self, o, v, base, test):
        """(index, new element) when the list v is base with one element - for which the test holds - replaced"""
        st = o.st
        if v[:2] in (('y', 'upd'), ('y', 'store')) and v[2] == base:
            i, x = v[3], v[4]
        elif v[:2] == ('y', 'insert') and v[2][:2] == ('y', 'remove') and v[2][2] == base and st.nl(v[2][3]) == st.nl(v[3]):
            i, x = v[3], v[4]
        else:
            return None
        return (i, x) if test(st, mirai.sym('elem', base, st.nl(i)), True) else None

    # ---- what a path says --------------------------------------------------------------------------------------------
    def parents(self, o, me):
        """None: the path found that the node me has no parent; else the pointer to its parent, or False when unknown"""
        f = self.D.fld(me, 'parent')
        if o.st.known.get(f) == 'None':
            return None
        up = ('y', 'upgrade', ('y', 'vf', f, 'Some', 0))
        if o.st.known.get(up) == 'None':
            return None
        if o.st.known.get(up) == 'Some':
            return ('y', 'vf', up, 'Some', 0)
        return False

    def root_of(self, o, w):
        """the node whose topmost ancestor w (a pointer, or a symbol for one in its wrapper) is: w walks up from it until
        there is no parent; or None"""
        st = o.st
        w = self.unwrap(w)
        for x in (w, self.D.node_of(w)):
            if x[0] == 'y' and self.parents(o, x) is None:
                for y, v, start, bs, key in self.walks(o):
                    if y == x:
                        return start
                return x
        return None

    def walks(self, o):
        """the loops of a path that go from a node to its parent, and on:
        [(pointer to the current node, value it is in, start, ways round, key)]"""
        out, st = [], o.st
        for k, g in st.aux.items():
            if k[0] != 'gw':
                continue
            s = st.aux[('gs', k[1])]
            bs = self.F.around(st, k[1])
            for c, v in g.items():
                if c not in s or s[c] == v or not bs:
                    continue
                wr = v[0] != 'y'
                if wr:
                    v = self.unwrap(self.I.own(st, v)) if v[0] == 'A' and v[1] not in (OPT, RES) else None
                    if v is None or v[0] != 'y':
                        continue
                got = ('y', 'vf', v, 'Some', 0)
                for x in (v, self.D.node_of(v), got, self.D.node_of(got)):
                    ok = any(self.parents(b, x) for b in bs)
                    for b in bs:
                        p = self.parents(b, x)
                        n = self.plain(b.st, b.st.mem.get(c, v))
                        if p is False or n != p:
                            ok = False
                    if ok:
                        e = self.plain(st, s[c])
                        out.append((x, v, e if wr or x in (v, got) or self.wrapped(st, s[c]) else self.D.node_of(e), bs, k[1]))
        return out

    def plain(self, st, v):
        """the pointer in a value, None for an absent one"""
        v = self.I.own(st, v)
        if v[0] == 'A' and v[1] == OPT:
            if v[3] == 'None':
                return None
            v = v[4][0]
        return self.unwrap(v)

    def wrapped(self, st, v):
        v = self.I.own(st, v)
        if v[0] == 'A' and v[1] == OPT and v[3] == 'Some':
            v = self.I.own(st, v[4][0])
        return v[0] == 'A'

    def renumbered(self, o):
        """nodes whose root is marked as not numbered at the end of the path"""
        out = []
        for (b, f), v in self.written(o).items():
            if f == 'order' and v == I0:
                r = self.root_of(o, b)
                if r is not None:
                    out.append(r)
        return out

    def infeasible(self, o, target):
        """the path has both seen the node target in a list and not found it there"""
        t = self.is_same(target)
        seen = []
        for s, v in o.st.known.items():
            if s[:2] == ('y', 'ptreq') and v is True and target in s[2:4]:
                e = s[3] if s[2] == target else s[2]
                if e[:2] == ('y', 'elem'):
                    seen.append(e[2])
        for q in seen:
            if self.exhausted(o, q, t):
                return True
            for k, w in o.st.aux.items():
                if k[0] != 'gw':
                    continue
                for b in self.F.around(o.st, k[1])[:1]:
                    it = self.F.iteration(b, k[1])
                    if it and it[0][:2] in (('y', 'insert'), ('y', 'snoc')) and it[0][2] == q and self.exhausted(o, it[0], t):
                        return True
        return False
