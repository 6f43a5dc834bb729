"""Node lists of the evaluator: the recursive functions that list the ancestors and the descendants of a node, and the lists made
of them."""
from .ev import *
from .sem import *
from .segs import *

NAV = ('NodePtr::children', 'NodePtr::parent', 'NodePtr::attributes', 'NodePtr::root', 'NodePtr::node_type')
RELATIONS = ('self', 'anc', 'desc', 'before', 'after')


class Nodes:
    def __init__(self, P, V):
        self.P, self.V = P, V
        self.nav = {n.split('::')[1]: P.find(n) for n in NAV}
        xs = [a for a in P.adts if a.endswith('xsequence::XSequence')][0]
        xi = [a for a in P.adts if a.endswith('xitem::XItem')][0]
        self.xs, self.xi = xs, xi
        self.kinds = [v['name'] for v in P.adts[xi]['variants']]
        self.roles = {}
        self.rec = self.recursive()
        self.models = {}
        for f in self.adders():
            self.models[f] = self.adder(f)
        for f in self.rec + sorted(self.models):
            self.roles[f] = self.classify(f)

    def call(self, name, *args):
        return ('y', 'call', self.nav[name], tuple(args))

    def item(self, node):
        return ('A', self.xi, self.kinds.index('XINode'), 'XINode', (node,))

    def seq(self, *items):
        return ('A', self.xs, 0, self.P.adts[self.xs]['variants'][0]['name'], (('R', tuple(items)),))

    def sig(self, f, args, ret):
        fn = self.P.fns[f]
        if fn.get('std') or fn['kind'] != 'fn' or fn['argc'] != len(args):
            return False
        return all(fn['locals'][i + 1]['ty'].endswith(a) for i, a in enumerate(args)) and fn['locals'][0]['ty'].endswith(ret)

    def recursive(self):
        """the functions from a node to a list of nodes that call themselves"""
        out = []
        for f in self.P.fns:
            if '::xpath_impl::' not in '::' + f or not self.sig(f, ['NodePtr'], ''):
                continue
            if 'Vec<' not in self.P.fns[f]['locals'][0]['ty'] or 'NodePtr' not in self.P.fns[f]['locals'][0]['ty']:
                continue
            if any(g['path'] == f for g, t in self.P.calls(self.P.fns[f])):
                out.append(f)
        return out

    def adders(self):
        """the functions that add nodes to a list they are given and call themselves"""
        return [f for f in self.P.fns if self.sig(f, ['NodePtr', 'NodePtr>'], '()') and
                self.P.fns[f]['locals'][2]['ty'].startswith('&mut') and
                any(g['path'] == f for g, t in self.P.calls(self.P.fns[f]))]

    def adder(self, f):
        from .models import m_vappend, as_vec, std_cell

        def m(I_, st, a, fr, site, t, dty, g):
            l = as_vec(I_, st, ('y', 'call', f, (I_.norm(st, a[0]),)))
            cell, ref = std_cell(I_, st, fr, site, 'add', l)
            out = m_vappend(I_, st, [a[1], ref], fr, site, t, dty, g)
            st.mem.pop(cell, None)
            return out
        return m

    def classify(self, f):
        """what a recursive list is: 'anc' (the root first), 'desc' (document order), 'self+desc', 'anc+self', or why it is not"""
        V = self.V
        me = ('y', 'arg', 0, self.P.fns[f]['locals'][1]['name'])
        ms = dict(self.models)
        ms.setdefault(f, V.opaque(f))
        acc = ('y', 'arg', 1, self.P.fns[f]['locals'][2]['name']) if f in self.models else None
        st = mirai.State()
        if acc is not None:
            st.mem[('S', acc)] = ('V', ('y', 'len', acc), None, acc)
        I_ = V.run(None, ('xmlerror',) + NAV, fn=f, models=ms, st=st)
        S = Segs(I_, self.P)
        par = self.call('parent', me)
        up = ('y', 'vf', par, 'Some', 0)
        rec = lambda x: ('y', 'call', f, (x,))
        seen = set()
        for o in I_.rets:
            q = Query(I_, o)
            L = Lists(I_, self.P)
            if acc is not None:
                # what has been added to the list
                ps = L.parts(o.st, q.norm(o.st.mem.get(('S', acc), acc)))
                if ps[:1] != [('l', acc)]:
                    seen.add(L.show(ps))
                    continue
                ps = ps[1:]
            else:
                ps = L.parts(o.st, q.val)
            k = q.known(par)
            if k == 'Some':
                seen.add({(('l', rec(up)), ('e', up)): 'anc', (('l', rec(up)), ('e', me)): 'anc+self'}.get(tuple(p[:2] for p in ps), L.show(ps)))
            elif k == 'None':
                seen.add({(): 'anc', (('e', me),): 'anc+self'}.get(tuple(p[:2] for p in ps), L.show(ps)))
            else:
                own = [p for p in ps if p[0] == 'e' and p[1] == me]
                rest = ps[len(own):] if ps[:len(own)] == own else None
                ch = self.call('children', me)
                role = None
                if rest is not None and len(rest) == 1 and rest[0][0] == 'for' and rest[0][1] == ch and rest[0][2] == I(0) and rest[0][4]:
                    role = {tuple(x[:2] for x in a) for b, a in rest[0][3]}
                if not own and role == {(('e', ITEM), ('l', rec(ITEM)))}:
                    seen.add('desc')
                elif len(own) == 1 and role == {(('l', rec(ITEM)),)}:
                    seen.add('self+desc')
                elif rest is not None and not rest and q.st.ent_le(I_.length(q.st, ch)):
                    pass
                else:
                    seen.add(L.show(ps))
        if len(seen) == 1:
            return seen.pop()
        return ' or '.join(sorted(seen))

    def relation(self, st, S, l, node):
        """the relations to the node of the nodes in the list: a set, or None"""
        out = set()
        try:
            segs = S.of(st, l)
        except Unread:
            return None
        for base, alts in segs:
            if any(c or i != [('e', base[1] if base[0] == 'e' else ITEM)] for c, i in alts):
                return None
            r = self.base(base, node)
            if r is None:
                return None
            out |= r
        return out

    def base(self, b, node):
        if b[0] == 'e':
            return {'self'} if b[1] == node else None
        l = b[1]
        if l == ('y', 'ancestors', node):
            return {'anc'}
        if l[:2] == ('y', 'call') and l[2] in self.roles and l[3] == (node,):
            return {'anc': {'anc'}, 'desc': {'desc'}, 'self+desc': {'self', 'desc'}, 'anc+self': {'anc', 'self'}}.get(self.roles[l[2]])
        return None

    def splice(self, segs):
        """a list with the node in it as a node and the others"""
        out = []
        for b, alts in segs:
            r = self.roles.get(b[1][2]) if b[0] == 'l' and b[1][:2] == ('y', 'call') else None
            if r in ('self+desc', 'anc+self'):
                x = b[1][3][0]
                one = (('e', x), [({k if k == ('true',) else subst(k, lambda y: x if y == ITEM else None): v for k, v in c.items()},
                                   subst(i, lambda y: x if y == ITEM else None)) for c, i in alts])
                kind = r.replace('+', '').replace('self', '')
                more = (('r', kind, x), alts)
                out += [one, more] if r == 'self+desc' else [more, one]
            elif b[0] == 'l' and b[1][:2] == ('y', 'ancestors'):
                out.append((('r', 'anc', b[1][2]), alts))
            elif r in ('anc', 'desc'):
                out.append((('r', r, b[1][3][0]), alts))
            else:
                out.append((b, alts))
        return out

    # ---- the truth of the conditions of one item, by its relation to the node --------------------------------------------
    def truth(self, st, S, cond, item, node, rel, test, tests):
        """True / False / None (unknown)"""
        if cond[0] == 'same':
            if set(cond[1:]) == {item, node}:
                return rel == 'self'
            return None
        if cond[0] == 'seen':
            if cond[1] == node:
                return rel in ('desc', 'after')
            return None
        if cond[:2] == ('y', 'contains') and len(cond) == 4 and cond[3] == item:
            r = self.relation(st, S, cond[2], node)
            return None if r is None else rel in r
        if cond[:2] == ('y', 'call') and cond[2] in tests and cond[3][0] == item:
            return test
        return None


def tests_of(P):
    """the node tests: from a node and a part of the expression to a truth value, called from elsewhere"""
    out = []
    for f, fn in P.fns.items():
        if fn.get('std') or fn['kind'] != 'fn' or fn['argc'] != 2 or fn['locals'][0]['ty'] != 'bool':
            continue
        if fn['locals'][1]['ty'].endswith('NodePtr') and fn['locals'][2]['ty'].endswith('XNodePtr') and \
                not fn['locals'][1]['ty'].endswith('XNodePtr'):
            out.append(f)
    inner = {g['path'] for f in out for g, t in P.calls(P.fns[f]) if g['path'] in out and g['path'] != f}
    return [f for f in out if f not in inner]
