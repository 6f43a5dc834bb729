"""Lists of nodes read back as segments: every list a function returns is a concatenation of single nodes and of filtered other
lists; a segment is (base, alternatives), an alternative the conditions one item of the base is under and what it contributes.
A filter of a filter, a loop over a list made by another loop, is composed into one."""
from .lib import *
from .fold import Folds, ITEM, subst, has_part, follow
from .sem import short


class Unread(Exception):
    pass


def item_of(sq, n, nl):
    return lambda x: ITEM if x[:2] == ('y', 'elem') and x[2] == sq and nl(x[3]) == n else None


class Segs:
    def __init__(self, I_, P):
        self.I = I_
        self.P = P
        self.F = Folds(I_)
        self.F.compose = False
        self.stops = set()

    def of(self, st, t, depth=0):
        out = []
        if depth > 8:
            raise Unread('nested too deeply')
        for p in self.F.elements(st, t):
            if p[0] == 'e':
                out.append((('e', p[1]), [({}, [('e', p[1])])]))
            elif p[0] == 'l':
                l = p[1]
                if l[:2] == ('y', 'reverse') and l[2][:2] == ('y', 'w'):
                    c = self.climb(st, l[2])
                    if c is not None and c[1]:
                        out.append((('l', ('y', 'ancestors', c[0])), [({}, [('e', ITEM)])]))
                        continue
                if l[:2] == ('y', 'w'):
                    c = self.climb(st, l)
                    if c is not None and not c[1]:
                        out.append((('l', ('y', 'ancestors', c[0])), [({}, [('e', ITEM)])]))
                        continue
                    raise Unread('the list %s cannot be read back' % short(l))
                if l[:2] == ('y', 'reverse'):
                    inner = self.of(st, l[2], depth + 1)
                    for b, alts in inner[::-1]:
                        out.append((b if b[0] == 'e' else self.flip(b), [(c, i[::-1]) for c, i in alts]))
                    continue
                if l[:2] == ('y', 'slice'):
                    raise Unread('part of a list: %s' % short(l))
                out.append((('l', l), [({}, [('e', ITEM)])]))
            else:
                out += self.loop(st, p, depth)
        return out

    def stopped(self, st, sq, n):
        """the node that the item at which the loop has stopped is"""
        for t, v in list(st.known.items()) + list(st.eqs.items()):
            if v is not True:
                continue
            a = self.atom(t, lambda x: ITEM if x[:2] == ('y', 'elem') and x[2] == sq and
                          (st.nl(x[3]) == st.nl(n) or st.ent_le(lsub(x[3], n)) and st.ent_le(lsub(n, x[3]))) else None)
            if a[0] == 'same' and ITEM in a[1:]:
                return [y for y in a[1:] if y != ITEM][0]
        return None

    def climb(self, st, w):
        """(node, nearest first?) when the list is made by walking up from the node to its topmost ancestor"""
        par = self.P.find('NodePtr::parent')
        up = lambda x: ('y', 'call', par, (x,))
        some = lambda x: ('y', 'vf', x, 'Some', 0)
        og = self.F.origin(st, w)
        if og is None:
            return None
        key, c, path = og
        start = follow(st.aux[('gs', key)][c], path)
        if self.F.elements(st, self.I.norm(st, start)):
            return None
        got = set()
        for b in self.F.around(st, key):
            v = self.I.norm(b.st, follow(b.st.mem.get(c), path))
            gw, gs = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
            if v[:2] == ('y', 'snoc') and v[2] == w:
                x, first = v[3], True
            elif v[:2] == ('y', 'insert') and v[2] == w and v[3] == I(0):
                x, first = v[4], False
            else:
                return None
            node = None
            for cell, cur in gw.items():
                if cur is None or cell not in b.st.mem or cell not in gs:
                    continue
                now, ent = self.I.norm(b.st, b.st.mem[cell]), self.I.norm(b.st, gs[cell])
                curn = self.I.norm(b.st, cur)
                if x == some(cur) and now == up(x) and ent[:3] == up(None)[:3]:
                    node, end = ent[3][0], cur
                elif x == some(up(cur)) and now == x:
                    node, end = ent, up(cur)
                else:
                    continue
                if st.known.get(end) == 'None' or 'Some' in st.excl.get(end, ()):
                    got.add((node, first))
                    break
            else:
                return None
        return got.pop() if len(got) == 1 else None

    def flip(self, b):
        return ('l', b[1][2]) if b[1][:2] == ('y', 'reverse') else ('l', ('y', 'reverse', b[1]))

    def loop(self, st, p, depth):
        _, sq, start, alts, done, n = p
        if start != I(0):
            raise Unread('a loop over %s starts at %s' % (short(sq), short(start)))
        if not alts:
            return []
        stop = None
        via = self.F.vias.get(alts[0][0].info[2])
        if via is None and not done:
            stop = self.stopped(st, sq, n)
            if stop is not None:
                self.stops.add(alts[0][0].info[2])
            if stop is None:
                raise Unread('not all of %s is gone through' % short(sq))
        if via is not None and not done:
            raise Unread('not all of %s is gone through' % short(sq))
        outer = []
        if stop is not None:
            # the loop ends where it finds an item: what is behind is not looked at
            outer = [({('seen', stop): True}, []), ({('same',) + tuple(sorted((ITEM, stop), key=repr)): True}, [])]
            alts = [(b, ps, {('seen', stop): False, ('same',) + tuple(sorted((ITEM, stop), key=repr)): False}) for b, ps in alts]
        else:
            alts = [(b, ps, {}) for b, ps in alts]
        for b, ps, more in alts:
            conds = self.both(self.conds(b, sq, n), more)
            if conds is None:
                continue
            items = []
            for x in ps:
                if x[0] == 'for':
                    raise Unread('a loop inside of a loop over %s' % short(sq))
                items.append(x)
            outer.append((conds, items))
        out = []
        had, self.stops = self.stops, set()
        source = self.of(st, sq, depth + 1)
        in_source, self.stops = self.stops, set()
        self.stops |= had | in_source
        if via is not None:
            had, self.stops = self.stops, set()
            copy = self.of(st, via, depth + 1)
            in_copy = self.stops
            self.stops = had | in_copy
            if all(len(alts) == 1 and not alts[0][0] and alts[0][1] == [('e', b[1] if b[0] == 'e' else ITEM)] for b, alts in source) \
                    and [b for b, _ in source] == [b for b, _ in copy]:
                # every way round the loop that made the copy adds one item: what they know of it is known here
                for base, inner in copy:
                    m = lambda t: subst(t, lambda y: base[1] if y == ITEM and base[0] == 'e' else None)
                    res = []
                    for c, items in inner:
                        for oc, oi in (outer if items else [({}, [])]):
                            d = self.both(c, {self.tidy(m(k)): v for k, v in oc.items()})
                            if d is not None:
                                res.append((d, [(k, m(y)) for k, y in oi]))
                    out.append((base, res))
                return out
            if in_copy - in_source:
                raise Unread('a copy of part of a list')
        for base, inner in source:
            res = []
            for c, items in inner:
                got = [({}, [])]
                for x in items:
                    if x[0] != 'e':
                        raise Unread('a loop over lists')
                    nxt = []
                    for gc, gi in got:
                        for oc, oi in outer:
                            m = lambda t: subst(t, lambda y: x[1] if y == ITEM else None)
                            d = self.both(gc, {self.tidy(m(k)): v for k, v in oc.items()})
                            if d is not None:
                                nxt.append((d, gi + [(k, m(y)) for k, y in oi]))
                    got = nxt
                for gc, gi in got:
                    d = self.both(c, gc)
                    if d is not None:
                        res.append((d, gi))
            out.append((base, res))
        return out

    def tidy(self, k):
        if k[0] == 'same' and k[1] == k[2]:
            return ('true',)
        return k

    def both(self, a, b):
        d = dict(a)
        for k, v in b.items():
            if k == ('true',):
                if v is not True:
                    return None
                continue
            if d.get(k, v) != v:
                return None
            d[k] = v
        return d

    def conds(self, b, sq, n):
        """what this way round knows about the item: tests of it and the flags carried round the loop"""
        st = b.st
        nl = st.nl(n)
        f = item_of(sq, nl, st.nl)
        key = b.info[2]
        w = {v: c for c, v in st.aux.get(('gw', key), {}).items() if v is not None and v[:2] == ('y', 'w')}
        out = {}

        def put(t, v):
            out[self.atom(t, f)] = v
        for t, v in list(st.known.items()) + list(st.eqs.items()):
            t2 = t
            if t2 in w and isinstance(v, bool):
                s = self.flag(b, key, w[t2], t2, sq)
                out[s[0]] = v if s[1] else (not v)
                continue
            if has_part(t2, lambda x: f(x) is not None):
                put(t, v)
            elif has_part(t2, lambda x: x in w) and isinstance(v, bool):
                put(t, v)
        for t, v in st.excl.items():
            t2 = t
            if has_part(t2, lambda x: f(x) is not None) and t not in st.known:
                x = self.atom(t2, f)
                out[('not', x)] = frozenset(map(str, v))
        return out

    def atom(self, t, f):
        t = subst(t, f)
        if t[0] == 'ptreq' or (t[0] == 'y' and t[1] == 'ptreq'):
            s = [self.strip(x) for x in (t[1:] if t[0] == 'ptreq' else t[2:])]
            return ('same',) + tuple(sorted(s, key=repr))
        return t

    def strip(self, x):
        """the node of the pointer inside of a node wrapper"""
        return x[2] if x[:2] == ('y', 'fld') and len(x) == 5 and x[3] == 0 else x

    def flag(self, b, key, cell, w, sq):
        """(what a flag carried round the loop says, the way it is set): ('seen', x): x has been among the earlier items"""
        ent = b.st.aux[('gs', key)].get(cell)
        if ent is None or ent[0] != 'b':
            return ('flag', repr(cell)), True
        first = ent[1]
        sets = set()
        for o in self.F.around(b.st, key):
            v = o.st.mem.get(cell)
            v = self.I.norm(o.st, v) if v is not None else w
            k = o.st.aux[('gw', key)].get(cell)
            it = self.F.iteration(o, key)
            if it is None:
                return ('flag', repr(cell)), True
            f = item_of(it[0], o.st.nl(it[2]), o.st.nl)
            same = {}
            for t, x in list(o.st.known.items()) + list(o.st.eqs.items()):
                a = self.atom(t, f)
                if a[0] == 'same' and ITEM in a[1:] and isinstance(x, bool):
                    same[[y for y in a[1:] if y != ITEM][0] if a[1] != a[2] else ITEM] = x
            yes = {y for y, x in same.items() if x}
            no = {y for y, x in same.items() if not x}
            a = self.atom(v, f) if v[0] == 'y' and v != k else self.atom(v[1][1], f) if v[0] == 'p' and v[1][0] == 'is' else (None,)
            if a[0] == 'same' and ITEM in a[1:] and not first:
                # set to whether the item is the one
                if o.st.known.get(k) is (not first):
                    return ('flag', repr(cell)), True
                y = [z for z in a[1:] if z != ITEM]
                sets |= {(y[0], True), (y[0], None)} if y else set()
            elif v[0] == 'b' and v[1] != first:
                # set (again): because of an item found here, or it was set already
                if o.st.known.get(k) is (not first) or (v == ('b', not first) and not yes and o.st.known.get(k) == (not first)):
                    continue
                if len(yes) != 1:
                    return ('flag', repr(cell)), True
                sets.add((next(iter(yes)), True))
            elif v == k or (v[0] == 'b' and o.st.known.get(k) == v[1]):
                # unchanged: either it was set already, or the item is not the one
                if o.st.known.get(k) is (not first):
                    continue
                for y in yes:
                    sets.add((y, False))
                for y in no:
                    sets.add((y, None))
                if not yes and not no:
                    sets.add((None, False))
            else:
                return ('flag', repr(cell)), True
        ts = {y for y, how in sets if how is True}
        if len(ts) != 1:
            return ('flag', repr(cell)), True
        x = ts.pop()
        if (x, False) in sets or (None, False) in sets or (x, None) not in sets:
            return ('flag', repr(cell)), True
        return ('seen', x), not first


def show_segs(ss):
    out = []
    for b, alts in ss:
        out.append('%s %s {%s}' % (b[0], short(b[1], 120), ' | '.join(
            '%s -> %s' % (', '.join('%s=%s' % (short(k, 80) if k[0] in 'yA' else ' '.join(short(z, 60) if isinstance(z, tuple) else str(z) for z in k), v)
                                   for k, v in c.items()), ','.join(short(x[1], 60) for x in i)) for c, i in alts)))
    return '; '.join(out)
