"""Reading back what a loop builds.  A text (or list) that a loop extends is a widened symbol; `expand` turns it into
    [pieces before the loop, ('for', sequence, start, [(path, pieces appended)], complete), pieces behind the loop]
by looking at every way around the loop."""
from .lib import *
from .mirai import sym

ITEM = ('y', 'item')


def subst(t, f):
    """rebuilds a term, replacing what f maps"""
    if isinstance(t, tuple):
        r = f(t)
        if r is not None:
            return r
        return tuple(subst(x, f) for x in t)
    return t


def has_part(t, f):
    """does f hold for some part of the term?"""
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str) and f(t):
            return True
        return any(has_part(x, f) for x in t)
    return False


def locate(v, t, depth=0):
    """where in a structured value the list or text t stands"""
    if v == t or (v[0] == 'V' and v[3] == t):
        return ()
    if depth > 4:
        return None
    if v[0] == 'A':
        sub = enumerate(v[4])
    elif v[0] in ('T', 'R'):
        sub = enumerate(v[1])
    elif v[0] == 'U':
        sub = v[2]
    else:
        return None
    for i, x in sub:
        p = locate(x, t, depth + 1)
        if p is not None:
            return (i,) + p
    return None


def follow(v, path):
    for i in path:
        if v is None:
            return None
        if v[0] == 'A' and i < len(v[4]):
            v = v[4][i]
        elif v[0] in ('T', 'R') and i < len(v[1]):
            v = v[1][i]
        elif v[0] == 'U':
            v = dict(v[2]).get(i)
        else:
            return None
    return v


class Folds:
    def __init__(self, I, outs=None):
        self.I = I
        self.backs = {}
        self.keys = {}           # index -> loop
        self.via, self.vias = None, {}    # the copy of the sequence that a loop really goes through
        self.compose = True      # a loop over what another loop has made is one loop
        self.hints = []          # lists that a loop may go through by index
        self.stop = []           # lists that stand for themselves while the ways around their loop are read
        for o in (outs if outs is not None else I.outs):
            if o.kind == 'back' and len(o.info) > 2:
                self.backs.setdefault(o.info[2], []).append(o)

    def around(self, st, key):
        """the ways around the loop `key` as it was entered on this path"""
        if ('backs', key) in st.aux:
            return st.aux[('backs', key)]
        w = st.aux.get(('gw', key))
        return [b for b in self.backs.get(key, []) if b.st.aux.get(('gw', key)) is w]

    def origin(self, st, t):
        """(key, cell, path inside the cell) of the loop that builds the symbol t on this path"""
        for k, w in st.aux.items():
            if k[0] != 'gw':
                continue
            s = st.aux[('gs', k[1])]
            for c, v in w.items():
                if c not in s or s[c] == v:
                    continue
                p = locate(v, t)
                if p is not None and follow(s[c], p) != follow(v, p) and follow(s[c], p) is not None:
                    return k[1], c, p
        return None

    def pieces(self, t):
        """a text as pieces: single characters and other terms"""
        if t[0] == 's' and len(t) == 2:
            return [('s', t[1])] if t[1] else []
        if t[0] == 'cat':
            out = []
            for p in t[1]:
                if p[0] == 's' and not p[1]:
                    continue
                out.append(p[1] if p[0] == 'v' else p)
            return self.merge(out)
        return [t]

    def merge(self, ps):
        out = []
        for p in ps:
            if p[0] == 'ch' and isint(p[1]):
                p = ('s', chr(p[1][1]))
            if p[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
            else:
                out.append(p)
        return out

    def expand(self, st, t, depth=0):
        """the pieces of a text on a path, loops read back"""
        out = []
        for p in self.pieces(t):
            if depth < 6 and p[0] == 'y' and p[1] == 'w':
                l = self.loop(st, p, depth)
                if l is not None:
                    out += l
                    continue
            out.append(p)
        return self.merge(out)

    def elements(self, st, t, depth=0):
        """the parts of a list: ('e', element), ('for', ...) and ('l', other list)"""
        if t[0] == 'V':
            t = self.I.norm(st, t)
        if t[0] == 'R':
            return [('e', x) for x in t[1]]
        if t[:2] == ('y', 'snoc'):
            return self.elements(st, t[2], depth) + [('e', t[3])]
        if t[:2] == ('y', 'append'):
            return self.elements(st, t[2], depth) + self.elements(st, t[3], depth)
        if t[:2] == ('y', 'w') and depth < 6 and t not in self.stop:
            l = self.loop(st, t, depth)
            if l is not None:
                return l
        return [('l', t)]

    def loop(self, st, t, depth=0):
        og = self.origin(st, t)
        if og is None:
            return None
        key, c, path = og
        ent = follow(st.aux[('gs', key)][c], path)
        at = lambda b: follow(b.st.mem.get(c), path) if c in b.st.mem else None
        islist = ent[0] in ('V', 'R') or self.I.norm(st, ent)[0] == 'R' or \
            any((at(b) or t)[0] == 'V' for b in self.around(st, key))
        ex = self.elements if islist else self.expand
        parts = (lambda s2, v: self.within(s2, v, t, depth + 1)) if islist else (lambda s2, v: self.pieces(v))
        me = ('l', t) if islist else t
        entry = ex(st, self.I.norm(st, ent), depth + 1)
        alts = []
        seq = None
        for b in self.around(st, key):
            v = self.I.norm(b.st, at(b)) if at(b) is not None else t
            ps = parts(b.st, v)
            if not ps or ps[0] != me:
                return None
            ps = ps[1:]
            it = self.iteration(b, key)
            if it is None:
                return None
            sq, start, n, ln = it
            if seq is None:
                seq = (sq, start, n, ln)
            elif seq[:2] != (sq, start):
                return None
            if not islist:
                ps = self.merge([q for p in ps for q in (self.expand(b.st, p, depth + 1) if p[:2] == ('y', 'w') else [p])])
            alts.append((b, [subst(p, lambda x: ITEM if x[:2] == ('y', 'elem') and x[2] == sq and b.st.nl(x[3]) == b.st.nl(n) else None)
                             for p in ps]))
        if seq is None:
            return entry
        sq, start, n, ln = seq
        done = st.ent_le(lsub(ln, n))
        # the sequence may itself be a list that a loop has made out of another one
        if self.compose and sq[:2] == ('y', 'w') and depth < 6:
            inner = self.elements(st, sq, depth + 1)
            if done and start == ('i', 0, ()) and inner and inner != [('l', sq)] and all(a == [('e', ITEM)] for _, a in alts):
                return entry + inner              # a copy of the whole list
            if len(inner) == 1 and inner[0][0] == 'for' and inner[0][4] and start == ('i', 0, ()) and \
                    inner[0][3] and all(len(a) == 1 and a[0][0] == 'e' for _, a in inner[0][3]):
                many = len(inner[0][3]) > 1
                if inner[0][2] == ('i', 0, ()):        # as many as there are in the other list
                    done = done or st.ent_le(lsub(self.I.length(st, inner[0][1]), n))
                out = []
                for b0, a0 in inner[0][3]:
                    x = a0[0][1]
                    for b, ps in alts:
                        b2 = self.both(b, b0, n, inner[0][5]) if many else b
                        if b2 is not None:
                            here = lambda y: x if y == ITEM else ITEM if y[:2] == ('y', 'elem') and len(y) == 4 and y[2] == inner[0][1] and \
                                (b.st.nl(y[3]) == b.st.nl(n) or y[3] == ('i', 0, ()) and b.st.ent_le(n)) else None
                            out.append((b2, [subst(p, here) for p in ps]))
                return entry + [('for', inner[0][1], inner[0][2], out, done, n)]
        return entry + [('for', sq, start, alts, done, n)]

    def both(self, b, b0, n, n0):
        """a way round the outer loop for what a way round the inner one has made"""
        s = b.st.fork()
        at = lambda t: subst(t, lambda x: n if x == n0 else None)
        for k, v in b0.st.known.items():
            if s.known.setdefault(at(k), v) != v:
                return None
        for k, v in b0.st.excl.items():
            s.excl[at(k)] = s.excl.get(at(k), ()) + tuple(v) if at(k) in s.excl else v
        return type(b)(b.kind, s, b.val, b.info)

    def first(self, b, n):
        """does this way round the loop with the index n know that it is the first (not the first) one?"""
        if b.st.ent_le(n):
            return True
        if b.st.ent_le(lsub(('i', 1, ()), n)):
            return False
        key = self.keys.get(n)
        if key is None or ('gw', key) not in b.st.aux:
            return None
        w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
        backs = self.around(b.st, key)
        for c in w:
            if c in s and s[c][0] == 'b' and w[c][0] == 'y' and backs and \
                    all(self.I.norm(o.st, o.st.mem.get(c, w[c])) == ('b', not s[c][1]) for o in backs):
                k = b.st.known.get(w[c])
                if k is not None:
                    return k == s[c][1]
        return None

    def within(self, st, v, t, depth):
        self.stop.append(t)
        try:
            return self.elements(st, v, depth)
        finally:
            self.stop.pop()

    def iteration(self, b, key):
        """(sequence, first index, index) the loop walks over, when each way round moves the index by one"""
        it = self.iterates(b, key, [])
        return it if it is not None or not self.hints else self.iterates(b, key, self.hints)

    def iterates(self, b, key, hints):
        w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
        for c in w:
            if c not in b.st.mem or c not in s or b.st.mem[c] == w[c]:
                continue
            for (x, n), (e, _) in zip(int_parts(w[c], b.st.mem[c]), int_parts(s[c], w[c])):
                if b.st.nl(n) != b.st.nl(ladd(x, I(1))):
                    continue
                # the sequence: base of a slice iterator, or the sequence indexed by x
                self.via = None
                sq = self.base(b.st, w[c])
                if sq is not None:
                    self.vias[key] = self.via
                if sq is None:
                    sq = self.indexed(b, x, hints)
                if sq is None:            # a counter from one up to the length
                    k = b.st.nl(lsub(x, I(1)))
                    sq = next(((l, n) for l, n in ((l, self.I.length(b.st, l)) for l in hints)
                               if b.st.ent_le(lsub(x, n)) and b.st.ent_le(lsub(I(0), k))), None)
                    if sq is not None:
                        x, e = k, lsub(e, I(1))
                if sq is not None:
                    self.keys[x] = key
                    return sq[0], e, x, sq[1]
        return None

    def base(self, st, v):
        if v[0] == 'it' and v[1] == 'chars':
            x = sym('chars', v[2])
            return x, sym('len', x, nonneg=True)
        if v[0] == 'it' and v[1] in ('slice', 'vec') and len(v) > 3:
            x = v[2]
            q = self.I.norm(st, x)
            mp = self.I.mapping(st, q) if q[:2] == ('y', 'w') else None
            if mp is not None:
                self.via = q
                return mp[0], self.I.length(st, x)
            return q, self.I.length(st, x)
        if v[0] == 'it' and v[1] in ('enum', 'cloned', 'copied', 'peek', 'map', 'filter', 'filter_map'):
            return self.base(st, v[2])
        return None

    def indexed(self, b, n, hints):
        k = b.st.nl(n)
        for l in b.st.les:
            c, d = lin(l)
            for s, x in d.items():
                if s[1] == 'len' and x == -1 and b.st.nl(ladd(lsub(n, s), I(1))) == b.st.nl(l):
                    return s[2], s
        for t in list(b.st.known) + list(b.st.excl) + list(b.st.eqs):
            for e in elem_terms(t):
                if b.st.nl(e[3]) == k:
                    ln = self.I.length(b.st, e[2])
                    if b.st.ent_le(ladd(lsub(k, ln), I(1))):
                        return e[2], ln
        for e in hints:
            ln = self.I.length(b.st, e)
            if b.st.ent_le(ladd(lsub(k, ln), I(1))):
                return e, ln
        return None


def elem_terms(t):
    if isinstance(t, tuple):
        if t[:2] == ('y', 'elem') and len(t) == 4:
            yield t
        for x in t:
            for y in elem_terms(x):
                yield y


def show(ps):
    return ' '.join(pp(p[1]) if p[0] in 'el' else repr(p[1]) if p[0] == 's' else
                    'for %s from %s%s {%s}' % (pp(p[1]), pp(p[2]), '' if p[4] else ' (not to the end)',
                                               ' | '.join(show(a) for _, a in p[3])) if p[0] == 'for' else pp(p) for p in ps)


def charmap(P, I, F, st, t, specials):
    """reads a text term as a character-wise translation of another text: (source, {special char: its image}) or None.
    The image of any other character is itself."""
    img = {c: c for c in specials}
    while t[:3] == ('y', 'str', 'replace') and len(t[3]) == 3 and t[3][1][0] == 's' and t[3][2][0] == 's':
        chain = []
        while t[:3] == ('y', 'str', 'replace') and len(t[3]) == 3 and t[3][1][0] == 's' and t[3][2][0] == 's':
            if len(t[3][1][1]) != 1:
                return None
            chain.append((t[3][1][1], t[3][2][1]))
            t = t[3][0]
        img = {}
        for c in specials | {a for a, b in chain}:
            v = c
            for a, b in reversed(chain):
                v = v.replace(a, b)
            img[c] = v
        return t, img
    ps = F.expand(st, t) if t[:2] == ('y', 'w') else [t]
    if len(ps) == 1 and ps[0][0] == 'for' and ps[0][4] and ps[0][2] == ('i', 0, ()):
        C = CharSets(P)
        img = {}
        left = CHARS
        for b, alt in ps[0][3]:
            s = C.of(b.st, None, lambda x: x[:2] == ('y', 'elem') and x[2] == ps[0][1])
            ident = len(alt) == 1 and alt[0] in (ITEM, ('ch', ITEM))
            left = iv_minus(left, s)
            for a, z in s:
                if ident:
                    for c in specials:
                        if a <= ord(c) <= z:
                            img[c] = c
                    continue
                if z - a > 20 or not all(p[0] == 's' for p in alt):
                    return None
                for c in range(a, z + 1):
                    img[chr(c)] = ''.join(p[1] for p in alt)
        if left:
            return None
        src = ps[0][1]
        return src[2] if src[:2] == ('y', 'chars') else src, img
    return t, img
