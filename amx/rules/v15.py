"""Abstract interpretation of the conversions of items, sequences, maps, arrays and nodes into texts: every path is read back as the
pieces it writes and compared, kind by kind and for each class of numbers, with the form of the value; sequences, maps and arrays
with up to four entries, and with any number of them (the loop that writes them read back as a list)."""
from ..types import *
from ..fold import ITEM, Folds
from .. import models
from ..cases import Case, FLOATS, NAN, NINF, PINF, NZ

SHOW = '::fmt'
OUT = ('y', 'formatter')


def run(ctx):
    P = ctx.P
    V = Ev(P)
    N = Nodes(P, V)
    T = Texts(ctx, P, V, N)
    ctx.rule('each kind of item has its own form')
    n = T.items()
    ctx.floor('kinds of items and numbers', n, 17)
    ctx.rule('the entries of a sequence, map or array are written in order, with ", " between them')
    n = T.lists()
    ctx.floor('lists', n, 16)
    ctx.rule('a node is shown by what it is')
    n = T.nodes()
    ctx.floor('kinds of nodes', n, 8)
    ctx.rule('Sequence and Item show the value they hold')
    T.wrapped()
    ctx.saw(*V.entered)


class Texts:
    def __init__(self, ctx, P, V, N):
        self.ctx, self.P, self.V, self.N = ctx, P, V, N
        self.of = {}
        for f in P.fns:
            if f.startswith('<') and f.endswith('>' + SHOW) and ' as std::fmt::' in f:
                ty, tr = f[1:-len('>' + SHOW)].split(' as std::fmt::')
                self.of[(ty, tr)] = f
        one = lambda e: [a for a in P.adts if a.endswith(e)][0]
        self.item, self.seq, self.map, self.arr = [one('::' + x) for x in ('XItem', 'XSequence', 'XSeqMap', 'XSeqArray')]
        self.node = [a for a in P.adts if a.endswith('dom::NodePtr')][0]
        self.crate = set(P.adts)

    def show(self, ty, tr='Display', arg=None):
        f = self.of.get((ty, tr))
        if f is None:
            raise AnalysisError('no %s of %s' % (tr, ty))
        x = arg if arg is not None else ('y', 'arg', 0, self.P.fns[f]['locals'][1]['name'])

        def write(I_, st, a, fr, site, t, dty, g):
            v = I_.norm(st, a[1])
            new = [('ch', v)] if g['path'].endswith('write_char') else models.pieces(v)
            models.set_ref(I_, st, a[0], models.cat(models.pieces(I_.norm(st, a[0])) + new))
            return [(st, mirai.ok(mirai.UNIT))]

        def again(I_, st, a, fr, site, t, dty, g):
            # the other form of the same kind of value, written in place
            if len(a) != 2 or not (g.get('decl') or '').endswith('::fmt') or g['path'] not in self.of.values() or g['path'] == f:
                return None
            ty2, tr2 = [k for k, p in self.of.items() if p == g['path']][0]
            v = I_.own(st, a[0])
            new = [('v', ('y', 'fmt', tr2.lower(), ty2, v) if tr2 != 'Display' else ('y', 'disp', ty2, v))]
            models.set_ref(I_, st, a[1], models.cat(models.pieces(I_.norm(st, a[1])) + new))
            return [(st, mirai.ok(mirai.UNIT))]
        F = "std::fmt::Formatter::<'a>::"
        ms = {F + w: write for w in ('write_fmt', 'write_str')}
        for w in ("<std::fmt::Formatter<'_> as std::fmt::Write>::", "std::fmt::Formatter::<'a>::", 'std::fmt::Write::'):
            for n in ('write_char', 'write_str', 'write_fmt'):
                ms[w + n] = write
        for p in self.of.values():
            if p != f:
                ms[p] = again
        st = mirai.State()
        st.mem[('S', OUT)] = ('s', '')
        return self.V.run(None, (), fn=f, args=[x, OUT], models=ms, st=st, one_way=(lambda p: True) if arg is not None else None), x

    def texts(self, I_, o):
        """the pieces a path writes; a piece that is the text of a value of the crate is the value itself"""
        return self.pieces(Folds(I_), o.st, o.st.mem.get(('S', OUT), ('s', '')))

    def pieces(self, F, st, v):
        out = []
        for p in F.expand(st, F.I.norm(st, v)):
            out += self.plain(F, st, p)
        return glue(out)

    def plain(self, F, st, p):
        if p[0] == 'for':
            ways = []
            for b, alt in p[3]:
                first = F.first(b, p[5])
                alt = glue(sum((self.plain(F, b.st, z) for z in alt), []))
                for f, w in self.carried(F, b, p[5], alt) or [(first, alt)]:
                    ways.append((f, tuple(w)))
            return [('for', p[1], p[2], tuple(ways), p[4])]
        if p[0] == 'y' and p[1] == 'disp' and p[2] in self.crate:
            return self.plain(F, st, p[3])
        if p[0] == 'y' and p[1] == 'fmt' and p[2] == 'debug' and p[3] == self.node:
            return self.plain(F, st, p[4])
        if p[0] == 'y' and p[1] == 'call' and p[2].endswith('to_string') and len(p[3]) == 1:
            return [('x', p[3][0])]
        if p[0] == 's':
            return [p] if p[1] else []
        if p[0] == 'ch' and isint(p[1]):
            return [('s', chr(p[1][1]))]
        if p[0] == 'ch':
            return [('x', p[1])]
        if p[0] == 'A' and len(p[4]) == 1 and p[1] in self.crate:       # a value put together again
            q = p[4][0]
            return [('x', q)]
        return [('x', p)]

    def carried(self, F, b, n, alt):
        """a separator that is one text the first time and another one every other time"""
        key = F.keys.get(n)
        if key is None or not alt or alt[0][0] != 'x' or alt[0][1][:2] != ('y', 'w'):
            return None
        w, s = b.st.aux[('gw', key)], b.st.aux[('gs', key)]
        for c in w:
            if w[c] == alt[0][1] and c in s:
                nxt = {F.I.norm(o.st, o.st.mem.get(c, w[c])) for o in F.around(b.st, key)}
                if len(nxt) == 1 and all(x[0] == 's' for x in nxt) and s[c][0] == 's':
                    return [(True, glue([s[c]] + alt[1:])), (False, glue([nxt.pop()] + alt[1:]))]
        return None

    def ok(self, I_, o):
        v = I_.norm(o.st, o.val)
        return v[0] == 'A' and v[3] == 'Ok'

    # ---- items -----------------------------------------------------------------------------------------------------
    def items(self):
        ctx, n = self.ctx, 0
        x = ('y', 'x')
        for k in self.N.kinds:
            it = N_item(self.N, k, x)
            I_, _ = self.show(self.item, arg=it)
            classes = FLOATS if k == 'XIDouble' else [c for c in FLOATS if c not in (NAN, NINF, PINF)] if k == 'XIDecimal' else \
                [('b', True), ('b', False)] if k == 'XIBoolean' else [None]
            for c in classes:
                n += 1
                key = 'text of %s%s' % (k, '' if c is None else ' ' + str(c[1] if isinstance(c, tuple) else c))
                seen = 0
                for o in I_.rets:
                    if isinstance(c, tuple):
                        if o.st.known.get(x) not in (None, c[1]) or o.st.ev(mirai.to_pred(x)) not in (None, c[1]):
                            continue
                    elif c is not None and not Case({x: c}).fits(o.st):
                        continue
                    seen += 1
                    got = self.texts(I_, o)
                    ctx.check(self.ok(I_, o) and self.right(k, c, x, got, o.st), key, 'is %s' % show(got))
                ctx.check(seen > 0, key, 'is never written')
        return n

    def right(self, k, c, x, got, st):
        one = got[0][1] if len(got) == 1 and got[0][0] == 'x' else None
        const = got[0][1] if len(got) == 1 and got[0][0] == 's' else None
        if k in ('XINode', 'XIMap', 'XIArray'):
            return one == x
        if k == 'XIString':
            return got == [('s', '"'), ('x', x), ('s', '"')]
        if k == 'XIInteger':
            return one is not None and one[:2] == ('y', 'disp') and one[3] == x
        if k == 'XIBoolean':
            return const == ('true' if c[1] else 'false') or one is not None and one[:3] == ('y', 'disp', 'bool') and one[3] == x
        if k == 'XIDecimal':
            d = ('y', 'disp', 'f64', x)
            point = self.point(st, x)
            return got == [('x', d)] and point is True or got == [('x', d), ('s', '.0')] and point is False
        if k == 'XIDouble':
            e = one is not None and one[:4] == ('y', 'fmt', 'lower_exp', 'f64') and one[4] == x
            return {NAN: const == 'NaN' or e, PINF: const == '+Infinity', NINF: const == '-Infinity',
                    NZ: const == '-0e0' or e}.get(c, e)
        return bool(got)           # a function item: any form

    def point(self, st, x):
        """does the number have a decimal point when it is written"""
        d = ('y', 'disp', 'f64', x)
        for t, v in st.known.items():
            if isinstance(v, bool) and t[:3] == ('y', 'str', 'contains') and t[3][0] in (('cat', (('v', d),)), d) and \
                    t[3][1] in (('s', '.'), I(46)):
                return v
            if isinstance(v, bool) and t[:3] == ('y', 'bin', 'Eq'):
                a, b = t[3], t[4]
                for a, b in ((a, b), (b, a)):
                    if a == ('fl', '0.0') and b[:3] == ('y', 'num', 'fract') and b[3][0] == x:
                        return not v
                    if a == x and b[:2] == ('y', 'num') and b[2] in ('trunc', 'floor', 'ceil', 'round') and b[3][0] == x:
                        return not v
            if t[:3] == ('y', 'str', 'find') and t[3][0] in (('cat', (('v', d),)), d) and t[3][1] in (('s', '.'), I(46)):
                return v == 'Some'
        return None

    # ---- lists -----------------------------------------------------------------------------------------------------
    def lists(self):
        n = 0
        forms = [('sequence', self.seq, '(', ')'), ('map', self.map, '{', '}'), ('array', self.arr, '[', ']')]
        for name, ty, a, z in forms:
            for k in range(5):
                xs = [('y', 'x%d' % i) for i in range(k)]
                es = [('T', (x, ('y', 'v%d' % i))) for i, x in enumerate(xs)] if name == 'map' else xs
                val = ('A', ty, 0, self.P.adts[ty]['variants'][0]['name'], (('R', tuple(es)),))
                I_, _ = self.show(ty, arg=val)
                key = 'text of a %s of %d' % (name, k)
                want = self.entries(name, es, lambda e, i: e[1][i], a, z)
                self.ctx.check(bool(I_.rets), key, 'is never written')
                for o in I_.rets:
                    got = self.texts(I_, o)
                    self.ctx.check(self.ok(I_, o) and got == want, key, 'is %s' % show(got))
                n += 1
            n += self.any(name, ty, a, z)
        return n

    def any(self, name, ty, a, z):
        """any number of entries"""
        ctx = self.ctx
        I_, me = self.show(ty)
        L = Lists(I_, self.P)
        field = self.P.adts[ty]['variants'][0]['fields'][0]['name']
        lst = ('y', 'fld', me, 0, field)
        key = 'text of a %s of any length' % name
        item = [('x', ('y', 'fld', ITEM, 0, '0')), ('s', ' => '), ('x', ('y', 'fld', ITEM, 1, '1'))] if name == 'map' else [('x', ITEM)]
        ctx.check(bool(I_.rets), key, 'is never written')
        for o in I_.rets:
            got = self.texts(I_, o)
            fs = [p for p in got if p[0] == 'for']
            if not fs:
                k = I_.norm(o.st, I_.length(o.st, lst))
                es = [('y', 'elem', lst, I(i)) for i in range(k[1] if isint(k) else 0)]
                want = self.entries(name, [I_.norm(o.st, e) for e in es], lambda e, i: I_.norm(o.st, ('y', 'fld', e, i, str(i))), a, z)
                ctx.check(isint(k) and got == want, key, 'is %s' % show(got))
                continue
            ok = len(fs) == 1 and fs[0][1] == lst and fs[0][4]
            ctx.check(self.ok(I_, o) and ok, key, 'does not write every entry: %s' % show(got))
            if not ok:
                continue
            sep = tuple(glue([('s', ', ')] + item))
            start = fs[0][2]
            ways = fs[0][3]
            both = {tuple(w) for f, w in ways} == {tuple(item), sep}
            for first, w in ways:
                good = w == tuple(item) and start == I(0) and (first or first is None and both) or \
                    w == sep and (start == I(1) or first is False or first is None and both)
                ctx.check(good, key, 'an entry is written as %s%s' % (show(list(w)), '' if first is None else ' when it is%s the first' % ('' if first else ' not')))
            rest = got[:got.index(fs[0])], got[got.index(fs[0]) + 1:]
            ahead = [('y', 'elem', lst, I(i)) for i in range(start[1] if isint(start) else 0)]
            full = self.entries(name, ahead, lambda e, i: ('y', 'fld', e, i, str(i)), a, None)
            k = I_.norm(o.st, I_.length(o.st, lst))
            alone = name == 'sequence' and rest == ([], [])
            ctx.check(isint(start) and start[1] <= 1 and (rest == (full, [('s', z)]) or alone), key, 'is %s' % show(got))
            if name == 'sequence':
                one = o.st.ev(('eq', lsub(I_.length(o.st, lst), I(1))))
                if one is None:
                    one = o.st.ev(('eq', lsub(I(1), I_.length(o.st, lst))))
                ctx.check(one is not None and one == alone, key, 'is %s for %s number of items' % (show(got), 'this' if one is None else 'the wrong'))
        return 1

    def entries(self, name, es, part, a, z):
        """the text of known entries"""
        out = []
        for i, e in enumerate(es):
            out += [('s', ', ')] * (i > 0) + ([('x', part(e, 0)), ('s', ' => '), ('x', part(e, 1))] if name == 'map' else [('x', e)])
        if z is None or not (name == 'sequence' and len(es) == 1):
            out = [('s', a)] + out + ([('s', z)] if z is not None else [])
        return glue(out)

    # ---- nodes -----------------------------------------------------------------------------------------------------
    def nodes(self):
        P, ctx, n = self.P, self.ctx, 0
        ty = [a for a in P.adts if a.endswith('dom::NodeType')][0]
        forms = {}
        for tr in ('Debug', 'Display'):
            I_, me = self.show(self.node, tr)
            forms[tr] = 'other' if all(self.texts(I_, o) == [('x', me)] for o in I_.rets) else 'own'
            if forms[tr] == 'other':
                ctx.check(all(self.ok(I_, o) for o in I_.rets), 'node ' + tr, 'fails')
                continue
            F = Folds(I_)
            vs = [v['name'] for v in P.adts[ty]['variants']]
            seen = {v: 0 for v in vs}
            for o in I_.rets:
                got = self.texts(I_, o)
                types = [t for t in o.st.known if isinstance(o.st.known[t], str) and o.st.known[t] in vs and t[0] == 'y']
                ex = [set(o.st.excl[t]) for t in o.st.excl if t[0] == 'y' and isfield(t, 'node_type')]
                for v in vs:
                    if types and o.st.known[types[0]] != v or not types and ex and v in set().union(*ex):
                        continue
                    seen[v] += 1
                    key = '%s of %s' % (tr, v)
                    ctx.check(self.ok(I_, o) and self.shown(v, me, got), key, 'is %s' % show(got))
            for v in vs:
                n += 1
                ctx.check(seen[v] > 0, '%s of %s' % (tr, v), 'is never written')
        ctx.check('own' in forms.values(), 'text of a node', 'its two forms refer to each other')
        return n

    def shown(self, v, me, got):
        rooted = lambda t: t == me or t[:2] == ('y', 'fld') and rooted(t[2])
        mine = lambda p, f: p[0] == 'x' and isfield(p[1], f) and rooted(p[1])
        if v == 'DocumentRoot':
            return got == [('s', '(DocumentRoot)')]
        if v == 'Text':
            return len(got) == 1 and mine(got[0], 'value')
        if v == 'Attribute':
            return len(got) == 4 and mine(got[0], 'name') and got[1] == ('s', '="') and mine(got[2], 'value') and got[3] == ('s', '"')
        if v == 'Element':
            if len(got) != 4 or got[0] != ('s', '<') or not mine(got[1], 'name') or got[2][0] != 'for' or got[3] != ('s', '>'):
                return False
            f = got[2]
            at = lambda p, n: p[0] == 'x' and isfield(p[1], n) and ITEM in sub(p[1])
            return isfield(f[1], 'attributes') and rooted(f[1]) and f[2] == I(0) and f[4] and len(f[3]) > 0 and \
                all(len(a) == 5 and a[0] == ('s', ' ') and at(a[1], 'name') and a[2] == ('s', '="') and at(a[3], 'value') and a[4] == ('s', '"') or
                    a == (('s', ' '), ('x', ITEM)) for w, a in f[3])
        return not [p for p in got if p[0] != 's' or p[1]]

    # ---- the public types ----------------------------------------------------------------------------------------------
    def wrapped(self):
        P, ctx = self.P, self.ctx
        for name in ('xpath::Sequence', 'xpath::Item'):
            f = P.find(name + '::to_string')
            I_ = self.V.run(None, (), fn=f)
            me = ('y', 'arg', 0, P.fns[f]['locals'][1]['name'])
            ctx.check(bool(I_.rets), name + '::to_string', 'never returns')
            for o in I_.rets:
                got = self.pieces(Folds(I_), o.st, o.val)
                ctx.check(len(got) == 1 and got[0][0] == 'x' and got[0][1][:3] == ('y', 'fld', me), name + '::to_string', 'is %s' % show(got))


def isfield(t, name):
    return isinstance(t, tuple) and t[:2] == ('y', 'fld') and t[-1] == name


def sub(t):
    """all parts of a term"""
    out = [t]
    for x in t:
        if isinstance(x, tuple):
            out += sub(x)
    return out


def glue(ps):
    """neighbouring constants in one piece"""
    out = []
    for p in ps:
        if p[0] == 's' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + p[1])
        elif p != ('s', ''):
            out.append(tuple(p))
    return out


def show(ps):
    return ' '.join(repr(p[1]) if p[0] == 's' else short(p[1]) if p[0] == 'x' else '[for each of %s: %s]' % (
        short(p[1]), ' | '.join(show(list(a)) for f, a in p[3])) for p in ps)[:400] or 'nothing'
