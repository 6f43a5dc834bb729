"""The passes over the tokens that Lexer::new calls once the text is cut are interpreted one by one, the tokens an unknown list.
Every way round the loop of a pass - which token types and names it has seen before, at and behind the current token, what it
writes, where it goes on - is compared, for each token type and each word it admits, with a table of the words of XPath: which
name is an operator behind which token, which two names are one operator, which name in front of ( $ :: { is a keyword.  The
loop has to start at the first token, go on by one and stop at the end marker only.  The methods by which the parser moves over
the tokens are compared with what the analysis of the parser (Q03 to Q08) takes them for, and the parse functions of types
must have the word behind an occurrence indicator looked at again."""
from ..lex import *
from .. import mirai
from ..mirai import S, ladd, to_pred
from ..gram import Gram, Path
from ..fold import Folds
LEVEL = 'other'

# behind these an operand follows: a name is a name
OPERAND = frozenset('''EOF At ColonColon LeftParen LeftBracket Comma And Or Div IDiv Mod Slash SlashSlash Union Intersect Except
 InstanceOf TreatAs CastableAs CastAs Plus Minus ValueEQ ValueNE ValueGT ValueGE ValueLT ValueLE GeneralEQ GeneralNE GeneralGT
 GeneralGE GeneralLT GeneralLE IsSameNode To NodeBefore NodeAfter Asterisk Colon AsteriskColon BracedURILiteral Dollar Bind
 LeftCurly OperatorMap OperatorConcat Question'''.split())
OPS = {'and': 'And', 'or': 'Or', 'div': 'Div', 'mod': 'Mod', 'idiv': 'IDiv', 'eq': 'ValueEQ', 'ne': 'ValueNE', 'lt': 'ValueLT',
       'le': 'ValueLE', 'gt': 'ValueGT', 'ge': 'ValueGE', 'is': 'IsSameNode', 'to': 'To', 'union': 'Union',
       'intersect': 'Intersect', 'except': 'Except'}
PAIRS = {('instance', 'of'): 'InstanceOf', ('treat', 'as'): 'TreatAs', ('castable', 'as'): 'CastableAs', ('cast', 'as'): 'CastAs'}
TABLE = {}
for w, t in (('array', 'ArrayTest'), ('attribute', 'AttributeTest'), ('comment', 'CommentTest'), ('document-node', 'DocumentTest'),
             ('element', 'ElementTest'), ('empty-sequence', 'EmptySequence'), ('function', 'Function'), ('if', 'If'),
             ('item', 'Item'), ('map', 'MapTest'), ('namespace-node', 'NamespaceNodeTest'), ('node', 'AnyKindTest'),
             ('processing-instruction', 'PITest'), ('schema-attribute', 'SchemaAttributeTest'),
             ('schema-element', 'SchemaElementTest'), ('switch', 'Switch'), ('text', 'TextTest'), ('typeswitch', 'TypeSwitch')):
    TABLE[w, 'LeftParen'] = t
for w in 'for some every let'.split():
    TABLE[w, 'Dollar'] = w.capitalize()
for w in '''ancestor ancestor-or-self attribute child descendant descendant-or-self following following-sibling namespace parent
 preceding preceding-sibling self'''.split():
    TABLE[w, 'ColonColon'] = 'AxisName'
TABLE['map', 'LeftCurly'] = 'Map'
TABLE['array', 'LeftCurly'] = 'Array'
OTHER = '\0'


def words(prev, cur, name, nxt, nname, flag):
    """which name is an operator"""
    f = prev not in OPERAND or prev == 'Asterisk' and not flag
    return ({0: OPS[name]} if f and cur == 'InnerName' and name in OPS else {}), f


def pairs(prev, cur, name, nxt, nname, flag):
    if prev != 'Dollar' and cur == 'InnerName' and nxt == 'InnerName' and (name, nname) in PAIRS:
        return {0: PAIRS[name, nname], 1: 'Nop'}, None
    return {}, None


def table(prev, cur, name, nxt, nname, flag):
    if cur != 'InnerName':
        return {}, None
    return {0: TABLE.get((name, nxt), 'Name') if prev != 'Dollar' else 'Name'}, None


class Pass:
    def __init__(self, L, path):
        self.L, self.path, self.P = L, path, L.P
        self.I = Interp(L.P, budget=3000000)
        self.I.max_paths, self.I.max_unroll = 3000, 100
        self.rets = self.I.run(path)
        self.backs = [o for o in self.I.outs if o.kind == 'back']
        self.me = ('y', 'arg', 0, L.P.fns[path]['locals'][1]['name'])
        tk = [a for a in L.P.adts if a.endswith('lexer::Token')][0]
        self.ix = {g['name']: i for i, g in enumerate(L.P.adts[tk]['variants'][0]['fields'])}
        tt = [a for a in L.P.adts if a.endswith('lexer::TType')][0]
        self.types = [v['name'] for v in L.P.adts[tt]['variants']]
        self.fty = [i for i, g in enumerate(L.P.adts[tk]['variants'][0]['fields']) if g['ty'].endswith('TType')][0]
        self.fnm = 1 - self.fty
        self.fname = {self.fty: 0, self.fnm: 0}
        for n, i in self.ix.items():
            self.fname[i] = n
        self.key = None
        ks = {o.info[2] for o in self.backs}
        if len(ks) == 1:
            self.key = ks.pop()

    def only(self, v):
        """the fields of the lexer that differ from those it had"""
        if v == self.me or v is None:
            return {}
        if v[0] == 'U' and v[1] == self.me:
            return dict(v[2])
        return None

    def tokens(self, mem):
        d = self.only(mem.get(('S', self.me), self.me))
        if d is None or any(k not in (self.L.ftoks,) for k in d):
            raise Wrong('changes more of the lexer than its tokens')
        v = d.get(self.L.ftoks)
        if v is None:
            return ('y', 'fld', self.me, self.L.ftoks, [g['name'] for g in self.P.adts[self.L.lex]['variants'][0]['fields']][self.L.ftoks])
        return self.L.plain(v)

    def fld(self, W, at, i):
        return ('y', 'fld', ('y', 'elem', W, at), i, self.fname[i])

    def dom(self, st, t, all_):
        k = st.known.get(t)
        if k is not None:
            return [k[1] if isinstance(k, tuple) and k[0] == 's' else k]
        x = {e[1] if isinstance(e, tuple) and e[0] == 's' else e for e in st.excl.get(t, ())}
        return [v for v in all_ if v not in x]

    def unwrap(self, st, W, v, at):
        """the new list in terms of the old: {offset: type}"""
        out = {}
        v = self.L.plain(v)
        while v != W:
            if v[:2] == ('y', 'store'):
                _, _, l, i, x = v
                d = mirai.lsub(st.nl(i), st.nl(at))
                x = self.I.norm(st, x)
                if not isint(d) or d[2] or d[1] in out:
                    raise Wrong('writes at %s' % pp(i)[:80])
                if x[0] != 'U' or x[1] != ('y', 'elem', W, i) and self.I.norm(st, x[1]) != ('y', 'elem', W, st.nl(i)) or [k for k, _ in x[2]] != [self.fty]:
                    raise Wrong('writes %s' % pp(x)[:80])
                y = x[2][0][1]
                if y[0] != 'A':
                    raise Wrong('writes the type %s' % pp(y)[:80])
                out[d[1]] = y[3]
                v = self.L.plain(l)
                continue
            raise Wrong('makes %s of the tokens' % pp(v)[:80])
        return out

    def counter(self):
        """the current index at the head of the loop, as a term, and where it starts"""
        o = self.backs[0]
        gw, gs = o.st.aux[('gw', self.key)], o.st.aux[('gs', self.key)]
        out = []
        for c, w in gw.items():
            w2 = ints(w)
            s2 = ints(gs.get(c))
            out += [(a, b) for a, b in zip(w2, s2) if not isint(a) and isint(b)] if len(w2) == len(s2) else []
        return out

    def judge(self, spec, names, nnames, flags=False):
        """[what is wrong]"""
        if self.key is None or not self.backs or not self.rets:
            raise Wrong('is not one loop over the tokens')
        st0 = self.backs[0].st
        gw, gs = st0.aux[('gw', self.key)], st0.aux[('gs', self.key)]
        start = self.tokens(gs)
        W = self.tokens(gw)
        if start != self.tokens({}):
            raise Wrong('has changed tokens before it begins')
        cands = sorted({c for c in self.counter2(gw, gs) if c[1] in (I(0), I(1))}, key=repr)
        if not cands:
            raise Wrong('does not begin at the first token')
        whys = []
        for at, begin, moves, nth in cands:
            bad = [o for o in self.backs if o.st.nl(mirai.lsub(self.nth(self.I.norm(o.st, o.st.mem.get(moves, gw[moves])), nth), at)) != I(1)]
            if bad:
                whys.append('does not go on by one')
                continue
            at = at if begin == I(1) else ladd(at, I(1))
            polar = [(None, None)]
            if flags:
                polar = []
                # what the flag is at the beginning does not matter: nothing stands before the first token
                for c, w in gw.items():
                    if gs.get(c) in (mirai.TRUE, mirai.FALSE) and w != gs.get(c):
                        polar += [(c, False), (c, True)]
                if not polar:
                    raise Wrong('does not keep what stands before')
            for c, neg in polar:
                try:
                    why = self.compare(spec, names, nnames, W, at, gw, c, neg) or self.ends(W, at)
                except Wrong as e:
                    why = e.args[0]
                if not why:
                    return None
                whys.append(why)
        return whys[0]

    def ends(self, W, at):
        for o in self.rets:
            if self.tokens(o.st.mem) != W and self.tokens(o.st.mem) != self.tokens({}):
                return 'changes the tokens behind the loop'
            if o.st.known.get(self.fld(W, at, self.fty)) == 'EOF':
                continue
            # no round for the marker, or none left (a round writes tokens, and leaves as many as there were)
            if any(o.st.ent_le(mirai.lsub(mirai.sym('len', x, nonneg=True), ladd(at, I(1)))) for x in (W, self.tokens({}))):
                continue
            return 'stops in front of a token that is not the last'
        return None

    def compare(self, spec, names, nnames, W, at, gw, cell, neg):
        for o in self.backs:
            st = o.st
            t = {d: self.fld(W, ladd(at, I(d)) if d else at, self.fty) for d in (-1, 0, 1)}
            nm = {d: self.fld(W, ladd(at, I(d)) if d else at, self.fnm) for d in (0, 1)}
            wr = self.unwrap(st, W, self.tokens(st.mem), at)
            if cell is not None:
                was = st.ev(to_pred(gw[cell]))
                now = self.I.norm(st, st.mem.get(cell, gw[cell]))
                now = st.ev(to_pred(now)) if now not in (mirai.TRUE, mirai.FALSE) else now == mirai.TRUE
                same = self.I.norm(st, st.mem.get(cell, gw[cell])) == gw[cell]
                if now is None and not same:
                    raise Wrong('keeps %s of what stands before' % pp(st.mem[cell])[:80])
            else:
                was = now = None
                same = False
            for p in self.dom(st, t[-1], self.types):
                for c in self.dom(st, t[0], self.types):
                    if c == 'EOF':
                        continue
                    for n in self.dom(st, nm[0], names + [OTHER]) if c == 'InnerName' else [OTHER]:
                        for x in self.dom(st, t[1], self.types) if nnames is not None else [None]:
                            for y in self.dom(st, nm[1], nnames + [OTHER]) if nnames is not None and x == 'InnerName' else [OTHER]:
                                for b in ([None] if cell is None else [was] if was is not None else [True, False]):
                                    f = None if b is None else b != neg
                                    want, flag = spec(p, c, n, x, y, f)
                                    got = {d: k for d, k in wr.items() if k != {0: c, 1: x}.get(d)}
                                    want = {d: k for d, k in want.items() if k != {0: c, 1: x}.get(d)}
                                    if got != want:
                                        return self.tell(p, c, n, x, y, f, got, want)
                                    if cell is not None and ((b if same else now) != neg) != flag:
                                        return 'forgets, behind %s, whether an operand stands before' % p
        return None

    def tell(self, p, c, n, x, y, f, got, want):
        w = lambda t, nm: '%s %r' % (t, nm) if nm != OTHER else '%s' % t
        s = 'behind %s%s, %s%s' % (p, '' if f is None or p != 'Asterisk' else ' (a wildcard)' if f is False else ' (an operator)', w(c, n), '' if x is None else ' in front of ' + w(x, y))
        g = lambda d: ' and '.join(v for k, v in sorted(d.items())) or 'as it is'
        return '%s becomes %s and not %s' % (s, g(got), g(want))

    def drops(self):
        """None when exactly the Nop tokens are taken out, the others keep their order"""
        if self.key is None:
            raise Wrong('is not one loop over the tokens')
        st0 = self.backs[0].st
        gw, gs = st0.aux[('gw', self.key)], st0.aux[('gs', self.key)]
        W = self.tokens(gw)
        W0 = self.tokens({})
        n0 = mirai.sym('len', W0, nonneg=True)
        if W == W0:
            return self.keeps(gw, gs, W0, n0)
        cands = sorted({c for c in self.counter2(gw, gs)}, key=repr)
        whys = []
        for at, begin, cell, k in cands:
            why = None
            down = None
            for o in self.backs:
                st = o.st
                v = self.tokens(st.mem)
                d = mirai.lsub(st.nl(self.nth(self.I.norm(st, st.mem.get(cell, gw[cell])), k)), st.nl(at))
                if not isint(d):
                    why = 'goes on to %s' % pp(d)[:60]
                    break
                ty = self.dom(st, self.fld(W, at, self.fty), self.types)
                if v == W:
                    if 'Nop' in ty:
                        why = 'leaves a Nop'
                        break
                    step = d[1]
                    if step not in (1, -1):
                        why = 'goes on by %d' % step
                        break
                elif v[:2] == ('y', 'remove') and self.L.plain(v[2]) == W and st.nl(v[3]) == st.nl(at):
                    if ty != ['Nop']:
                        why = 'takes a %s out' % ty[0]
                        break
                    step = {0: 1, -1: -1}.get(d[1])
                    if step is None:
                        why = 'goes on by %d behind a Nop' % d[1]
                        break
                else:
                    why = 'makes %s of the tokens' % pp(v)[:80]
                    break
                if down is not None and down != step:
                    why = 'goes to and fro'
                    break
                down = step
            if why is None and down is not None:
                for o in self.rets:
                    if self.tokens(o.st.mem) not in (W, W0):
                        why = 'changes the tokens behind the loop'
                if down == 1 and begin not in (I(0), I(1)) or down == -1 and begin not in (mirai.lsub(n0, I(1)), mirai.lsub(n0, I(2))):
                    why = 'does not begin at the end of the tokens'
                for o in self.rets:
                    nW = mirai.sym('len', W, nonneg=True)
                    if not why and down == 1 and not o.st.ent_le(mirai.lsub(nW, ladd(at, I(1)))) and o.st.known.get(self.fld(W, at, self.fty)) != 'EOF':
                        why = 'stops before the last token'
                    if not why and down == -1 and not o.st.ent_le(at):
                        why = 'stops before the first token'
                if not why:
                    return None
            whys.append(why or 'has no rounds')
        if not whys:
            raise Wrong('is not one loop over the tokens')
        return whys[0]

    def keeps(self, gw, gs, W0, n0):
        """the same, into a new list"""
        whys = []
        at = [a for a, b in self.counter() if b == I(0)]
        for c, w in gw.items():
            g = gs.get(c)
            if g is None or g[0] != 'V' or g[1] != I(0) or w[0] != 'V':
                continue
            for x in at:
                why = None
                for o in self.backs:
                    ty = self.dom(o.st, self.fld(W0, x, self.fty), self.types)
                    v = self.L.plain(o.st.mem.get(c, w))
                    if v == self.L.plain(w):
                        if ty != ['Nop']:
                            why = 'leaves a %s out' % ty[0]
                    elif v[:2] == ('y', 'snoc') and self.L.plain(v[2]) == self.L.plain(w) and self.I.norm(o.st, v[3]) == ('y', 'elem', W0, x):
                        if 'Nop' in ty:
                            why = 'keeps a Nop'
                    else:
                        why = 'makes %s of the tokens' % pp(v)[:80]
                for o in self.rets:
                    if self.tokens(o.st.mem) != self.L.plain(w):
                        why = why or 'does not keep the tokens'
                    if not o.st.ent_le(mirai.lsub(n0, x)):
                        why = why or 'stops before the last token'
                if not why:
                    return None
                whys.append(why)
        return whys[0] if whys else 'is not one loop over the tokens'

    def nth(self, v, k):
        xs = ints(v)
        return xs[k] if k < len(xs) else ('y', 'none')

    def counter2(self, gw, gs):
        out = []
        for c, w in gw.items():
            a, b = ints(w), ints(gs.get(c))
            if len(a) == len(b):
                out += [(x, y, c, k) for k, (x, y) in enumerate(zip(a, b)) if x != y and not isint(x)]
        return out


def ints(v):
    """the numbers in a value"""
    if v is None:
        return []
    if v[0] == 'i' or v[:2] in (('y', 'N'), ('y', 'w'), ('y', 'len')):
        return [v]
    if v[0] == 'A':
        return [x for f in v[4] for x in ints(f)]
    if v[0] == 'T':
        return [x for f in v[1] for x in ints(f)]
    if v[0] == 'it':
        if v[1] == 'rrange':
            return ints(v[2]) + ([ladd(v[3], I(-1))] if v[3][0] in 'iy' else [])
        return [x for f in v[2:] if isinstance(f, tuple) and f and isinstance(f[0], str) for x in ints(f)]
    return []


def called(L):
    """the passes in the order in which a new lexer runs them, and None or what is wrong"""
    orders = set()
    for o in L.rets:
        v = o.val
        if v[0] == 'A' and v[3] == 'Err' or o.st.known.get(v) == 'Err':
            continue
        orders.add(tuple(e[1] for e in o.st.events() if e[0] == 'call' and e[1] in L.leaves))
    return orders


def cursor(ctx, L):
    """the methods by which the parser moves"""
    fs = [g['name'] for g in L.P.adts[L.lex]['variants'][0]['fields']]
    me = lambda p: ('y', 'arg', 0, L.P.fns[p]['locals'][1]['name'])

    def fld(p, i):
        return ('y', 'fld', me(p), i, fs[i])
    # which number is the index of the token: next_token reads it
    nxt = L.lex + '::next_token'
    I_ = Interp(L.P, budget=100000)
    ix = None
    for o in I_.run(nxt):
        v = I_.norm(o.st, o.val)
        cand = [i for i in L.fnums if v == ('y', 'elem', fld(nxt, L.ftoks), fld(nxt, i))]
        if not ctx.check(len(cand) == 1, 'the next token', 'gives %s and not the token at the position' % pp(v)[:100], nxt):
            return
        ix = cand[0]
    ctx.saw(nxt)

    def rets(name):
        p = L.lex + '::' + name
        I_ = Interp(L.P, budget=100000)
        out = []
        ctx.saw(p)
        for o in I_.run(p):
            v = o.st.mem.get(('S', me(p)), me(p))
            d = {} if v == me(p) else dict(v[2]) if v[0] == 'U' and v[1] == me(p) else None
            out.append((p, I_, o, d))
        ctx.check(bool(out), name, 'never returns', p)
        return out
    for p, I_, o, d in rets('get_token'):
        i = fld(p, ix)
        v = I_.norm(o.st, o.val)
        ok = d is not None and set(d) <= {ix} and v == ('y', 'elem', fld(p, L.ftoks), i)
        n = mirai.sym('len', fld(p, L.ftoks), nonneg=True)
        if ok:
            j = mirai.lsub(d.get(ix, i), i)
            ok = o.st.nl(j) == I(1) or o.st.ent_le(j) and o.st.ent_le(mirai.lsub(I(0), j)) and o.st.ent_le(mirai.lsub(n, mirai.ladd(i, I(1))))
        ctx.check(ok, 'taking a token', 'does not give the token at the position and move on by one (%s)' % pstate(o.st)[:100], p)
    if L.lex + '::unget_token' in L.P.fns:
        for p, I_, o, d in rets('unget_token'):
            i = fld(p, ix)
            ok = d is not None and set(d) <= {ix}
            if ok:
                j = mirai.lsub(i, d.get(ix, i))
                ok = o.st.nl(j) == I(1) or d.get(ix) == I(0) and o.st.ent_le(mirai.lsub(i, I(1))) or \
                    o.st.ent_le(i) and o.st.ent_le(j) and o.st.ent_le(mirai.lsub(I(0), j))
            ctx.check(ok, 'putting a token back', 'does not move back by one (%s)' % pstate(o.st)[:100], p)
    mark = None
    if L.lex + '::mark_token_index' in L.P.fns:
        for p, I_, o, d in rets('mark_token_index'):
            ok = d is not None and len(d) == 1 and ix not in d and list(d.values())[0] == fld(p, ix) and list(d)[0] in L.fnums and list(d)[0] != L.fpos
            ctx.check(ok, 'marking a place', 'does not keep the position', p)
            mark = list(d)[0] if d else None
        for p, I_, o, d in rets('restore_marked_index'):
            ok = d is not None and mark is not None and d == {ix: fld(p, mark)}
            ctx.check(ok, 'going back to the mark', 'does not go back to the place that was marked', p)
    # a new lexer stands at the first token
    for o in L.rets:
        if o.val[0] == 'A' and o.val[3] == 'Ok':
            v = o.val[4][0]
            at = None
            while v[0] in ('U', 'y') and at is None:
                if v[0] == 'U':
                    at = dict(v[2]).get(ix)
                    v = v[1]
                elif v[1] == 'hv':
                    v = v[4][0] if isinstance(v[4], tuple) and v[4] else ('y', 'none', '')
                else:
                    break
            got = at if at is not None else v[4][ix] if v[0] == 'A' and v[1] == L.lex else None
            ctx.check(got == I(1), 'the first token', 'a new lexer stands at %s' % (pp(got)[:60] if got else 'a place that is not known'), L.new)
    return ix


def reword(ctx, G, L, ix):
    """the word behind an occurrence indicator"""
    P = L.P
    rs = G.retypers()
    fs = [g['name'] for g in P.adts[L.lex]['variants'][0]['fields']]
    for p in rs:
        ctx.saw(p)
        me = ('y', 'arg', 0, P.fns[p]['locals'][1]['name'])
        toks = ('y', 'fld', me, L.ftoks, fs[L.ftoks])
        at = ('y', 'fld', me, ix, fs[ix])
        x = Pass(L, p)
        seen = 0
        for o in x.rets:
            seen += 1
            v = o.st.mem.get(('S', me), me)
            try:
                wr = x.unwrap(o.st, toks, x.tokens(o.st.mem), at)
                for c in x.dom(o.st, x.fld(toks, at, x.fty), x.types):
                    for n in x.dom(o.st, x.fld(toks, at, x.fnm), list(OPS) + [OTHER]):
                        want = {0: OPS[n]} if c == 'Name' and n in OPS else {}
                        got = {d: k for d, k in wr.items() if not (d == 0 and k == c)}
                        if got != want:
                            raise Wrong('a %s %r becomes %s and not %s' % (c, n if n != OTHER else 'x', ' and '.join(got.values()) or 'as it is', want.get(0, 'as it is')))
                ctx.check(True, 'a word looked at again', '', p)
            except Wrong as e:
                ctx.check(False, 'a word looked at again', e.args[0], p)
                break
        ctx.check(seen > 0, 'a word looked at again: some way', 'never returns', p)
    OCC = ('Question', 'Asterisk', 'Plus')
    need = 0
    from ..grammar import LEAVES
    for name in ('parse_sequence_type', 'parse_single_type'):
        if name not in G.parsers:
            raise AnalysisError('no %s' % name)
        ls = [l if l.startswith('parse_') else 'parse_' + l for l in LEAVES]
        ls = [l for l in ls if l != name]
        I_ = G.run(name, ls)
        F = Folds(I_)
        ctx.saw(*[f for f in I_.entered if f in P.fns])
        for o in I_.rets:
            pa = Path(G, I_, F, o, [], [])
            if pa.outcome()[0] != 'ok' or not pa.items:
                continue
            p, it = pa.items[-1]
            if it != ('tok',):
                continue
            k = pa.st.known.get(pa.ttype(p))
            may = [t for t in OCC if k == t or k is None and t not in pa.st.excl.get(pa.ttype(p), ())]
            if not may:
                continue
            need += 1
            done = any(e[0] == 'word' and e[1] == pa.end for e in o.st.events())
            ctx.check(done, 'the word behind a type: ' + name, 'behind %s the word is left as it is' % ' '.join(may), G.parsers[name])
    ctx.floor('types with an occurrence indicator', need, 2)
    return rs


def run(ctx):
    L = LexRun(ctx.P)
    ctx.rule('a word is an operator, a keyword or a name by what stands around it; the parser is given the tokens in order')
    ctx.saw(L.new)
    orders = called(L)
    ctx.check(len(orders) == 1, 'the passes', 'there are %d orders of the passes over the tokens' % len(orders), L.new)
    order = sorted(orders)[0] if orders else ()
    todo = [('operators', lambda x: x.judge(words, sorted(OPS), None, True)),
            ('operators of two words', lambda x: x.judge(pairs, sorted({a for a, b in PAIRS}), sorted({b for a, b in PAIRS}))),
            ('emptied tokens', lambda x: x.drops()),
            ('keywords', lambda x: x.judge(table, sorted({a for a, b in TABLE}), []))]
    ctx.check(len(order) == len(todo), 'the passes: all of them', '%d passes run over the tokens and not %d' % (len(order), len(todo)), L.new)
    rounds = 0
    for p, (what, f) in zip(order, todo):
        x = Pass(L, p)
        rounds += len(x.backs)
        ctx.saw(*[q for q in x.I.entered if q in ctx.P.fns])
        try:
            why = f(x)
        except Wrong as e:
            why = e.args[0]
        ctx.check(why is None, what, why or '', p)
    ctx.floor('ways round the passes', rounds, 60)
    ix = cursor(ctx, L)
    if ix is not None:
        reword(ctx, Gram(ctx.P), L, ix)
