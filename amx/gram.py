"""The parser of expressions read as a grammar.

Every parse function is interpreted abstractly with the lexer as a position in an unknown sequence of tokens: looking at
a token gives facts about the token at that position, taking it moves the position on, and a call of another parse
function is one step whose outcome is an error, nothing (the position stays), or a tree (the position moves past it).
Each path then is a sequence of steps with the tree it returns, and is compared with a production of the reference
grammar, which is written as a recognizer that asks the same questions."""
from .lib import *
from . import mirai
from .mirai import S, ok, err, to_pred, lsub
from .fold import Folds, follow, locate
from .ev import Ev

START = ('y', 'start')
NIL = ('nil',)


class Mismatch(Exception):
    pass


class Refuse(Exception):
    """the reference refuses the input here"""


class Gram:
    def __init__(self, P):
        self.P = P
        self.V = Ev(P)
        lx = [a for a in P.adts if a.endswith('lexer::Lexer')]
        tk = [a for a in P.adts if a.endswith('lexer::Token')]
        tt = [a for a in P.adts if a.endswith('lexer::TType')]
        if not lx or not tk or not tt:
            raise AnalysisError('no lexer::Lexer, Token or TType')
        self.tfields = {g['name']: i for i, g in enumerate(P.adts[tk[0]]['variants'][0]['fields'])}
        self.ttypes = [v['name'] for v in P.adts[tt[0]]['variants']]
        self.node_adt = [a for a in P.adts if a.endswith('parser::XNode')][0]
        self.ptr_adt = [a for a in P.adts if a.endswith('parser::XNodePtr')][0]
        self.lexty = lx[0]
        self.parsers = {}
        for p, f in P.fns.items():
            if f.get('std') or f['kind'] != 'fn' or not f['argc']:
                continue
            ty = f['locals'][1]['ty']
            r = f['locals'][0]['ty']
            if ty.startswith('&') and 'mut ' in ty and ty.endswith('Lexer') and '::Lexer::' not in p and 'Result' in r and \
                    ('XNodePtr' in r or 'String' in r):
                self.parsers[p.rsplit('::', 1)[-1]] = p
        self.odd = {}
        self.backsteps = 0
        self.models = self.lexer_models()
        self.markers = {p for p in P.fns if p.startswith(self.lexty + '::') and p.rsplit('::', 1)[-1] == 'mark_token_index'}
        self.entered = set()
        self.obl = {}

    # ---- the lexer ----------------------------------------------------------------------------------------------------
    @staticmethod
    def pos(I_, st, a):
        return st.mem.get(('S', a), a) if a[0] != 'ref' else I_.norm(st, a)

    @staticmethod
    def setpos(I_, st, a, v):
        if a[0] == 'ref':
            I_.wr(st, a[1], a[2], v)
        else:
            st.mem[('S', a)] = v

    def lexer_models(self):
        pos, setpos = self.pos, self.setpos

        def m_next(I_, st, a, fr, site, t, dty, g):
            return [(st, ('y', 'tok', pos(I_, st, a[0])))]

        def m_get(I_, st, a, fr, site, t, dty, g):
            p = pos(I_, st, a[0])
            setpos(I_, st, a[0], ('y', 'adv', p, ('tok',)))
            return [(st, ('y', 'tok', p))]

        def m_unget(I_, st, a, fr, site, t, dty, g):
            p = pos(I_, st, a[0])
            k = ('y', 'fld', ('y', 'tok', p[2]), self.tfields['t_type'], 't_type') if p[:2] == ('y', 'adv') else None
            self.backsteps += 1
            # taking the end marker does not move: putting it back would lose a token
            if k is not None and (st.known.get(k) == 'EOF' or k not in st.known and 'EOF' not in st.excl.get(k, ())):
                self.odd[fr.fn['path']] = 'puts back a token that may be the end'
            setpos(I_, st, a[0], p[2] if p[:2] == ('y', 'adv') and p[3] == ('tok',) else ('y', 'unget', p))
            return [(st, mirai.UNIT)]

        def m_mark(I_, st, a, fr, site, t, dty, g):
            st.aux[('mark', '')] = pos(I_, st, a[0])
            st.add(('mark',))
            return [(st, mirai.UNIT)]

        def m_restore(I_, st, a, fr, site, t, dty, g):
            setpos(I_, st, a[0], st.aux.get(('mark', ''), ('y', 'nomark')))
            self.backsteps += 1
            for e in reversed(list(st.events())):
                if e[0] == 'mark':
                    break
                if e[0] == 'call' and e[1] in self.P.fns and self.markers & set(self.P.reachable([e[1]])):
                    self.odd[fr.fn['path']] = 'goes back to a mark that %s may have moved' % e[1].rsplit('::', 1)[-1]
            return [(st, mirai.UNIT)]
        out = {}
        for n, m in (('next_token', m_next), ('get_token', m_get), ('unget_token', m_unget), ('mark_token_index', m_mark), ('restore_marked_index', m_restore)):
            out[self.lexty + '::' + n] = m

        def m_word(I_, st, a, fr, site, t, dty, g):
            st.add(('word', pos(I_, st, a[0])))
            return [(st, mirai.UNIT)]
        for p in self.retypers():
            out[p] = m_word
        return out

    def retypers(self):
        """methods of the lexer that leave the position where it is and change what a token is taken for"""
        return [p for p in sorted(self.P.fns) if p.startswith(self.lexty + '::') and self.keeps(p)]

    def keeps(self, p):
        f = self.P.fns[p]
        if f['argc'] != 1 or f['locals'][0]['ty'] != '()' or 'mut ' not in f['locals'][1]['ty'] or p in self.called_by_lexer():
            return False
        I_ = Interp(self.P, budget=20000)
        rets = I_.run(p)
        me = ('y', 'arg', 0, f['locals'][1]['name'])
        for o in rets:
            v = o.st.mem.get(('S', me), me)
            i = [k for k, g in enumerate(self.P.adts[self.lexty]['variants'][0]['fields']) if g['ty'] == 'usize']
            if v != me and not (v[0] == 'U' and v[1] == me and not any(k in dict(v[2]) for k in i)):
                return False
        return bool(rets)

    def called_by_lexer(self):
        if not hasattr(self, 'inner'):
            self.inner = set()
            for p, f in self.P.fns.items():
                if p.startswith(self.lexty + '::'):
                    self.inner |= {g['path'] for g, t in self.P.calls(f) if g}
        return self.inner

    # ---- the calls of other parse functions ---------------------------------------------------------------------------
    def call(self, name, pos, extra=()):
        path = self.parsers[name]
        return mirai.sym('call', path, (pos,) + tuple(extra), ty=self.P.fns[path]['locals'][0]['ty'])

    def payload(self, c):
        return ('y', 'vf', c, 'Ok', 0)

    def leaf(self, name, wraps):
        path = self.parsers[name]
        text = 'XNodePtr' not in self.P.fns[path]['locals'][0]['ty']

        def m(I_, st, a, fr, site, t, dty, g):
            p = self.pos(I_, st, a[0])
            extra = tuple(I_.own(st, x) for x in a[1:])
            c = self.call(name, p, extra)
            x = self.payload(c)
            on = ('y', 'adv', p, ('nt', name, c))
            st.add(('call', path, c[3], c, self.P.short(t.get('sp')), fr.fn['path']))
            been = st.aux.get(('nt', c))
            out = []
            for s in (['Err', 'nil', 'ok'] if been is None else [been]):
                s2 = st.fork()
                s2.aux[('nt', c)] = s
                s2.known[c] = 'Err' if s == 'Err' else 'Ok'
                if s == 'Err':
                    out.append((s2, err(('y', 'vf', c, 'Err', 0))))
                    continue
                if s == 'ok' or wraps:
                    self.setpos(I_, s2, a[0], on)
                if text:
                    if s == 'ok':
                        s2.excl[x] = s2.excl.get(x, frozenset()) | {S('')}
                        out.append((s2, ok(x)))
                    else:
                        out.append((s2, ok(S(''))))
                else:
                    k = self.V.fld(x, 'n_type')
                    if s == 'ok':
                        s2.excl[k] = s2.excl.get(k, frozenset()) | {'Nil'}
                    else:
                        s2.known[k] = 'Nil'
                    out.append((s2, ok(x)))
            return out
        return m

    def run(self, name, leaves, wraps=(), extra=(), budget=300000, paths=2000, more=None):
        """every path of the parse function, the calls of the leaves being steps"""
        m = dict(self.models)
        for l in leaves:
            if l in self.parsers:
                m[self.parsers[l]] = self.leaf(l, l in wraps)
        m.update(more or {})
        L = set()
        for x in ('Lexer::around_tokens', 'check_function_spec'):
            try:
                L.add(self.P.find(x))
            except AnalysisError:
                pass
        path = self.parsers[name]
        I_ = Interp(self.P, leaves=L, models=m, budget=budget)
        I_.max_paths = paths
        f = self.P.fns[path]
        lex = ('y', 'arg', 0, f['locals'][1]['name'])
        st = mirai.State()
        st.mem[('S', lex)] = START
        I_.lex = lex
        I_.rets = I_.run(path, [lex] + list(extra), st=st)
        I_.backs = [o for o in I_.outs if o.kind == 'back']
        self.entered |= I_.entered
        for k, v in I_.obl.items():
            self.obl[k] = v
        return I_

    def check(self, name, spec, leaves, wraps=(), extra=(), **kw):
        """[(what differs, path)] of the parse function against its production, and the number of paths"""
        I_ = self.run('parse_' + name, ['parse_' + l for l in leaves], ['parse_' + w for w in wraps], extra, **kw)
        F = Folds(I_)
        bad = []
        n = 0
        for o in I_.rets:
            for what in Path(self, I_, F, o, leaves, wraps, extra).judge(spec):
                bad.append((what, o))
            n += 1
        if not I_.rets:
            bad.append(('never returns', None))
        return bad, n + len(I_.backs), I_


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Path:
    """one way through a parse function"""

    def __init__(self, G, I_, F, o, leaves, wraps, args=()):
        self.args = args
        self.G, self.I, self.F, self.o, self.st = G, I_, F, o, o.st
        self.leaves, self.wraps = leaves, wraps
        self.cell = ('S', I_.lex)
        self.end = G.pos(I_, o.st, I_.lex)
        self.items = self.unwind(self.end)

    def unwind(self, p):
        out = []
        while p != START:
            if p[:2] == ('y', 'adv'):
                out.append((p[2], p[3]))
                p = p[2]
                continue
            for k, w in self.st.aux.items():
                if k[0] == 'gw' and w.get(self.cell) == p:
                    out.append((p, ('loop', k[1])))
                    p = self.st.aux[('gs', k[1])][self.cell]
                    break
            else:
                raise Mismatch('goes back to a place it has no mark for')
        return out[::-1]

    def norm(self, v):
        return self.I.norm(self.st, v)

    def outcome(self):
        """('ok', value) or ('err',)"""
        v = self.norm(self.o.val)
        if v[0] == 'A' and v[3] in ('Ok', 'Err'):
            return ('ok', v[4][0]) if v[3] == 'Ok' else ('err',)
        s = self.st.known.get(v)
        if s == 'Err':
            return ('err',)
        if s == 'Ok':
            return ('ok', self.norm(('y', 'vf', v, 'Ok', 0)))
        raise Mismatch('returns %s' % pp(v)[:200])

    def runs(self, spec, start=0, pos=START):
        """(cursor, result or Refuse) for every way of settling what the path has not looked at"""
        todo = [{}]
        while todo:
            dec = todo.pop()
            if len(dec) > 12:
                raise Mismatch('leaves too much open')
            c = Cur(self, dec, start, pos)
            try:
                yield c, spec(c)
            except Refuse as e:
                yield c, e
            except Undecided as e:
                todo += [{**dec, e.args[0]: b} for b in (True, False)]
            except Infeasible:
                pass

    def judge(self, spec):
        bad = set()
        if self.unnamed():
            return []
        try:
            out = self.outcome()
            for c, r in self.runs(spec):
                if isinstance(r, Refuse):
                    if out[0] == 'ok':
                        bad.add('is accepted although %s' % r.args[0])
                elif out[0] == 'err':
                    if not c.late:
                        bad.add('is refused although nothing is wrong')
                    else:
                        bad.add('is refused although it may go on well')
                else:
                    why = c.loose or self.left(c) or self.cmp(out[1], r)
                    if why:
                        bad.add(why)
        except Mismatch as e:
            bad.add(e.args[0])
        return sorted(bad)

    def unnamed(self):
        """a token other than a string literal has a text: paths that see an empty one are none of the lexer's"""
        def bare(x):
            return x[:2] == ('y', 'fld') and x[4] == 'name' and x[2][:2] == ('y', 'tok') and self.st.known.get(self.ttype(x[2][2])) in ('Name', 'BracedURILiteral')
        if any(v == S('') and bare(t) for t, v in self.st.known.items() if t[0] == 'y'):
            return True
        for e, v in self.st.eqs.items():
            if e[0] == 'eqv' and v is True and S('') in e[1:]:
                x = [y for y in e[1:] if y != S('')]
                if x and x[0][0] == 'cat' and any(q[0] == 's' or q[0] == 'v' and bare(q[1]) for q in x[0][1]):
                    return True
        return False

    def left(self, c):
        if c.i < len(self.items):
            return 'reads %s beyond the end' % self.item(self.items[c.i])

    def item(self, it):
        p, x = it
        if x == ('tok',):
            return 'the token %s' % (self.st.known.get(self.ttype(p)) or '')
        return 'a ' + x[1][6:] if x[0] == 'nt' else 'a repetition'

    def ttype(self, p):
        return ('y', 'fld', ('y', 'tok', p), self.G.tfields['t_type'], 't_type')

    def tname(self, p):
        return ('y', 'fld', ('y', 'tok', p), self.G.tfields['name'], 'name')

    # ---- trees --------------------------------------------------------------------------------------------------------
    def view(self, v):
        """(kind, name, left, right) of a node that was made here"""
        v = self.norm(v)
        if v[0] == 'A' and v[1] == self.G.ptr_adt:
            v = v[4][0]
        if v[0] == 'A' and v[1] == self.G.node_adt:
            f = self.G.V.fields
            return tuple(v[4][f[x]] for x in ('n_type', 'name', 'left', 'right'))
        return None

    def cmp(self, v, t):
        """None, or how the value differs from the tree"""
        v = self.norm(v)
        if isinstance(t, str):
            return None if v == S(t) else 'gives %s and not %r' % (pp(v)[:100], t)
        if t[0] == 'text':
            return None if v == self.norm(t[1]) else 'gives %s and not %s' % (pp(v)[:100], pp(t[1])[:100])
        if t == NIL:
            w = self.view(v)
            if w is not None:
                return None if w[0][0] == 'A' and w[0][3] == 'Nil' else 'gives a %s and not nothing' % self.kind(w)
            return None if self.st.known.get(self.G.V.fld(v, 'n_type')) == 'Nil' else 'gives %s and not nothing' % pp(v)[:100]
        if t[0] == 'nt':
            return None if v == self.norm(self.G.payload(t[1])) else 'gives %s and not what the %s gave' % (self.say(v), t[1][2].rsplit('::', 1)[-1][6:])
        if t[0] == 'acc':
            return None if v == self.norm(t[1]) or (not t[3] and self.cmp(v, t[2]) is None) else 'gives %s and not what was read so far' % self.say(v)
        if t[0] == 'any':
            return None if v == self.norm(t[1]) else 'gives %s and not %s' % (self.say(v), pp(t[1])[:100])
        if t[0] == 'chain':
            return self.cmp_chain(v, t)
        _, kind, name, left, right = t
        w = self.view(v)
        if w is None:
            return 'gives %s and not a %s' % (self.say(v), kind)
        if w[0][0] != 'A' or w[0][3] != kind:
            return 'gives a %s and not a %s' % (self.kind(w), kind)
        if name is not None:
            n = self.norm(w[1])
            if n != (S(name) if isinstance(name, str) else self.norm(name)):
                return 'gives a %s of the name %s' % (kind, pp(n)[:100])
        return self.side(w[2], left, 'left of the ' + kind) or self.side(w[3], right, 'right of the ' + kind)

    def kind(self, w):
        return w[0][3] if w[0][0] == 'A' else pp(w[0])[:60]

    def say(self, v):
        w = self.view(v)
        return 'a ' + self.kind(w) if w is not None else pp(v)[:100]

    def side(self, v, t, where):
        v = self.norm(v)
        if t == NIL:
            if v == mirai.NONE or self.st.known.get(v) == 'None':
                return None
            return 'has something on the ' + where
        if t == ('whatever',):
            return None
        if v[0] == 'A' and v[3] == 'Some':
            why = self.cmp(v[4][0], t)
            return why and '%s: %s' % (where, why)
        return 'has nothing on the ' + where if v == mirai.NONE else 'has %s on the %s' % (pp(v)[:100], where)

    def rightof(self, v):
        """what the node behind the value has on the right"""
        w = self.view(v)
        if w is not None:
            return w[3]
        i = self.G.V.fields['right']
        v = self.norm(v)
        if v[0] == 'A' and v[1] == self.G.ptr_adt:
            v = v[4][0]
        elif v[0] == 'y':
            v = self.norm(('y', 'fld', v, 0, self.G.V.ptrfield))
        if v[0] == 'U' and i in dict(v[2]):
            return dict(v[2])[i]
        return ('y', 'fld', v, i, 'right')

    def head(self, v, t):
        """like cmp, the right side aside"""
        if t[0] == 'n':
            return self.cmp(v, t[:4] + (('whatever',),))
        v = self.norm(v)
        if v[0] == 'A' and v[1] == self.G.ptr_adt:
            v = v[4][0]
        elif v[0] == 'y':
            v = self.norm(('y', 'fld', v, 0, self.G.V.ptrfield))
        if v[0] == 'U':
            v = v[1]
        want = ('y', 'fld', self.G.payload(t[1]), 0, self.G.V.ptrfield) if t[0] == 'nt' else None
        return None if v == want else 'begins with %s' % pp(v)[:100]

    def nest(self, xs):
        """the trees linked by their right sides"""
        r = NIL
        for x in reversed(xs):
            if x[0] == 'n':
                r = x[:4] + (r,)
            elif r == NIL:
                r = x
            else:
                r = ('linked', x, r)
        return r

    def linked(self, v, xs, where):
        """None when the Option v begins a chain of these trees"""
        v = self.norm(v)
        if not xs:
            return None if v == mirai.NONE or v[0] == 'y' and self.st.known.get(v) == 'None' else 'has something on the right of %s' % where
        if v[0] != 'A' or v[3] != 'Some':
            return 'has nothing on the right of %s' % where
        x = xs[0]
        if x[0] == 'nt' and len(xs) == 1:
            return self.cmp(v[4][0], x)
        return self.head(v[4][0], x) or self.linked(self.rightof(v[4][0]), xs[1:], 'the next')

    def cmp_chain(self, v, t):
        _, root, key, pre, post, ws = t
        why = self.head(v, root)
        if why:
            return why
        r = self.norm(self.rightof(v))
        for x in pre if key is not None else ():
            if r[0] != 'A' or r[3] != 'Some':
                return 'has nothing on the right'
            why = self.head(r[4][0], x)
            if why:
                return why
            r = self.norm(self.rightof(r[4][0]))
        if key is None:
            return self.linked(r, list(pre) + list(post), 'the first')
        if r[0] != 'y' or not any(locate(x, r) is not None for x in self.st.aux[('gw', key)].values()):
            return 'the list does not begin on the right of the first: %s' % pp(r)[:80]
        if post:
            return self.linked(self.rightof(ws), post, 'the last')
        return None


class Cur:
    """the reference's view of one path"""

    def __init__(self, path, dec, i, pos):
        self.p, self.dec, self.i, self.pos = path, dec, i, pos
        self.late = False
        self.loose = None

    # ---- questions ----------------------------------------------------------------------------------------------------
    def ask(self, key, v):
        if v is not None:
            return v
        if key in self.dec:
            return self.dec[key]
        raise Undecided(key)

    def over(self):
        """the path has given up before this point"""
        return self.late or self.i >= len(self.p.items) and self.p.o.kind == 'ret' and self.p.outcome()[0] == 'err'

    def known(self, T, name=None):
        st, t = self.p.st, self.p.ttype(self.pos)
        k = st.known.get(t)
        if k is not None:
            r = k == T
        else:
            r = False if T in st.excl.get(t, ()) else None
        if name is None or r is False:
            return r
        s = ('eqv',) + tuple(sorted((self.p.tname(self.pos), S(name)), key=repr))
        e = st.eqs.get(s)
        if e is None:
            k = st.known.get(self.p.tname(self.pos))
            if k is not None:
                e = k == S(name)
            elif S(name) in st.excl.get(self.p.tname(self.pos), ()):
                e = False
        if e is False:
            return False
        return r if e else None

    def at(self, T, name=None):
        v = self.known(T, name)
        if v is None and self.late:
            return False
        return self.ask(('at', self.pos, T, name), v)

    def which(self, Ts):
        st, t = self.p.st, self.p.ttype(self.pos)
        for T in Ts:
            if self.at(T):
                return T
        return None

    def opt(self, T, name=None):
        if self.at(T, name):
            self.consume(T)
            return True
        return False

    def take(self, T, name=None):
        """takes the token, or refuses"""
        v = self.known(T, name)
        if v is None and self.late:
            v = True
        if not self.ask(('at', self.pos, T, name), v):
            raise Refuse('no %s is there' % (name or T))
        p = self.pos
        self.consume(T)
        return p

    def consume(self, T):
        its = self.p.items
        if self.i < len(its) and its[self.i] == (self.pos, ('tok',)):
            self.i += 1
        else:
            if self.over():
                self.late = True
            elif self.i >= len(its) and self.p.o.kind == 'back':
                raise Mismatch('does not take the %s' % T)
            self.loose = self.loose or 'does not take the %s' % T
        self.pos = ('y', 'adv', self.pos, ('tok',))

    def name(self, pos):
        return self.p.tname(pos)

    # ---- other parse functions ----------------------------------------------------------------------------------------
    def nt(self, name, extra=None):
        """the tree of another production (NIL when it does not apply)"""
        G, st = self.p.G, self.p.st
        if name not in self.p.leaves or 'parse_' + name not in G.parsers:
            return SPECS[name](self) if extra is None else SPECS[name](self, *extra)
        path = G.parsers['parse_' + name]
        for k, s in st.aux.items():
            if k[0] == 'nt' and k[1][2] == path and k[1][3][0] == self.pos:
                c = k[1]
                break
        else:
            if self.over():
                self.late = True
                c = G.call('parse_' + name, self.pos)
                self.pos = ('y', 'adv', self.pos, ('nt', 'parse_' + name, c))
                return ('nt', c)
            raise Mismatch('does not read the %s' % name)
        if extra is not None:
            got = tuple(self.p.norm(x) for x in c[3][1:])
            if got != tuple(S(x) if isinstance(x, str) else x for x in extra):
                raise Mismatch('reads the %s with %s' % (name, ', '.join(pp(x)[:60] for x in got)))
        if s == 'Err':
            raise Refuse('the %s is malformed' % name)
        if s == 'ok' or name in self.p.wraps:
            its = self.p.items
            if self.i >= len(its) or its[self.i] != (self.pos, ('nt', 'parse_' + name, c)):
                self.loose = self.loose or 'drops the %s' % name
            else:
                self.i += 1
            self.pos = ('y', 'adv', self.pos, ('nt', 'parse_' + name, c))
        return ('nt', c) if s == 'ok' else NIL

    def must(self, name, extra=None):
        x = self.nt(name, extra)
        if self.isnil(x):
            raise Refuse('no %s is there' % name)
        return x

    def text(self, name, *extra):
        """the name a production gives, as a term, or None"""
        x = self.nt(name, extra or None)
        if x == NIL or x == '':
            return None
        return x[1] if x[0] == 'text' else self.p.G.payload(x[1])

    def isnil(self, x):
        if x == NIL:
            return True
        if x[0] == 'acc':
            k = self.p.G.V.fld(x[1], 'n_type')
            v = self.p.st.known.get(k)
            v = v == 'Nil' if v is not None else False if 'Nil' in self.p.st.excl.get(k, ()) else None
            if not x[3]:
                n = self.isnil(x[2])
                if v is not None and v != n:
                    raise Infeasible()
                return n
            return self.ask(('nil', x[1]), v)
        return False

    def joined(self, *parts):
        from .models import cat
        return ('text', cat([S(x) if isinstance(x, str) else ('v', self.p.norm(x)) for x in parts]))

    def here(self):
        return self.i, self.pos, self.late, self.loose

    def back(self, m):
        """what was read since then is not taken"""
        self.i, self.pos, self.late, self.loose = m

    def named(self, pos, name):
        here, self.pos = self.pos, pos
        try:
            v = self.known(self.p.st.known.get(self.p.ttype(pos)), name)
        finally:
            self.pos = here
        return self.ask(('named', pos, name), False if v is None and self.late else v)

    def at2(self, Ts):
        """is the token after the next one of these?"""
        here, self.pos = self.pos, ('y', 'adv', self.pos, ('tok',))
        try:
            return any(self.at(T) for T in Ts)
        finally:
            self.pos = here

    def called(self, name):
        path = self.p.G.parsers.get('parse_' + name)
        return any(k[0] == 'nt' and k[1][2] == path and k[1][3][0] == self.pos for k in self.p.st.aux)

    # ---- calls --------------------------------------------------------------------------------------------------------
    def made(self, name, args):
        """the call of a function with a list of arguments: looked up by name and number, partial when one is left open"""
        if self.late:
            return N('FunctionCall', name, NIL, args)
        t = self.lookup(name)
        if t is None:
            if self.over():
                self.late = True
                return N('FunctionCall', name, NIL, args)
            raise Mismatch('does not look the function up')
        flag = self.counted(args, t[3][1])
        if not self.ask(('spec', t), self.p.st.ev(to_pred(t))):
            raise Refuse('no function has that name and number of arguments')
        part = flag is not None and self.ask(('open', flag), self.p.st.ev(to_pred(flag)))
        return N('PartialFunctionCall' if part else 'FunctionCall', name, NIL, args)

    def lookup(self, name):
        n = self.p.norm(name)
        for e in self.p.st.events():
            if e[0] == 'call' and e[1].endswith('::check_function_spec') and self.p.norm(e[2][0]) == n:
                return e[3]
        return None

    def counted(self, args, n):
        """the flag that tells whether an argument was left open; Mismatch when n is not the number of arguments"""
        P, st = self.p, self.p.st
        if args == NIL:
            if P.norm(n) != mirai.I(0):
                raise Mismatch('counts %s arguments where there is none' % pp(n)[:60])
            return None
        for k in st.aux:
            if k[0] != 'gw':
                continue
            w, s = st.aux[k], st.aux[('gs', k[1])]
            backs = P.F.around(st, k[1])
            cnt = [c for c, v in w.items() if c in s and P.norm(v) == P.norm(n) and s[c] == mirai.I(0)]
            cur = [(c, v) for c, v in w.items() if c in s and v[:2] == ('y', 'w') and P.head(s[c], args) is None]
            for c in cnt:
                for d, x in cur:
                    if self.walks(backs, d, x) and all(b.st.nl(lsub(b.st.mem[c], w[c])) == mirai.I(1) for b in backs) and \
                            st.known.get(P.G.V.fld(x, 'n_type')) == 'Nil':
                        return self.flag(backs, w, s, x)
        raise Mismatch('looks the function up with %s arguments' % pp(n)[:60])

    def walks(self, backs, cell, x):
        V = self.p.G.V
        for b in backs:
            nx = self.p.I.norm(b.st, b.st.mem[cell])
            if nx != V.kid(x, 'right') and b.st.known.get(V.fld(x, 'right')) != 'None':
                return False
        return bool(backs)

    def holes(self, b, k):
        """the state with the argument a placeholder, and with the argument anything else"""
        out = []
        for hole in (True, False):
            q = b.st.fork()
            if q.assume(('var', k, 'ArgumentPlaceholder'), hole):
                out.append((q, hole))
        return out

    def kept(self, q, c, v, hole):
        now, was = q.mem.get(c, v), q.ev(to_pred(v))
        if hole or was is True:
            return q.ev(to_pred(now)) is True
        return now == v or was is False and q.ev(to_pred(now)) is False

    def flag(self, backs, w, s, x):
        k = self.p.G.V.fld(x, 'n_type')
        for c, v in w.items():
            if c not in s or s[c] != mirai.FALSE:
                continue
            for b in backs:
                if not all(self.kept(q, c, v, hole) for q, hole in self.holes(b, k)):
                    break
            else:
                return v
        raise Mismatch('does not tell whether an argument is left open')

    def ref(self, name, number):
        if self.late:
            return N('NamedFunctionRef')
        t = self.lookup(name)
        n = ('y', 'parse', 'usize', number)
        v = self.p.st.known.get(self.p.norm(n))
        if v == 'Err':
            raise Refuse('the number of arguments is no number')
        if t is None:
            if self.over():
                self.late = True
                return N('NamedFunctionRef')
            raise Mismatch('does not look the function up')
        if self.p.norm(t[3][1]) != self.p.norm(('y', 'vf', n, 'Ok', 0)):
            raise Mismatch('looks the function up with %s arguments' % pp(t[3][1])[:60])
        if not self.ask(('spec', t), self.p.st.ev(to_pred(t))):
            raise Refuse('no function has that name and number of arguments')
        return N('NamedFunctionRef', self.joined(name, '#', number)[1])

    # ---- repetitions --------------------------------------------------------------------------------------------------
    def mark(self):
        its = self.p.items
        return its[self.i][1][1] if self.i < len(its) and its[self.i][1][0] == 'loop' else None

    def enter(self):
        """passes the head of a loop: (its key, its ways round, where each starts)"""
        p, x = self.p.items[self.i]
        self.i += 1
        self.pos = p
        return x[1], self.p.F.around(self.p.st, x[1])

    def around(self, key, backs, step, judge):
        """every way round is one turn of the reference"""
        for b in backs:
            q = Path(self.p.G, self.p.I, self.p.F, b, self.p.leaves, self.p.wraps, self.p.args)
            at = [i for i, it in enumerate(q.items) if it[1] == ('loop', key)]
            if not at:
                raise Mismatch('goes round without reading anything')
            for c, r in q.runs(step, at[0] + 1, q.items[at[0]][0]):
                if isinstance(r, Refuse):
                    raise Mismatch('goes on although %s' % r.args[0])
                x, more = r
                if not more:
                    raise Mismatch('goes round again although the list has ended')
                why = c.loose or q.left(c) or judge(q, b, x)
                if why:
                    raise Mismatch(why)

    def fold(self, init, step):
        """step(cursor, what was read so far) -> (what is read now, does it go on?)"""
        acc = init
        turns = 0
        while True:
            if self.mark() is not None:
                key, backs = self.enter()
                w, s = self.p.st.aux[('gw', key)], self.p.st.aux[('gs', key)]
                cells = [c for c, v in w.items() if c in s and c != self.p.cell and self.p.cmp(s[c], acc) is None and self.p.norm(v) != self.p.norm(s[c])]
                if backs:
                    cells = [c for c in cells if all(self.p.I.norm(b.st, b.st.mem.get(c, w[c])) != self.p.I.norm(b.st, w[c]) for b in backs)]
                    if not cells:
                        raise Mismatch('does not carry on with what was read so far')
                cell = cells[0] if cells else None
                if cell is not None:
                    v = self.p.norm(w[cell])
                    some = [not self.isnil(acc)]
                    a = acc = ('acc', v, acc, bool(backs))

                    def judge(q, b, x):
                        some.append(x[0] == 'n')
                        return q.cmp(b.st.mem[cell], x)
                    nil = self.p.G.V.fld(v, 'n_type')
                    live = [b for b in backs if not (some[0] and b.st.known.get(nil) == 'Nil')]
                    self.around(key, live, lambda c: step(c, a), judge)
                    if len(live) < len(backs) and not all(some):
                        raise Mismatch('may lose what was read so far')
                    if all(some) and self.p.st.known.get(self.p.G.V.fld(v, 'n_type')) == 'Nil':
                        raise Infeasible()
            acc, more = step(self, acc)
            if not more:
                return acc
            turns += 1
            if self.over() and self.late or turns > 40:
                return acc

    def chain(self, root, step, end=None):
        """step(cursor) -> (trees added behind, does it go on?); the list hangs on the right of the root; end(cursor): the
        tree behind the last of the list"""
        key = ws = None
        pre, post = [], []
        turns = 0
        while True:
            if self.mark() is not None and key is None:
                key, backs = self.enter()
                if not backs:
                    key = None
                else:
                    ws = self.tail(key, backs, ([root] + pre + post)[-1])
                    pre, post = pre + post, []
                    cell, wv = ws

                    def judge(q, b, xs):
                        now = b.st.mem[cell]
                        if not xs:
                            return None if q.norm(now) == q.norm(wv) else 'moves on without adding to the list'
                        return q.linked(q.rightof(wv), xs, 'the last') or q.head(now, xs[-1])
                    self.around(key, backs, step, judge)
            xs, more = step(self)
            post += xs
            turns += 1
            if not more or self.late or turns > 40:
                break
        if end:
            post.append(end(self))
        return ('chain', root, key, tuple(pre), tuple(post), ws[1] if ws else None)

    def tail(self, key, backs, last):
        """the variable for the last of the list: (cell, its symbol)"""
        st = self.p.st
        w, s = st.aux[('gw', key)], st.aux[('gs', key)]
        for c, v in w.items():
            if c not in s or c == self.p.cell or s[c] == v:
                continue
            if self.p.head(s[c], last) is None and all(c in b.st.mem and b.st.mem[c] != v for b in backs):
                return c, v
        raise Mismatch('does not keep the end of the list')

    def empty(self, chain):
        """has nothing been added?"""
        if chain[2] is None:
            return not chain[3] and not chain[4]
        if chain[3] or chain[4]:
            return False
        w = self.link(chain)
        v = self.p.st.known.get(w)
        if v == 'Some' and self.p.st.known.get(self.p.G.V.fld(('y', 'vf', w, 'Some', 0), 'n_type')) == 'Nil':
            raise Infeasible()
        return self.ask(('empty', w), v == 'None' if v is not None else None)

    def link(self, chain):
        """the symbol of the right side of the root after the loop"""
        for c, v in self.p.st.aux[('gw', chain[2])].items():
            if c[0] == 'H' or c[0] == 'S':
                n = self.p.norm(self.p.st.mem.get(c, v))
                f = self.p.G.V.fields
                if n[0] == 'A' and n[1] == self.p.G.node_adt:
                    r = n[4][f['right']]
                    if r[:2] == ('y', 'w') and self.p.head(('A', self.p.G.ptr_adt, 0, 'XNodePtr', (n,)), chain[1]) is None:
                        return r
        raise Mismatch('the list has no link')


def N(kind, name=None, left=NIL, right=NIL):
    return ('n', kind, name, left, right)


SPECS = {}


def spec(f):
    SPECS[f.__name__] = f
    return f
