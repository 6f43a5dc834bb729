"""Path-by-path comparison of a function with what it is supposed to do.  The expected behaviour is a decision procedure that
asks what a path has established (the status of a call, the truth of a condition) and says what the path has to return; a
path that returns something else, or returns before it has established what its result depends on, is a violation."""
from .lib import *
from .fold import Folds, ITEM, subst, has_part
from . import mirai


class Stop(Exception):
    def __init__(self, *exp):
        self.exp = exp


class Bad(Exception):
    pass


ERR = ('err',)


def short(t, n=300):
    s = pp(t) if isinstance(t, tuple) else str(t)
    s = s.replace('vf(xnode.xnode_ptr.left, Some, 0)', 'LEFT').replace('vf(xnode.xnode_ptr.right, Some, 0)', 'RIGHT')
    return s.replace('.xnode_ptr.', '.').replace('evaluate_xnode', 'eval')[:n]


class Query:
    def __init__(self, I_, o):
        self.I, self.o, self.st = I_, o, o.st
        self.val = self.norm(o.val) if o.val is not None else mirai.UNIT
        self.kn = {}
        for k, v in self.st.known.items():
            self.kn[self.norm(k)] = v
        self.asked = []

    def norm(self, t):
        return self.I.norm(self.st, t)

    def known(self, t):
        return self.kn.get(self.norm(t), self.st.known.get(t))

    # ---- what the decision procedure asks ----------------------------------------------------------------------------
    def res(self, t):
        """the payload of a Result; the path has to return an error if it is one"""
        t = self.norm(t)
        s = self.known(t)
        self.asked.append((t, s))
        if s == 'Err':
            raise Stop('err', t)
        if s is None:
            if self.val == t:
                raise Stop('tail', t)
            raise Bad('returns %s without having looked at %s' % (short(self.val), short(t)))
        return ('y', 'vf', t, 'Ok', 0)

    def any(self, *ts):
        """several Results whose order does not matter: all are to be looked at, an error of any may be returned"""
        ts = [self.norm(t) for t in ts]
        st = [self.known(t) for t in ts]
        if 'Err' in st:
            raise Stop('err', ts[st.index('Err')])
        return [self.res(t) for t in ts]

    def truth(self, t):
        """a boolean term the result depends on"""
        t = self.norm(t)
        if t[0] == 'b':
            return t[1]
        v = self.known(t)
        if isinstance(v, bool):
            return v
        raise Bad('returns %s although it does not depend on %s' % (short(self.val), short(t)))

    def variant(self, t):
        t = self.norm(t)
        if t[0] == 'A':
            return t[3]
        v = self.known(t)
        if v is None:
            raise Bad('returns %s although it does not depend on which variant %s is' % (short(self.val), short(t)))
        return v

    def maybe(self, t):
        """like truth, but None when the path does not know"""
        t = self.norm(t)
        if t[0] == 'b':
            return t[1]
        return self.known(t)

    # ---- the value the path returns ----------------------------------------------------------------------------------
    def got(self):
        """('err',) or ('ok', payload)"""
        v = self.val
        if v[0] == 'A' and v[1] == RES:
            return ('err',) if v[3] == 'Err' else ('ok', v[4][0])
        s = self.known(v)
        if s == 'Err':
            return ('err',)
        if s == 'Ok':
            return ('ok', ('y', 'vf', v, 'Ok', 0))
        return ('tail', v)


def field0(v):
    """the list inside a sequence value"""
    if v[0] == 'A' and len(v[4]) == 1:
        return v[4][0]
    return None


class Lists:
    """compares lists, loops read back"""
    def __init__(self, I_, P):
        self.I = I_
        self.F = Folds(I_)
        xs = [a for a in P.adts if a.endswith('xsequence::XSequence')]
        self.seqfield = P.adts[xs[0]]['variants'][0]['fields'][0]['name']

    def of(self, v):
        """the list of a sequence value"""
        if v[0] == 'A' and v[1].endswith('XSequence') and len(v[4]) == 1:
            return v[4][0]
        if v[0] == 'U' and dict(v[2]).get(0):
            return dict(v[2])[0]
        return ('y', 'fld', v, 0, self.seqfield)

    def parts(self, st, t):
        return self.tidy(st, self.F.elements(st, t))

    def tidy(self, st, ps):
        """copies of whole lists are the lists"""
        out = []
        for p in ps:
            if p[0] == 'for' and p[4] and p[2] == I(0):
                alts = [(b, self.tidy(b.st, a)) for b, a in p[3]]
                if alts and all(a == [('e', ITEM)] for _, a in alts):
                    out.append(('l', p[1]))
                    continue
                out.append(p[:3] + (alts,) + p[4:])
            elif p[0] == 'l' and p[1][0] == 'R':
                out += [('e', x) for x in p[1][1]]
            else:
                out.append(p)
        return out

    def length(self, st, seq):
        return self.I.length(st, seq)

    def empty(self, st, seq):
        return st.ent_le(self.length(st, seq))

    def match(self, st, got, want):
        """None when the parts are the wanted ones; want: ('e', term), ('l', list), ('for', list, f) with f(back state query,
        index) -> the parts each way round appends"""
        got = [p for p in got if not (p[0] in ('l',) and self.empty(st, p[1]))]
        want = [w for w in want if not (w[0] in ('l', 'for') and self.empty(st, w[1]))]
        if len(got) != len(want):
            return 'the list has %d parts instead of %d: %s' % (len(got), len(want), self.show(got))
        for g, w in zip(got, want):
            if w[0] in ('e', 'l'):
                if g[0] != w[0] or self.I.norm(st, g[1]) != self.I.norm(st, w[1]):
                    return '%s instead of %s' % (self.show([g]), self.show([w]))
                continue
            if g[0] != 'for':
                return '%s instead of a part for each of %s' % (self.show([g]), short(w[1]))
            if self.I.norm(st, g[1]) != self.I.norm(st, w[1]):
                return 'goes through %s instead of %s' % (short(g[1]), short(w[1]))
            if g[2] != I(0):
                return 'starts at %s' % short(g[2])
            if not g[4]:
                return 'not all of %s is gone through' % short(g[1])
            for b, alt in g[3]:
                q = Query(self.I, mirai.Outcome('ret', b.st, mirai.UNIT))
                try:
                    sub = w[2](q, g[5])
                except Stop as e:
                    return 'goes on after an error of %s' % short(e.exp[1])
                except Bad as e:
                    return str(e)
                sub = [w for w in sub if not (w[0] in ('l', 'for') and self.empty(b.st, self.I.norm(b.st, w[1])))]
                why = self.match(b.st, alt, [subst(x, lambda y: ITEM if y[:2] == ('y', 'elem') and y[2] == g[1] and
                                                   b.st.nl(y[3]) == b.st.nl(g[5]) else None) for x in sub])
                if why:
                    return 'for each of %s: %s' % (short(g[1], 80), why)
        return None

    def show(self, ps):
        out = []
        for p in ps:
            if p[0] == 'for':
                out.append('for each of %s' % short(p[1], 120))
            else:
                out.append(short(p[1], 200))
        return '[' + ', '.join(out) + ']'


def judge(q, L, exp):
    """None when the path returns the expected outcome"""
    g = q.got()
    st = q.st
    if exp[0] == 'err':
        if g[0] == 'err':
            return None
        return 'returns %s although %s is an error' % (short(q.val), short(exp[1]) if len(exp) > 1 else 'this')
    if exp[0] == 'tail':
        return None if q.val == q.norm(exp[1]) or (g[0] == 'ok' and g[1] == ('y', 'vf', q.norm(exp[1]), 'Ok', 0)) else \
            'returns %s instead of %s' % (short(q.val), short(exp[1]))
    if g[0] == 'err':
        return 'returns the error %s instead of %s' % (short(q.val), show_exp(L, exp))
    if g[0] == 'tail':
        return 'returns %s instead of %s' % (short(q.val), show_exp(L, exp))
    v = g[1]
    if exp[0] == 'val':
        e = q.norm(exp[1])
        if v == e:
            return None
        if q.maybe(e) is not None and v == ('b', q.maybe(e)):
            return None
        return 'returns %s instead of %s' % (short(v), short(e))
    if exp[0] == 'parts':
        why = L.match(st, L.parts(st, L.of(v)), exp[1])
        return why
    if exp[0] == 'bool':
        ps = L.parts(st, L.of(v))
        b = exp[1]
        if len(ps) != 1 or ps[0][0] != 'e' or ps[0][1][0] != 'A' or not ps[0][1][3].endswith('Boolean'):
            return 'returns %s instead of one boolean' % short(v)
        x = q.norm(ps[0][1][4][0])
        if isinstance(b, bool):
            b = ('b', b)
        b = q.norm(b)
        if x == b:
            return None
        k = lambda t: t[1] if t[0] == 'b' else q.maybe(t)
        if k(x) is not None and k(x) == k(b):
            return None
        return 'returns the boolean %s instead of %s' % (short(x), short(b))
    raise AnalysisError('expectation %r' % (exp,))


def show_exp(L, exp):
    if exp[0] == 'parts':
        return L.show(exp[1])
    return ' '.join(short(x) if isinstance(x, tuple) else str(x) for x in exp)


def check_paths(ctx, P, I_, key, sem, least=1, env=None, extra=None):
    """every return path of the run does what sem(query) expects"""
    L = Lists(I_, P)
    n = 0
    for o in I_.rets:
        n += 1
        q = Query(I_, o)
        try:
            try:
                exp = sem(q, L)
            except Stop as e:
                exp = e.exp
            why = judge(q, L, exp)
        except Bad as e:
            why = str(e)
        ctx.check(why is None, key, why or '')
        if env is not None and q.got()[0] != 'err':
            now = o.st.mem.get(('S', env), env)
            now = q.norm(now)
            ctx.check(now == env, key + ' environment', 'leaves the environment changed: %s' % short(now))
        if extra:
            extra(q, L)
    ctx.floor(key + ' paths', n, least)
    return n
