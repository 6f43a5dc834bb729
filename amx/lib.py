"""Helpers shared by the rule modules."""
from . import mirai
from .mirai import Interp, lin, ladd, lsub, lmul, isint, I, S
from .facts import AnalysisError

OPT, RES = mirai.OPT, mirai.RES


def pp(t, d=0):
    """compact text of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 14:
        return '..'
    k = t[0]
    if k == 'i':
        if not t[2]:
            return str(t[1])
        s = ' + '.join(('' if x == 1 else '%d*' % x) + pp(y, d + 1) for y, x in t[2])
        return '(%s%s)' % (s, ' + %d' % t[1] if t[1] else '')
    if k == 's':
        return repr(t[1]) if len(t) == 2 else repr(t)
    if k == 'b':
        return str(t[1])
    if k == 'A':
        return '%s::%s%s' % (t[1].split('::')[-1], t[3], '(%s)' % ', '.join(pp(x, d + 1) for x in t[4]) if t[4] else '')
    if k == 'T':
        return '(%s)' % ', '.join(pp(x, d + 1) for x in t[1])
    if k == 'y':
        op = t[1]
        if op == 'arg':
            return str(t[3]) if len(t) > 3 else 'arg%s' % t[2]
        if op == 'fld':
            return '%s.%s' % (pp(t[2], d + 1), t[4] if len(t) > 4 else t[3])
        if op == 'elem':
            return '%s[%s]' % (pp(t[2], d + 1), pp(t[3], d + 1))
        if op == 'len':
            return 'len(%s)' % pp(t[2], d + 1)
        if op == 'N':
            return 'N%s' % (t[2],)
        if op == 'w':
            return 'w%s' % (hash(t) % 10000,)
        if op == 'call':
            a = t[3] if len(t) > 3 else ()
            return '%s(%s)' % (t[2].split('::')[-1], ', '.join(pp(x, d + 1) for x in a) if isinstance(a, tuple) else a)
        return '%s(%s)' % (op, ', '.join(pp(x, d + 1) if isinstance(x, tuple) else str(x) for x in t[2:]))
    if k == 'p':
        return '{%s}' % ppred(t[1], d + 1)
    return '<%s>' % ' '.join(pp(x, d + 1) if isinstance(x, tuple) else str(x) for x in t)


def ppred(p, d=0):
    k = p[0]
    if k == 'not':
        return '!' + ppred(p[1], d)
    if k == 'le':
        return pp(p[1], d) + '<=0'
    if k == 'eq':
        return pp(p[1], d) + '==0'
    if k == 'var':
        return '%s is %s' % (pp(p[1], d), p[2])
    return '%s(%s)' % (k, ', '.join(pp(x, d) if isinstance(x, tuple) else str(x) for x in p[1:]))


def pstate(st):
    out = []
    for s, v in st.known.items():
        out.append('%s=%s' % (pp(s), v))
    for s, v in st.excl.items():
        out.append('%s∉%s' % (pp(s), sorted(v, key=repr)))
    for l in st.les:
        out.append(pp(l) + '<=0')
    for l, v in st.eqs.items():
        out.append('%s %s' % (pp(l) if l[0] in 'iy' else ppred(l), v))
    return '; '.join(out)


def is_ok(v):
    return v[0] == 'A' and v[1] == RES and v[3] == 'Ok'


def is_err(v):
    return v[0] == 'A' and v[1] == RES and v[3] == 'Err'


def payload(v):
    return v[4][0]


def charpred(P):
    """the character-class predicates: bool functions of a char (and tables)"""
    def f(p):
        g = P.fns.get(p)
        if g is None:
            return False
        ls = g['locals']
        return ls[0]['ty'] == 'bool' and g['argc'] >= 1 and ls[1]['ty'] == 'char' and \
            all('mut' not in ls[i]['ty'] for i in range(1, g['argc'] + 1))
    return f


def report_obligations(ctx, I, prefix='', allow=None):
    """every panic obligation met on the analysed paths must be discharged.  allow(key, detail) -> reason or None"""
    n = 0
    for (fn, kind, where), v in sorted(I.obl.items(), key=lambda kv: str(kv[0])):
        n += 1
        ok = v[1] == 0
        if not ok and allow:
            why = allow(fn, kind, where, v)
            if why:
                ctx.note('%s in %s: %s' % (kind, fn, why))
                ok = True
        ctx.check(ok, '%s%s in %s' % (prefix, kind, fn), 'cannot exclude a panic: %s (%s)' % (kind, v[2]), where)
    return n


def loop_changes(o):
    """for a back-edge outcome: [(cell, value at loop head, value at the back edge)]"""
    key = o.info[2]
    w = o.st.aux[('wmem', key)]
    return [(c, w[c], o.st.mem[c]) for c in w if c in o.st.mem and o.st.mem[c] != w[c]]


def int_parts(a, b):
    """pairs of integer components of two values of the same shape"""
    if not isinstance(a, tuple) or not isinstance(b, tuple) or a == b:
        return
    if mirai.is_num(a) and mirai.is_num(b):
        yield a, b
        return
    if a[0] == 'U' and b[0] == 'U' and a[1] == b[1]:
        da, db = dict(a[2]), dict(b[2])
        for k in da:
            if k in db:
                for x in int_parts(da[k], db[k]):
                    yield x
        return
    if a[0] == b[0] and a[0] in ('T', 'R'):
        for x, y in zip(a[1], b[1]):
            for z in int_parts(x, y):
                yield z
        return
    if a[0] == 'A' and b[0] == 'A' and a[3] == b[3]:
        for x, y in zip(a[4], b[4]):
            for z in int_parts(x, y):
                yield z
        return
    if a[0] == 'V' and b[0] == 'V':
        yield a[1], b[1]
        return
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        for x, y in zip(a[2:], b[2:]):
            if isinstance(x, tuple) and isinstance(y, tuple):
                for z in int_parts(x, y):
                    yield z


def widened_here(s, key):
    """is this symbol one that the loop `key` changes?"""
    h, fid = key[1], key[0]
    if s[1] == 'N':
        return s[2] == h and s[3] == fid
    if s[1] == 'w':
        k = s[2]
        return k[0] == h and k[1] == fid
    return False


def mentions(t, f):
    if isinstance(t, tuple):
        if t and t[0] == 'y' and f(t):
            return True
        return any(mentions(x, f) for x in t)
    return False


def progress(o):
    """why this way around a loop cannot be taken for ever, or None"""
    fn, h, key = o.info
    st = o.st
    inv = lambda s: not mentions(s, lambda y: y[1] in ('N', 'w') and widened_here(y, key))
    for c, w, n in loop_changes(o):
        for a, b in int_parts(w, n):
            d = lsub(b, a)
            for sign, word in ((1, 'increases'), (-1, 'decreases')):
                if not st.ent_le(ladd(I(1), lmul(d, sign), -1)):
                    continue
                # a bound: a fact  sign*a + (loop-invariant) <= 0
                for l in st.les:
                    r = lsub(l, lmul(a, sign))
                    _, dd = lin(r)
                    if all(inv(s) for s in dd):
                        return '%s %s and is bounded by %s' % (pp(a), word, pp(l))
                if sign == -1 and (st._triv(lmul(a, -1)) or st.ent_le(lmul(b, -1))):
                    return '%s decreases and is never negative' % pp(a)
    return None


def contradictory(st):
    """two facts about the same sequence element that cannot both hold"""
    kn, ex = {}, {}
    for s, v in st.known.items():
        if s[0] == 'y' and s[1] == 'elem':
            k = (s[2], st.nl(s[3]))
            if k in kn and kn[k] != v:
                return True
            kn[k] = v
    for s, v in st.excl.items():
        if s[0] == 'y' and s[1] == 'elem':
            k = (s[2], st.nl(s[3]))
            ex[k] = ex.get(k, frozenset()) | v
    return any(kn[k] in ex.get(k, ()) for k in kn)


def ent_lt(st, a, b):
    """a < b on this path (integers), also by contradiction from a == b"""
    if st.ent_le(ladd(I(1), lsub(a, b))):
        return True
    if st.ent_le(lsub(a, b)):
        s = st.fork()
        if not s.assume(('eq', lsub(a, b)), True):
            return True
        return contradictory(s)
    return False


# ---- sets of integers (sorted disjoint closed intervals) ------------------------------------------------------------
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def iv_norm(x):
    out = []
    for a, b in sorted(x):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def iv_union(x, y):
    return iv_norm(list(x) + list(y))


def iv_inter(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            if max(a, c) <= min(b, d):
                out.append((max(a, c), min(b, d)))
    return iv_norm(out)


def iv_minus(x, y):
    out = list(x)
    for c, d in y:
        nxt = []
        for a, b in out:
            if d < a or c > b:
                nxt.append((a, b))
            else:
                if a < c:
                    nxt.append((a, c - 1))
                if d < b:
                    nxt.append((d + 1, b))
        out = nxt
    return iv_norm(out)


def iv_text(x, n=6):
    s = ['%X' % a if a == b else '%X-%X' % (a, b) for a, b in x[:n]]
    return '[' + ' '.join(s) + (' ...' if len(x) > n else '') + ']'


class CharSets:
    """the set of values a character can have on a path, from the facts the path has collected about it"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def predicate(self, fn, extra=(), pos=0):
        """the characters for which the predicate function returns true (pos: which argument is the character)"""
        k = (fn, extra, pos)
        if k not in self.memo:
            self.memo[k] = None
            I = Interp(self.P, budget=2000000)
            I.max_paths = 4000
            args = [None] * (pos + 1) + list(extra)
            outs = I.run(fn, args)
            c = ('y', 'arg', pos, self.P.fns[self.P.find(fn)]['locals'][pos + 1]['name'])
            acc = ()
            for o in outs:
                s = self.of(o.st, c)
                v = I.norm(o.st, o.val)
                if v == ('b', False):
                    continue
                if v[0] == 'p':
                    s = iv_inter(s, self.holds(v[1], c, o.st))
                elif v != ('b', True):
                    t = self.call(v)
                    if t is None or t[0] != c:
                        raise AnalysisError('cannot tell which characters %s accepts: %s' % (fn, pp(v)))
                    s = iv_inter(s, t[1])
                acc = iv_union(acc, s)
            self.memo[k] = acc
        return self.memo[k]

    def call(self, v):
        """(argument, accepted set) of a predicate call term"""
        if v[:2] == ('y', 'call') and v[2] in self.P.fns and v[3]:
            return v[3][0], self.predicate(v[2], tuple(v[3][1:]))
        return None

    def holds(self, p, c, st):
        """values of c for which the predicate term holds"""
        k = p[0]
        if k == 'not':
            return iv_minus(CHARS, self.holds(p[1], c, st))
        if k in ('le', 'eq'):
            l = st.nl(p[1]) if st else p[1]
            k0, d = lin(l)
            if set(d) - {c} or (d and d[c] not in (1, -1)):
                return CHARS
            if not d:
                return CHARS if (k0 <= 0 if k == 'le' else k0 == 0) else ()
            x = d[c]
            if k == 'eq':
                return iv_inter(CHARS, ((-k0 * x, -k0 * x),))
            return iv_inter(CHARS, ((0, -k0),) if x == 1 else ((k0, 0x10FFFF),))
        if k == 'var' and p[1] == c and isinstance(p[2], int):
            return iv_inter(CHARS, ((p[2], p[2]),))
        if k == 'is':
            t = self.call(p[1])
            if t and t[0] == c:
                return t[1]
        return CHARS

    def of(self, st, c, same=None):
        """values of c possible on the path; same(term) tells whether a term denotes the same character"""
        same = same or (lambda t: t == c)
        s = CHARS
        for k, v in st.known.items():
            if same(k) and isinstance(v, int) and not isinstance(v, bool):
                s = iv_inter(s, ((v, v),))
            t = self.call(k) if k[:2] == ('y', 'call') and isinstance(v, bool) else None
            if t and same(t[0]):
                s = iv_inter(s, t[1]) if v else iv_minus(s, t[1])
        for k, v in st.excl.items():
            if same(k):
                s = iv_minus(s, tuple((n, n) for n in v if isinstance(n, int)))
        for l in st.les:
            k0, d = lin(l)
            if len(d) == 1 and same(list(d)[0]):
                s = iv_inter(s, self.holds(('le', l), list(d)[0], None))
        for l, v in st.eqs.items():
            if l[0] in ('i', 'y'):
                k0, d = lin(l)
                if len(d) == 1 and same(list(d)[0]):
                    t = self.holds(('eq', l), list(d)[0], None)
                    s = iv_inter(s, t) if v else iv_minus(s, t)
        return s
