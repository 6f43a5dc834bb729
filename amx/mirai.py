"""Path-sensitive abstract interpretation of MIR.

The abstract domain is one of terms: constants, known constructors (enum variants, tuples, closures,
function items), linear expressions over symbols, and opaque symbols ("the result of this call", "field f of
argument 0").  Branches refine what is known about the symbols; nothing is run and no solver is used.  Calls
to functions of the crate are entered unless the query lists them as leaves or they are already being
analysed (recursion); calls that leave the crate have a model below or become opaque terms.  Loops are
analysed to a fixpoint: whatever a loop changes is widened to a symbol (or to "entry value + k * number of
iterations" when every way around the loop changes it by the same constant).
"""
import math
import re
import sys
from .facts import succs, loop_info, AnalysisError

sys.setrecursionlimit(6000)

NONNEG = set()
MAXLEN = 2**63 - 1
TYPES = {}            # symbol -> type text

TRUE = ('b', True)
FALSE = ('b', False)
UNIT = ('T', ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
ORD = 'std::cmp::Ordering'


def I(n):
    return ('i', n, ())


def S(t):
    return ('s', t)


def some(v):
    return ('A', OPT, 1, 'Some', (v,))


NONE = ('A', OPT, 0, 'None', ())


def ok(v):
    return ('A', RES, 0, 'Ok', (v,))


def err(v):
    return ('A', RES, 1, 'Err', (v,))


def sym(op, *args, **kw):
    s = ('y', op) + args
    ty = kw.get('ty')
    if ty:
        TYPES.setdefault(s, ty)
    if kw.get('nonneg') or ty in ('usize', 'u8', 'u16', 'u32', 'u64', 'char'):
        NONNEG.add(s)
    return s


# ---- linear integers -------------------------------------------------------
def lin(v):
    """(const, {sym: coef})"""
    if v[0] == 'i':
        return v[1], dict(v[2])
    return 0, {v: 1}


def mklin(c, d):
    d = {k: x for k, x in d.items() if x}
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    if len(d) == 1:
        return ('i', c, tuple(d.items()))
    return ('i', c, tuple(sorted(d.items(), key=_rank)))


_RANK = {}


def _rank(item):
    r = _RANK.get(item[0])
    if r is None:
        r = _RANK[item[0]] = repr(item[0])
    return r



def ladd(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for s, x in db.items():
        d[s] = d.get(s, 0) + k * x
    return mklin(ca + k * cb, d)


def lneg(v):
    return lmul(v, -1)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, n):
    c, d = lin(a)
    return mklin(c * n, {s: x * n for s, x in d.items()})


def lower_terms(v):
    """an integer term that is at most zero exactly if v is, without a common factor"""
    c, d = lin(v)
    g = 0
    for x in d.values():
        g = math.gcd(g, abs(x))
    return v if g < 2 else mklin(-(-c // g), {s: x // g for s, x in d.items()})


def isint(v):
    return v[0] == 'i' and not v[2]


def float_op(op, a, b):
    """double arithmetic on constants"""
    try:
        a, b = float(a), float(b)
    except (ValueError, TypeError):
        return None
    if op == 'Div':
        if b == 0:
            if a == 0 or a != a:
                return float('nan')
            return float('inf') * math.copysign(1, a) * math.copysign(1, b)
        return a / b
    return a + b if op == 'Add' else a - b if op == 'Sub' else a * b


def is_num(v):
    return v[0] in ('i', 'y')


# ---- predicates -------------------------------------------------------------
def pnot(p):
    if p[0] == 'not':
        return p[1]
    if p[0] == 'const':
        return ('const', not p[1])
    if p[0] == 'le':                       # l <= 0  ->  l >= 1  ->  1 - l <= 0
        return ('le', ladd(I(1), p[1], -1))
    return ('not', p)


def le0(l):
    if isint(l):
        return ('const', l[1] <= 0)
    return ('le', l)


def to_pred(v):
    if v[0] == 'b':
        return ('const', v[1])
    if v[0] == 'p':
        return v[1]
    if v[0] == 'i' and not v[2]:
        return ('const', v[1] != 0)
    return ('is', v)


def from_pred(p):
    if p[0] == 'const':
        return ('b', p[1])
    if p[0] == 'is':
        return p[1]
    return ('p', p)


class State:
    __slots__ = ('mem', 'known', 'excl', 'les', 'sub', 'trace', 'cnt', 'eqs', 'aux')

    def __init__(self):
        self.mem = {}
        self.known = {}
        self.excl = {}
        self.les = ()
        self.sub = {}
        self.trace = None
        self.cnt = {}
        self.eqs = {}
        self.aux = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.known = dict(self.known)
        s.excl = dict(self.excl)
        s.les = self.les
        s.sub = dict(self.sub)
        s.trace = self.trace
        s.cnt = dict(self.cnt)
        s.eqs = dict(self.eqs)
        s.aux = dict(self.aux)
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def add(self, ev):
        self.trace = (self.trace, ev)

    # -- arithmetic facts --
    def nl(self, l):
        """apply equalities to a linear expression"""
        for _ in range(8):
            c, d = lin(l)
            hit = [s for s in d if s in self.sub]
            if not hit:
                return l
            for s in hit:
                l = ladd(ladd(l, s, -d[s]), lmul(self.sub[s], d[s]))
        return l

    def _triv(self, l):
        c, d = lin(l)
        for s, x in d.items():
            if x > 0 and s[1] == 'len':
                c += x * MAXLEN                # no collection is longer than isize::MAX
            elif x > 0 or s not in NONNEG:
                return False
        return c <= 0

    def ent_le(self, l):
        """is l <= 0 implied?"""
        l = self.nl(l)
        if isint(l):
            return l[1] <= 0
        if self._triv(l):
            return True
        ks = [self.nl(k) for k in self.les]
        for k in ks:
            if self._triv(lsub(l, k)):
                return True
        for i, k in enumerate(ks):
            r = lsub(l, k)
            cr, dr = lin(r)
            for m in ks[i:]:
                if self._triv(lsub(r, m)):
                    return True
        return False

    def ev(self, p):
        k = p[0]
        if k == 'const':
            return p[1]
        if k == 'not':
            r = self.ev(p[1])
            return None if r is None else (not r)
        if k == 'le':
            if self.ent_le(p[1]):
                return True
            if self.ent_le(ladd(I(1), p[1], -1)):
                return False
            return None
        if k == 'eq':
            l = self.nl(p[1])
            if isint(l):
                return l[1] == 0
            c, d = lin(l)
            if len(d) == 1:
                (s, x), = d.items()
                if x in (1, -1):
                    r = self.var_ev(s, -c * x)
                    if r is not None:
                        return r
            if self.ent_le(l) and self.ent_le(lmul(l, -1)):
                return True
            if self.ent_le(ladd(I(1), l, -1)) or self.ent_le(ladd(I(1), l, 1)):
                return False
            if l in self.eqs:
                return self.eqs[l]
            return None
        if k == 'var':
            return self.var_ev(p[1], p[2])
        if k == 'is':
            v = p[1]
            if v[0] == 'b':
                return v[1]
            return self.var_ev(v, True)
        if k == 'eqv':
            if p[1] == p[2]:
                return True
            return self.eqs.get(p)
        return None

    def var_ev(self, s, val):
        if s in self.known:
            return self.known[s] == val
        if val in self.excl.get(s, ()):
            return False
        return None

    def add_le(self, l):
        """records l <= 0, dropping the facts with the same terms that it implies"""
        c, d = lin(l)
        self.les = tuple(k for k in self.les if k[0] != 'i' or k[2] != l[2] or k[1] > c) + (l,) if l[0] == 'i' else self.les + (l,)

    def assume(self, p, truth=True):
        """False when contradictory (the state is then garbage)"""
        r = self.ev(p)
        if r is not None:
            return r == truth
        k = p[0]
        if k == 'not':
            return self.assume(p[1], not truth)
        if k == 'le':
            l = p[1] if truth else ladd(I(1), p[1], -1)
            self.add_le(self.nl(l))
            return True
        if k == 'eq':
            l = self.nl(p[1])
            c, d = lin(l)
            if len(d) == 1:
                (s, x), = d.items()
                if x in (1, -1):
                    n = -c * x
                    if truth:
                        self.known[s] = n
                        self.sub[s] = I(n)
                    else:
                        self.excl[s] = self.excl.get(s, frozenset()) | {n}
                        # tighten bounds
                        if n == 0 and s in NONNEG:
                            self.add_le(ladd(I(1), s, -1))
                        else:
                            le = ladd(s, I(-n))
                            if self.ent_le(le):
                                self.add_le(ladd(le, I(1)))
                            elif self.ent_le(lmul(le, -1)):
                                self.add_le(ladd(lmul(le, -1), I(1)))
                    return True
            if truth:
                cand = [s for s, x in d.items() if x in (1, -1)]
                # substitute the youngest counter / widened symbol if there is one
                cand.sort(key=lambda s: (0 if s[1] in ('N', 'w') else 1, repr(s)))
                if cand:
                    s = cand[0]
                    x = d[s]
                    rest = ladd(l, s, -x)
                    self.sub[s] = lmul(rest, -x)
                else:
                    self.eqs[l] = True
            else:
                self.eqs[l] = False
                if self.ent_le(l):
                    self.add_le(ladd(l, I(1)))
                elif self.ent_le(lmul(l, -1)):
                    self.add_le(ladd(lmul(l, -1), I(1)))
            return True
        if k in ('var', 'is'):
            s = p[1]
            val = p[2] if k == 'var' else True
            if truth:
                self.known[s] = val
            else:
                if k == 'is':
                    self.known[s] = False
                else:
                    self.excl[s] = self.excl.get(s, frozenset()) | {val}
            return True
        if k == 'eqv':
            self.eqs[p] = truth
            return True
        return True


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'info')

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.info = info


class Frame:
    __slots__ = ('fn', 'id', 'depth', 'stack', 'wid')

    def __init__(self, fn, id, depth, stack):
        self.fn = fn
        self.id = id
        self.depth = depth
        self.stack = stack
        self.wid = {}


class Budget(Exception):
    pass


INT_TYS = {'usize': (0, 2**64 - 1), 'u64': (0, 2**64 - 1), 'u32': (0, 2**32 - 1), 'u16': (0, 65535), 'u8': (0, 255),
           'i64': (-2**63, 2**63 - 1), 'i32': (-2**31, 2**31 - 1), 'isize': (-2**63, 2**63 - 1),
           'char': (0, 0x10FFFF), 'i8': (-128, 127), 'i16': (-32768, 32767), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}

SKIP_OWNERS = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::boxed::Box', 'std::boxed::BoxRaw', 'std::ptr::Unique',
               'std::ptr::NonNull', 'std::pin::Pin', 'std::mem::MaybeDangling')


def strip_ty(t):
    t = t.lstrip('&').replace('mut ', '')
    i = t.find('<')
    return t[:i] if i > 0 else t


class Interp:
    def __init__(self, prog, leaves=(), leaf=None, pure=None, models=None, budget=400000, max_unroll=400,
                 keep=None, on_panic=True, enter=None, transparent=(), symleaf=None):
        self.symleaf = symleaf
        self.P = prog
        self.leaves = set(leaves)
        self.leaf = leaf
        self.pure = pure
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.budget = budget
        self.steps = 0
        self.max_unroll = max_unroll
        self.one_way = None
        self.one_way_place = None       # (state, value) -> is it a place in a structure that is known there?
        self.reenter = ()               # functions that are entered although they call themselves
        self.max_paths = 64
        self.chars_vec = True         # the characters of a text, collected, are a list of their own
        self.public = False
        self.exact_saturating = False # saturating arithmetic is read as exact (a rule that asks for this bounds what it adds up)
        self.outs = []           # panic / back / unreachable outcomes
        self.on_panic = on_panic
        self.consts = {}
        self.prelim = 0
        self.entered = set()
        self.field_names = {}
        self.peel = False        # is the first round of every loop looked at on its own?
        self.obl = {}            # panic obligations: key -> [discharged, failed]
        self.guards = None       # called for each borrow of a RefCell when live guards are to be followed
        self.enter_hook = enter
        self.transparent = set(transparent)

    # ---- memory -----------------------------------------------------------
    def fresh(self, st, site, op='hv', ty=None):
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        return sym(op, site, n, ty=ty)

    def rd_cell(self, st, cell):
        if cell in st.mem:
            return st.mem[cell]
        if cell[0] == 'S':
            return cell[1]
        return ('y', 'undef', cell)

    def proj_read(self, st, v, pe):
        k = pe[0]
        if k == '*':
            while v[0] == 'ref':
                return self.rd(st, v[1], v[2])
            if v[0] == 'y':
                return st.mem.get(('S', v), v)
            return v
        if k == 'f':
            idx, name, owner, ty = pe[1], pe[2], pe[3], pe[4]
            if strip_ty(owner or '') in SKIP_OWNERS:
                return v
            return self.field(st, v, idx, name, ty)
        if k == 'd':
            if v[0] == 'y':
                return ('dc', v, pe[1], pe[2])
            return v
        if k == 'i' or k == 'ci':
            raise AssertionError
        return v

    def field(self, st, v, idx, name, ty=None):
        n = 0
        while v[0] == 'ref' and n < 30:
            v = self.rd(st, v[1], v[2])
            n += 1
        if v[0] == 'A':
            return v[4][idx] if idx < len(v[4]) else ('y', 'badfld', v, idx)
        if v[0] == 'T' or v[0] == 'R':
            return v[1][idx] if idx < len(v[1]) else ('y', 'badfld', v, idx)
        if v[0] == 'C':
            return v[2][idx] if idx < len(v[2]) else ('y', 'badfld', v, idx)
        if v[0] == 'U':
            d = dict(v[2])
            if idx in d:
                return d[idx]
            if v[1][0] == 'y':
                return sym('fld', v[1], idx, name, ty=ty)      # the value before any update
            return self.field(st, v[1], idx, name, ty)
        if v[0] == 'dc':
            return sym('vf', v[1], v[3], idx, ty=ty)
        if v[0] == 'y':
            m = st.mem.get(('S', v))
            if m is not None and m != v:
                return self.field(st, m, idx, name, ty)
            return sym('fld', v, idx, name, ty=ty)
        return ('y', 'fld', v, idx, name)

    def rd(self, st, cell, proj):
        v = self.rd_cell(st, cell)
        for pe in proj:
            v = self.sub_read(st, v, pe)
        return v

    def sub_read(self, st, v, pe):
        # pe: resolved projection element: ('f',idx,name,owner,ty) / ('d',vi,name) / ('x', indexvalue)
        if pe[0] == 'x':
            return self.index(st, v, pe[1])
        return self.proj_read(st, v, pe)

    def index(self, st, v, i):
        if v[0] == 'ref':
            v = self.rd(st, v[1], v[2])
        if v[0] == 'y':
            v = st.mem.get(('S', v), v)
        els = None
        if v[0] == 'R':
            els = v[1]
        elif v[0] == 'V':
            els = v[2]
        i = st.nl(i)
        if els is not None and isint(i) and 0 <= i[1] < len(els):
            return els[i[1]]
        if v[0] == 'V':
            b = v[3] if els is None and v[3] is not None else self.norm(st, v)
        else:
            b = v
        while b[:2] == ('y', 'insert') and b[3] == I(0) and isint(i) and i[1] >= 0:
            if i[1] == 0:
                return b[4]
            b, i = b[2], I(i[1] - 1)
            if b[0] == 'R' and i[1] < len(b[1]):
                return b[1][i[1]]
        while b[:2] == ('y', 'insert') and b[3] == I(0) and st.ent_le(lsub(I(1), i)):
            b, i = b[2], st.nl(lsub(i, I(1)))
        if b[:2] == ('y', 'snoc') and i == self.length_term(b[2]):
            return b[3]
        while b[:2] == ('y', 'store'):
            d = st.nl(lsub(b[3], i))
            if d == I(0):
                return b[4]
            if not (isint(d) or st.ent_le(ladd(I(1), d)) or st.ent_le(lsub(I(1), d))):
                break
            b = b[2]
        if b[:2] == ('y', 'w'):
            mp = self.mapping(st, b)
            if mp is not None:
                return self.image(st, mp, i)
        return sym('elem', b, i)

    def mapping(self, st, w):
        """(sequence, its length, the element's symbol, its image) when the list w was made by a loop that goes through the
        sequence from its front and appends for each element the same term of it"""
        for k, g in st.aux.items():
            if k[0] == 'map' and k[1] == w and g[0] is st.aux.get(('gw', g[1])):
                return g[2]
        from .fold import Folds, ITEM, has_part
        F = Folds(self, ())
        og = F.origin(st, w)
        if og is None:
            return None
        key = og[0]
        if ('backs', key) not in st.aux:
            return None
        r = None
        ps = F.loop(st, w)
        if ps and len(ps) == 1 and ps[0][0] == 'for' and ps[0][2] == I(0):
            alts = ps[0][3]
            if alts and all(len(a) == 1 and a[0][0] == 'e' for _, a in alts) and all(a == alts[0][1] for _, a in alts):
                x = alts[0][1][0][1]
                if not has_part(x, lambda t: t[0] == 'y' and (t[1] == 'N' and (t[3], t[2]) == key or
                                                               t[1] == 'w' and (t[2][1], t[2][0]) == key or
                                                               t[1] == 'call' and len(t) > 4 or t[1] in ('hv', 'hp'))) and \
                        not has_part(x, lambda t: t[0] == 'ref'):
                    r = (ps[0][1], x)
        st.aux[('map', w)] = (st.aux.get(('gw', key)), key, r)
        return r

    def image(self, st, mp, i):
        from .fold import ITEM, subst
        e = self.index(st, mp[0], i) if mp[0][:2] != ('y', 'chars') else sym('elem', mp[0], i, ty='char')
        e = self.own(st, e)
        return subst(mp[1], lambda t: e if t == ITEM else None)

    def sub_write(self, st, v, proj, val):
        if not proj:
            if val[0] == 'V' and val[2] is None and val[3] and val[3][0] == 'y' and val[1] == self.length_term(val[3]):
                return val[3]
            return val
        pe = proj[0]
        if pe[0] == 'f':
            if strip_ty(pe[3] or '') in SKIP_OWNERS:
                return self.sub_write(st, v, proj[1:], val)
            idx = pe[1]
            new = self.sub_write(st, self.field(st, v, idx, pe[2], pe[4]) if v[0] != 'y' or v[1] != 'undef' else ('y', 'undef'),
                                 proj[1:], val)
            if v[0] == 'A':
                f = list(v[4])
                while len(f) <= idx:
                    f.append(('y', 'undef'))
                f[idx] = new
                return v[:4] + (tuple(f),)
            if v[0] in ('T', 'R'):
                f = list(v[1])
                while len(f) <= idx:
                    f.append(('y', 'undef'))
                f[idx] = new
                return (v[0], tuple(f))
            if v[0] == 'U':
                d = dict(v[2])
                d[idx] = new
                self.field_names[(v[1], idx)] = (pe[2], pe[4])
                if v[1][0] == 'y' and new == ('y', 'fld', v[1], idx, pe[2]):
                    del d[idx]
                    if not d:
                        return v[1]
                return ('U', v[1], tuple(sorted(d.items())))
            if v[0] == 'dc':
                return ('y', 'upd', v, idx, new)
            self.field_names[(v, idx)] = (pe[2], pe[4])
            if v[0] == 'y' and new == ('y', 'fld', v, idx, pe[2]):
                return v
            return ('U', v, ((idx, new),))
        if pe[0] == 'd':
            return self.sub_write(st, v, proj[1:], val)
        if pe[0] == 'x':
            i = st.nl(pe[1])
            new = self.sub_write(st, self.index(st, v, i), proj[1:], val)
            if v[0] in ('R',) and isint(i) and i[1] < len(v[1]):
                f = list(v[1])
                f[i[1]] = new
                return (v[0], tuple(f))
            if v[0] == 'V':
                if v[2] is not None and isint(i) and 0 <= i[1] < len(v[2]):
                    f = list(v[2])
                    f[i[1]] = new
                    return ('V', v[1], tuple(f), None)
                return ('V', v[1], None, self.store(v[3], i, new))
            return self.store(v, i, new)
        return val

    def store(self, v, i, new):
        if isinstance(v, tuple) and v[:2] == ('y', 'store') and v[3] == i:
            v = v[2]
        return ('y', 'store', v, i, new)

    def wr(self, st, cell, proj, val):
        if not proj:
            st.mem[cell] = val
        else:
            st.mem[cell] = self.sub_write(st, self.rd_cell(st, cell), proj, val)

    def lplace(self, st, fr, pl):
        """place -> (cell, proj)"""
        cell = (fr.id, pl['l'])
        proj = ()
        for pe in pl['p']:
            k = pe[0]
            if k == '*':
                v = self.rd(st, cell, proj)
                n = 0
                if v[0] == 'ref':
                    cell, proj = v[1], v[2]
                elif v[0] == 'y':
                    cell, proj = ('S', v), ()
                else:
                    # a box, or a reference to a constant: same place
                    pass
            elif k == 'f':
                proj = proj + (('f', pe[1], pe[2], pe[3], pe[4]),)
            elif k == 'd':
                proj = proj + (('d', pe[1], pe[2]),)
            elif k == 'i':
                iv = self.rd(st, (fr.id, pe[1]), ())
                proj = proj + (('x', iv),)
            elif k == 'ci':
                off, minlen, fromend = pe[1], pe[2], pe[3]
                if fromend:
                    v = self.rd(st, cell, proj)
                    l = self.length(st, v)
                    proj = proj + (('x', ladd(l, I(-off))),)
                else:
                    proj = proj + (('x', I(off)),)
            elif k == 'sub':
                proj = proj + (('f', -1, 'subslice', '', ''),)
        return cell, proj

    def read(self, st, fr, pl):
        c, p = self.lplace(st, fr, pl)
        return self.rd(st, c, p)

    def write(self, st, fr, pl, v):
        if pl['p']:
            c, p = self.lplace(st, fr, pl)
            if c[0] == 'S':
                st.add(('write', self.norm(st, c[1]), tuple(x[2] if x[0] == 'f' else x[0] for x in p), self.norm(st, v), fr.fn['path']))
            self.wr(st, c, p, v)
        else:
            st.mem[(fr.id, pl['l'])] = v

    def norm(self, st, v, depth=0):
        """the value with references followed"""
        if depth > 40:
            return v
        t = v[0]
        if t == 'ref':
            return self.norm(st, self.rd(st, v[1], v[2]), depth + 1)
        if t == 'y':
            m = st.mem.get(('S', v))
            if m is not None and m != v:
                return self.norm(st, m, depth + 1)
            k = st.known.get(v)
            if k is not None and not isinstance(k, str):
                if isinstance(k, bool):
                    return ('b', k)
                if isinstance(k, int):
                    return I(k)
            if isinstance(k, tuple):
                return k
            return v
        if t == 'i':
            return st.nl(v)
        if t == 'A':
            return self.eta(v[:4] + (tuple(self.norm(st, x, depth + 1) for x in v[4]),))
        if t in ('T', 'R'):
            return (t, tuple(self.norm(st, x, depth + 1) for x in v[1]))
        if t == 'C':
            return ('C', v[1], tuple(self.norm(st, x, depth + 1) for x in v[2]))
        if t == 'V':
            if v[2] is not None:
                return ('R', tuple(self.norm(st, x, depth + 1) for x in v[2]))
            return v[3] if v[3] is not None else v
        if t == 'U':
            return ('U', v[1] if v[1][0] == 'y' else self.norm(st, v[1], depth + 1), tuple((k, self.norm(st, x, depth + 1)) for k, x in v[2]))
        if t == 'it':
            return ('it', v[1]) + tuple(self.norm(st, x, depth + 1) if isinstance(x, tuple) and x else x for x in v[2:])
        if t == 'cat':
            return v
        return v

    def own(self, st, v, depth=0):
        """like norm, but pointers (Rc) stay pointers"""
        if depth > 40:
            return v
        t = v[0]
        if t == 'ref':
            if v[1][0] == 'H' and not v[2]:
                return v
            return self.own(st, self.rd(st, v[1], v[2]), depth + 1)
        if t == 'y':
            if ('S', v) in st.mem:
                return v
            return self.norm(st, v)
        if t == 'A':
            return v[:4] + (tuple(self.own(st, x, depth + 1) for x in v[4]),)
        if t in ('T', 'R'):
            return (t, tuple(self.own(st, x, depth + 1) for x in v[1]))
        if t == 'V' and v[2] is not None:
            return ('R', tuple(self.own(st, x, depth + 1) for x in v[2]))
        return self.norm(st, v)

    def eta(self, v):
        if v[0] == 'A' and v[4]:
            n = self.P.nfields.get((v[1], v[2]))
            if n == len(v[4]):
                f0 = v[4][0]
                if f0[0] == 'y' and f0[1] == 'fld' and f0[3] == 0 and len(self.P.variants.get(v[1], ())) == 1:
                    s = f0[2]
                    if all(f[0] == 'y' and f[1] == 'fld' and f[2] == s and f[3] == i for i, f in enumerate(v[4])):
                        return s
                if f0[0] == 'y' and f0[1] == 'vf' and f0[4] == 0 and f0[3] == v[3]:
                    s = f0[2]
                    if all(f[0] == 'y' and f[1] == 'vf' and f[2] == s and f[3] == v[3] and f[4] == i for i, f in enumerate(v[4])):
                        return s
        return v

    def deref(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 20:
            v = self.rd(st, v[1], v[2])
            n += 1
        if v[0] == 'y':
            v = st.mem.get(('S', v), v)
        return v

    # ---- operands ----------------------------------------------------------
    def operand(self, st, fr, o):
        if o['k'] in ('copy', 'move'):
            return self.read(st, fr, o['pl'])
        if 'fn' in o:
            g = o['fn']
            return ('F', g['path'])
        return self.constant(o.get('v'), o.get('ty'), fr)

    def constant(self, v, ty, fr=None):
        if v is None:
            return ('y', 'const', ty)
        if 'int' in v:
            return I(v['int'])
        if 'bool' in v:
            return ('b', bool(v['bool']))
        if 'char' in v:
            return I(v['char'] if isinstance(v['char'], int) else ord(v['char']))
        if 'str' in v:
            return ('s', v['str'])
        if 'bytes' in v:
            return ('by', tuple(v['bytes']))
        if 'float' in v:
            return ('fl', str(v['float']))
        if 'promoted' in v:
            return self.promoted(v['of'], v['promoted'])
        if 'repr' in v and (ty in INT_TYS):
            try:
                return I(int(str(v['repr']).split('_')[0]))
            except ValueError:
                pass
        if 'repr' in v and str(ty).endswith('str') and re.fullmatch(r'"[^"\\\\]*"', str(v['repr'])):
            return ('s', v['repr'][1:-1])
        if 'zst' in v:
            t = ty or ''
            if t == '()':
                return UNIT
            if '{closure' in t:
                return ('y', 'zst', t)
            a = strip_ty(t)
            if a in self.P.variants and len(self.P.variants[a]) == 1:
                return ('A', a, 0, self.P.variants[a][0], ())
            return UNIT
        if 'item' in v:
            ev = v.get('ev')
            if ev:
                return self.constant(ev, ty, fr)
            return self.const_item(v['item'])
        return ('y', 'const', repr(v))

    def const_item(self, path):
        if path in self.consts:
            return self.consts[path]
        f = self.P.fns.get(path)
        if f is None:
            return ('y', 'const', path)
        self.consts[path] = ('y', 'const', path)
        v = self.const_body(f, f['blocks'], path)
        self.consts[path] = v
        return v

    def promoted(self, of, n):
        key = (of, n)
        if key in self.consts:
            return self.consts[key]
        f = self.P.fns.get(of)
        if f is None or n >= len(f.get('proms', [])):
            return ('y', 'prom', of, n)
        v = self.const_body(f, f['proms'][n]['blocks'], key)
        self.consts[key] = v
        return v

    def const_body(self, f, blocks, key):
        body = dict(path=str(key), blocks=blocks, locals=[], argc=0, proms=f.get('proms', []), kind='const')
        st = State()
        fr = Frame(body, ('const', key), 0, ())
        outs = self.explore(0, st, fr)
        for o in outs:
            if o.kind == 'ret':
                return self.norm(o.st, o.val)
        return ('y', 'constbody', str(key))

    # ---- rvalues ------------------------------------------------------------
    def rvalue(self, st, fr, r, sp=None):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['a'])
        if k in ('ref', 'raw'):
            pl = r['pl']
            c, p = self.lplace(st, fr, pl)
            # reborrow of a constant / symbol is the constant / symbol itself
            v = self.rd(st, c, p)
            if c[0] == 'S' and not p:
                return c[1]
            if not r.get('mut') and c[0] != 'S' and v[0] in ('s', 'by', 'ref') and pl['p'] and pl['p'][-1][0] == '*':
                return v
            return ('ref', c, p)
        if k == 'bin':
            return self.binop(st, r['op'], self.num(st, self.operand(st, fr, r['a'])), self.num(st, self.operand(st, fr, r['b'])), r['ty'])
        if k == 'un':
            a = self.num(st, self.operand(st, fr, r['a']))
            if r['op'] == 'Not':
                if a[0] in ('b', 'p') or r.get('ty') == 'bool' or (a[0] == 'y' and TYPES.get(a) == 'bool'):
                    return from_pred(pnot(to_pred(a)))
                return from_pred(pnot(to_pred(a))) if a[0] == 'y' else ('y', 'bitnot', a)
            if r['op'] == 'Neg':
                if a[0] == 'i':
                    return lmul(a, -1)
                return ('y', 'neg', self.norm(st, a))
            if r['op'] == 'PtrMetadata':
                return self.length(st, a)
            return ('y', r['op'], a)
        if k == 'cast':
            a = self.operand(st, fr, r['a'])
            c = r['c']
            if c.startswith('PointerCoercion') or c in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype'):
                return a
            a = self.num(st, a)
            if c == 'IntToInt':
                frm, to = r.get('from'), r['ty']
                if isint(a):
                    lo, hi = INT_TYS.get(to, (None, None))
                    if lo is not None and lo <= a[1] <= hi:
                        return a
                    if lo is not None:
                        m = a[1] & (hi - lo)
                        if lo < 0 and m > hi:
                            m -= (hi - lo + 1)
                        return I(m)
                fl, fh = INT_TYS.get(frm, (None, None))
                tl, th = INT_TYS.get(to, (None, None))
                if fl is not None and tl is not None:
                    if tl <= fl and fh <= th:
                        return a           # widening
                    an = st.nl(a)
                    if tl == 0 and th >= fh and st.ent_le(lmul(an, -1)):
                        return a           # i64 -> usize of a value known to be >= 0
                    if frm in ('usize', 'u64') and to == 'i64' and a[0] in ('i', 'y') and self.smallish(st, an):
                        return a
                return sym('cast', self.norm(st, a), frm, to, ty=to)
            if a[0] == 'fl' and r['ty'] in INT_TYS:
                try:
                    x = float(a[1])
                    lo, hi = INT_TYS[r['ty']]
                    return I(0 if x != x else lo if x <= lo else hi if x >= hi else int(x))
                except (ValueError, TypeError):
                    pass
            return sym('cast', self.norm(st, a), r.get('from'), r['ty'], ty=r['ty'])
        if k == 'disc':
            return ('D', self.deref(st, self.read(st, fr, r['pl'])), strip_ty(r['ty']))
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r['ops'])
            kd = r['kind']
            a = kd['a']
            if a == 'array':
                return ('R', ops)
            if a == 'tuple':
                return ('T', ops)
            if a == 'closure':
                return ('C', kd['path'], ops)
            if a == 'adt':
                return self.eta(('A', kd['path'], kd['vi'], kd['variant'], ops))
            return ('y', 'agg', repr(kd), ops)
        if k == 'repeat':
            a = self.operand(st, fr, r['a'])
            n = r.get('n')
            try:
                n = int(n)
                if n <= 64:
                    return ('R', (a,) * n)
            except Exception:
                pass
            return ('y', 'repeat', a, str(n))
        return self.fresh(st, (fr.id, 'rv', sp))

    def smallish(self, st, l):
        """a length, an index below a length, or a small constant: fits a signed 64 bit integer"""
        c, d = lin(l)
        if abs(c) > 2**40:
            return False
        for s in d:
            if s not in NONNEG:
                return False
            if s[1] not in ('len', 'N', 'w', 'fld', 'hv', 'call'):
                return False
        return True

    def num(self, st, v):
        if v[0] == 'ref':
            v = self.norm(st, v)
        if v[0] == 'y':
            k = st.known.get(v)
            if isinstance(k, bool):
                return ('b', k)
            if isinstance(k, int):
                return I(k)
        return v

    def binop(self, st, op, a, b, ty):
        a = self.deref(st, a)
        b = self.deref(st, b)
        if ty in INT_TYS:
            over = op.endswith('WithOverflow')
            o = op.replace('WithOverflow', '').replace('Unchecked', '')
            if is_num(a) and is_num(b):
                r = None
                if o == 'Add':
                    r = ladd(a, b)
                elif o == 'Sub':
                    r = lsub(a, b)
                elif o == 'Mul' and (isint(a) or isint(b)):
                    r = lmul(b, a[1]) if isint(a) else lmul(a, b[1])
                elif o in ('Div', 'Rem') and isint(a) and isint(b) and b[1]:
                    q = abs(a[1]) // abs(b[1])
                    if (a[1] < 0) != (b[1] < 0):
                        q = -q
                    r = I(q if o == 'Div' else a[1] - q * b[1])
                elif o in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and isint(a) and isint(b):
                    r = I({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1],
                           'Shl': a[1] << min(b[1], 64), 'Shr': a[1] >> min(b[1], 64)}[o])
                elif o == 'Lt':
                    return from_pred(le0(ladd(lsub(a, b), I(1))))
                elif o == 'Le':
                    return from_pred(le0(lsub(a, b)))
                elif o == 'Gt':
                    return from_pred(le0(ladd(lsub(b, a), I(1))))
                elif o == 'Ge':
                    return from_pred(le0(lsub(b, a)))
                elif o in ('Eq', 'Ne'):
                    p = self.int_eq(a, b)
                    return from_pred(p if o == 'Eq' else pnot(p))
                elif o == 'Cmp':
                    return ('y', 'cmp', self.norm(st, a), self.norm(st, b))
                if r is not None:
                    if over:
                        return ('T', (r, ('ovf', o, a, b, ty)))
                    return r
            na, nb = self.norm(st, a), self.norm(st, b)
            if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                if a[0] == 'D' or b[0] == 'D':
                    return self.disc_cmp(st, o, a, b)
                return sym('bin', o, na, nb, ty='bool')
            r = sym('bin', o, na, nb, ty=ty)
            if over:
                return ('T', (r, ('ovf', o, a, b, ty)))
            return r
        if ty == 'bool':
            if op in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if y[0] == 'b':
                        p = to_pred(x)
                        return from_pred(p if y[1] == (op == 'Eq') else pnot(p))
                na, nb = self.norm(st, a), self.norm(st, b)
                p = ('eqv',) + tuple(sorted((na, nb), key=repr))
                return from_pred(p if op == 'Eq' else pnot(p))
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                pa, pb = to_pred(a), to_pred(b)
                ea, eb = st.ev(pa), st.ev(pb)
                if op == 'BitAnd':
                    if ea is False or eb is False:
                        return FALSE
                    if ea is True:
                        return b
                    if eb is True:
                        return a
                if op == 'BitOr':
                    if ea is True or eb is True:
                        return TRUE
                    if ea is False:
                        return b
                    if eb is False:
                        return a
                return ('y', 'bin', op, self.norm(st, a), self.norm(st, b))
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                na, nb = self.norm(st, a), self.norm(st, b)
                if na[0] == 'b' and nb[0] == 'b':
                    return ('b', {'Lt': na[1] < nb[1], 'Gt': na[1] > nb[1], 'Le': na[1] <= nb[1], 'Ge': na[1] >= nb[1]}[op])
                return sym('bin', op, na, nb, ty='bool')
        na, nb = self.norm(st, a), self.norm(st, b)
        if a[0] == 'D' or b[0] == 'D':
            return self.disc_cmp(st, op, a, b)
        # isize comparison of discriminants etc. fall through; floats stay symbolic, with the comparison oriented
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and na[0] == 'fl' and nb[0] == 'fl':
            try:
                x, y = float(na[1]), float(nb[1])
                return ('b', {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op])
            except ValueError:
                pass
        if op in ('Add', 'Sub', 'Mul', 'Div') and ty == 'f64' and na[0] == 'fl' and nb[0] == 'fl':
            r = float_op(op, na[1], nb[1])
            if r is not None:
                return ('fl', repr(r))
        if op == 'Gt':
            op, na, nb = 'Lt', nb, na
        elif op == 'Ge':
            op, na, nb = 'Le', nb, na
        if op in ('Eq', 'Ne'):
            x, y = sorted((na, nb), key=repr)
            v = sym('bin', 'Eq', x, y, ty='bool')
            return v if op == 'Eq' else from_pred(pnot(to_pred(v)))
        return sym('bin', op, na, nb, ty='bool' if op in ('Lt', 'Le') else ty)

    def disc_cmp(self, st, op, a, b):
        """comparison of two discriminants (derived PartialEq)"""
        if op in ('Eq', 'Ne'):
            p = None
            if a[0] == 'D' and b[0] == 'D':
                p = self.variant_eq(st, a[1], b[1], a[2])
            elif a[0] == 'D' and isint(b) or b[0] == 'D' and isint(a):
                d, n = (a, b) if a[0] == 'D' else (b, a)
                vs = self.P.variants.get(d[2])
                ds = self.P.discs.get(d[2])
                if vs and n[1] in ds:
                    p = self.var_pred(d[1], d[2], vs[ds.index(n[1])])
            if p is not None:
                return from_pred(p if op == 'Eq' else pnot(p))
        return ('y', 'bin', op, a, b)

    def var_pred(self, v, adt, name):
        if v[0] == 'A':
            return ('const', v[3] == name)
        return ('var', v, name)

    def variant_eq(self, st, a, b, adt):
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == 'A' and b[0] == 'A':
            return ('const', a[3] == b[3])
        if a[0] == 'A':
            return ('var', b, a[3])
        if b[0] == 'A':
            return ('var', a, b[3])
        if a == b:
            return ('const', True)
        ka, kb = st.known.get(a), st.known.get(b)
        if isinstance(ka, str) and isinstance(kb, str):
            return ('const', ka == kb)
        if isinstance(ka, str):
            return ('var', b, ka)
        if isinstance(kb, str):
            return ('var', a, kb)
        return ('eqv',) + tuple(sorted((a, b), key=repr))

    def int_eq(self, a, b):
        l = lsub(a, b)
        if isint(l):
            return ('const', l[1] == 0)
        c, d = lin(l)
        ks = sorted(d.items(), key=repr)
        if ks and ks[0][1] < 0:
            l = lmul(l, -1)
        return ('eq', l)

    def length(self, st, v):
        v = self.deref(st, v)
        if v[0] == 'R':
            return I(len(v[1]))
        if v[0] == 'V':
            return v[1]
        if v[0] in ('s',):
            return I(len(v[1].encode()))
        if v[0] == 'by':
            return I(len(v[1]))
        return self.length_term(self.norm(st, v))

    def length_term(self, v):
        if v[0] == 'R':
            return I(len(v[1]))
        if v[:2] in (('y', 'insert'), ('y', 'snoc')):
            return ladd(self.length_term(v[2]), I(1))
        if v[:2] == ('y', 'remove'):
            return ladd(self.length_term(v[2]), I(-1))
        if v[:2] in (('y', 'upd'), ('y', 'store'), ('y', 'sorted')):
            return self.length_term(v[2])
        if v[:2] == ('y', 'sl') and len(v) == 5:
            return lsub(v[4], v[3])
        if v[0] == 's':
            return I(len(v[1].encode()))
        return sym('len', v, nonneg=True)

    # ---- equality of values -------------------------------------------------
    def equal(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b and a[0] not in ('fl',) and not self.floaty(a):
            return ('const', True)
        for x, y in ((a, b), (b, a)):
            if x[0] in ('s',):
                if y[0] == 's':
                    return ('const', x[1] == y[1])
                if y[0] == 'y':
                    return ('var', y, ('s', x[1]))
                if y[0] == 'cat':
                    # a constant cannot equal a concatenation whose constant parts are longer
                    n = sum(len(p[1]) for p in y[1] if p[0] == 's')
                    if n > len(x[1]):
                        return ('const', False)
                    if x[1] == '' and n == 0 and any(p[0] == 'ch' for p in y[1]):
                        return ('const', False)
            if x[0] == 'b':
                p = to_pred(y)
                return p if x[1] else pnot(p)
            if x[0] == 'A' and not x[4]:
                if y[0] == 'A':
                    return ('const', x[3] == y[3])
                if y[0] == 'y':
                    return ('var', y, x[3])
            if isint(x):
                if y[0] == 'i' or y[0] == 'y':
                    return self.int_eq(x, y)
        if a[0] == 'i' or b[0] == 'i':
            if is_num(a) and is_num(b):
                return self.int_eq(a, b)
        if a[0] == 'A' and b[0] == 'A' and a[1] == b[1] and a[3] != b[3]:
            return ('const', False)
        return ('eqv',) + tuple(sorted((a, b), key=repr))

    def floaty(self, v):
        return v[0] == 'y' and TYPES.get(v) in ('f64', 'f32')

    # ---- exploration ---------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded')

    def explore(self, start, st, fr, stop=None, within=None):
        """explores from a block; returns Outcomes: 'ret'; with stop, 'back' (at stop again); with within, 'exit'"""
        res = []
        work = [(start, st, True)]
        loops = loop_info(fr.fn) if fr.fn['kind'] != 'const' else {}
        while work:
            b, st, first = work.pop()
            if not first and stop is not None and b == stop:
                res.append(Outcome('back', st, info=(fr.fn['path'], b)))
                continue
            if within is not None and b not in within:
                res.append(Outcome('exit', st, info=b))
                continue
            if b in loops and not (first and stop == b):
                key = (fr.id, b)
                if key in st.aux:
                    # a back edge of a loop already summarised on this path
                    self.emit(Outcome('back', st, info=(fr.fn['path'], b, key)))
                    continue
                done, final = self.enter_loop(b, st, fr, loops[b])
                for o in done:
                    if o.kind == 'ret':
                        res.append(o)
                    else:
                        work.append((o.info, o.st, False))
                for s2 in final:
                    for x in self.step(b, s2, fr, res):
                        work.append((x[0], x[1], False))
                continue
            for x in self.step(b, st, fr, res):
                work.append((x[0], x[1], False))
        return res

    def emit(self, o):
        if self.prelim == 0:
            self.outs.append(o)

    def enter_loop(self, h, st, fr, body):
        """(outcomes that leave the loop while it runs over known elements, states for the loop in general)"""
        cur = [st]
        done = []
        n = 0
        mine = {k for k in st.mem if isinstance(k, tuple) and k[0] == fr.id} if self.one_way else ()
        while cur and n < self.max_unroll and (all(self.concrete_loop(s, fr, h, body) for s in cur) or
                                               self.one_way and all(self.one_way_round(s, fr, h, body, mine) for s in cur) or
                                               n == 0 and self.peel):
            nxt = []
            for s in cur:
                for o in self.explore(h, s, fr, stop=h, within=body):
                    if o.kind == 'back':
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = nxt
            n += 1
            if len(cur) > self.max_paths:
                break
        return done, [self.widen_loop(h, s, fr, body) for s in cur]

    def one_way_round(self, st, fr, h, body, mine):
        """is what this loop does next decided by what is known (asked for where a loop works on constants only)?  Then there is one
        way round or out, or the loop only counts, with constants, and no way depends on a number that is not known."""
        if not self.one_way(fr.fn['path']):
            return False
        self.prelim += 1
        try:
            outs = self.explore(h, st.fork(), fr, stop=h, within=body)
        finally:
            self.prelim -= 1
        if len(outs) == 1:
            return True
        backs = [o for o in outs if o.kind == 'back']
        if not backs or any(len(o.st.les) != len(st.les) for o in outs):
            return False
        moved = {k for o in backs for k in mine if o.st.mem.get(k) != st.mem.get(k)}
        place = self.one_way_place or (lambda s, v: False)
        return any(isint(self.norm(st, st.mem[k])) or place(st, self.norm(st, st.mem[k])) for k in moved if k in st.mem) and \
            all(k in o.st.mem and (self.ground(o.st, o.st.mem[k]) or place(o.st, self.norm(o.st, o.st.mem[k]))) for o in backs for k in moved)

    def concrete_loop(self, st, fr, h, body):
        """is there an iterator over known elements driving this loop?"""
        f = fr.fn
        if f['kind'] == 'const':
            return False
        ls = self.iter_locals(f, h, body)
        for l in ls:
            v = self.deref(st, st.mem.get((fr.id, l), ('y', 'undef')))
            if v[0] == 'it' and self.it_concrete(st, v):
                return True
            if v[0] == 'A' and 'Range' in v[1] and len(v[4]) >= 2:
                lo, hi = st.nl(v[4][0]), st.nl(v[4][1])
                if isint(lo) and isint(hi) and hi[1] - lo[1] <= 300:
                    return True
        return False

    def iter_locals(self, f, h, body):
        """locals holding the iterators advanced at this loop's own level"""
        key = ('iterlocals', h)
        if key not in f:
            loops = loop_info(f)
            own = set()
            for b in body:
                t = f['blocks'][b]['t']
                if t['k'] == 'call' and t['f'] and t['f']['decl'] == 'std::iter::Iterator::next':
                    if [hh for hh, bb in loops.items() if hh != h and b in bb and hh in body]:
                        continue
                    for x in f['blocks'][b]['s']:
                        if x['k'] == '=' and x['rv']['k'] == 'ref' and x['rv'].get('mut'):
                            own.add(x['rv']['pl']['l'])
            f[key] = own
        return f[key]

    def it_concrete(self, st, v):
        k = v[1]
        if k == 'slice':
            c = self.deref(st, v[2])
            pos = st.nl(v[3])
            if isint(pos) and (c[0] == 'V' and c[2] is None and c[3] or c[:2] == ('y', 'insert')):
                n, b = 0, c if c[0] == 'y' else c[3]      # the elements put in front are known
                while b[:2] == ('y', 'insert') and b[3] == I(0):
                    n, b = n + 1, b[2]
                return pos[1] < n
            return (c[0] == 'R' or (c[0] == 'V' and c[2] is not None)) and isint(pos)
        if k == 'range' or k == 'rrange':
            lo, hi = st.nl(v[2]), st.nl(v[3])
            return isint(lo) and isint(hi) and hi[1] - lo[1] <= 300
        if k == 'chars':
            return v[2][0] == 's' and isint(st.nl(v[3]))
        if k == 'zip' or k == 'chain':
            return all(x[0] == 'it' and self.it_concrete(st, x) for x in v[2:4])
        if k in ('map', 'filter', 'filter_map', 'rev', 'cloned', 'enum', 'take_while', 'take', 'skip'):
            return v[2][0] == 'it' and self.it_concrete(st, v[2])
        return False

    # ---- widening -------------------------------------------------------------
    def widen_loop(self, h, st, fr, body):
        key = (fr.id, h)
        W = st.fork()
        W.aux[key] = True
        ind = {}
        mono = {}
        dead = set()
        self.prelim += 1
        try:
            for phase in range(14):
                base = W.fork()
                backs = [o for o in self.explore(h, W.fork(), fr, stop=h, within=body) if o.kind == 'back']
                changed = False
                cells = {}
                for o in backs:
                    for cell in o.st.mem:
                        cells[cell] = True
                for cell in cells:
                    if not self.live_cell(cell, fr):
                        continue
                    if cell[0] != 'S' and cell not in base.mem:
                        continue                  # assigned in the body before it is used
                    dflt = cell[1] if cell[0] == 'S' else None
                    old = base.mem.get(cell, dflt)
                    news = [(o.st.mem.get(cell, old), o.st) for o in backs]
                    if all(n == old for n, _ in news):
                        continue
                    hint = None
                    if cell[0] == fr.id and isinstance(cell[1], int) and fr.fn['locals']:
                        hint = fr.fn['locals'][cell[1]]['ty']
                    w = self.widen_val(W, st.mem.get(cell, dflt), old, news, (h, fr.id, cell), ind, mono, dead, hint)
                    if w != old:
                        W.mem[cell] = w
                        changed = True
                # variants, flags and constants that changed are covered by the widened cells; facts about symbols
                # stay true, they speak about values and not about places
                if not changed:
                    break
            else:
                raise AnalysisError('loop widening does not converge in %s' % fr.fn['path'])
        finally:
            self.prelim -= 1
        for k, (v0, symv, sign) in mono.items():
            if sign == 1:
                W.les = W.les + (lsub(v0, symv),)
            elif sign == -1:
                W.les = W.les + (lsub(symv, v0),)
        W.aux[('ind', key)] = tuple(ind.items())
        W.aux[('entry', key)] = len(st.events())
        W.aux[('wmem', key)] = dict(W.mem)
        W.aux[('smem', key)] = st.mem
        W.aux[('gw', key)] = W.aux[('wmem', key)]
        W.aux[('gs', key)] = st.mem
        bounds = self.loop_bounds(W, st, backs)
        if bounds:
            W.les = W.les + tuple(bounds)
        inside = self.inside_lists(W, st, cells)
        while inside:
            X = W.fork()
            X.les = X.les + tuple(l for l, _ in inside)
            self.prelim += 1
            try:
                backs = [o for o in self.explore(h, X, fr, stop=h, within=body) if o.kind == 'back']
            finally:
                self.prelim -= 1
            kept = [(l, after) for l, after in inside if all((n := after(o.st)) is not None and o.st.ent_le(n) for o in backs)]
            if len(kept) == len(inside):
                W.les = W.les + tuple(l for l, _ in inside)
                bounds = True
                break
            inside = kept
        if bounds or mono:
            self.prelim += 1
            try:
                backs = [o for o in self.explore(h, W.fork(), fr, stop=h, within=body) if o.kind == 'back']
            finally:
                self.prelim -= 1
        for o in backs:
            o.info = (fr.fn['path'], h, key)
            for k in ('entry', 'gw', 'gs'):
                o.st.aux[(k, key)] = W.aux[(k, key)]
        W.aux[('backs', key)] = backs
        W.add(('loop', fr.fn['path'], h))
        return W

    def inside_lists(self, W, st, cells):
        """candidates for numbers that stay positions in a list while both change: (claim at the head, the claim in a state)"""
        lens = [c for c in cells if W.mem.get(c, ('?',))[0] == 'V' and st.mem.get(c, ('?',))[0] == 'V' and W.mem[c][1] != st.mem[c][1]]
        nums = [c for c in cells if lens and c in st.mem and c in W.mem and is_num(W.mem[c]) and W.mem[c] != st.mem[c] and is_num(st.mem[c])]
        out = []

        def claim(c, n, k):
            def after(s):
                v, x = s.mem.get(c), s.mem.get(n)
                if v is None or v[0] != 'V' or x is None or not is_num(x):
                    return None
                return ladd(lsub(x, v[1]), I(k))
            return after
        for c in lens:
            for n in nums:
                for k in (1, 0):
                    after = claim(c, n, k)
                    if st.ent_le(after(st)) and not W.ent_le(after(W)):
                        out.append((after(W), after))
                        break
        return out

    def loop_bounds(self, W, st, backs):
        """upper bounds that hold whenever the loop's head is reached: the position of an iterator, and counters whose bound
        every way round keeps"""
        from .lib import int_parts
        out = []

        def iters(v):
            if isinstance(v, tuple) and v and v[0] == 'it':
                if v[1] == 'slice':
                    yield v
                for x in v[2:]:
                    for y in iters(x):
                        yield y
        def ranges(v, v0):
            if isinstance(v, tuple) and isinstance(v0, tuple) and v and v0 and v[0] == 'it' and v0[0] == 'it' and v[1] == v0[1]:
                if v[1] == 'range' and lin(v[2])[1] and v[3] == v0[3] and st.ent_le(lsub(v0[2], v0[3])):
                    out.append(lsub(v[2], v[3]))
                for x, y in zip(v[2:], v0[2:]):
                    ranges(x, y)
        for c, v in W.mem.items():
            if st.mem.get(c) == v:
                continue
            ranges(v, st.mem.get(c))
            for it in iters(v):
                if lin(it[3])[1]:
                    out.append(lsub(it[3], self.length(W, it[2])))
            if c not in st.mem or is_num(v) is False and v[0] not in ('T', 'A', 'U'):
                continue
            news = [o.st.mem.get(c) for o in backs]
            if not news or any(n is None for n in news):
                continue
            for (x, n0), (e, _) in zip(int_parts(v, news[0]), int_parts(st.mem[c], v)):
                if isint(x):
                    continue
                dx = lin(x)[1]
                for l in backs[0].st.les:
                    d = lin(l)[1]
                    lens = [s for s, k in d.items() if s[1] == 'len' and k == -1]
                    if len(lens) == 1:
                        L = lens[0]
                    elif all(d.get(s) == k for s, k in dx.items()) and l not in st.les:
                        L = ladd(lsub(x, l), I(1))         # a condition x < L of every way round
                        if isint(L) or any(s in dx for s in lin(L)[1]):
                            continue
                    else:
                        continue
                    if mentions_changed(L, W, st):
                        continue
                    if not st.ent_le(lsub(e, L)):
                        continue
                    ok = True
                    for o in backs:
                        ns = [b for a, b in int_parts(v, o.st.mem[c]) if a == x] or [x]
                        if not all(o.st.ent_le(lsub(b, L)) for b in ns):
                            ok = False
                    if ok and lsub(x, L) not in out:
                        out.append(lsub(x, L))
        return [b for b in out if not W.ent_le(b)]

    def live_cell(self, cell, fr):
        if cell[0] == 'S':
            return True
        fid = cell[0]
        # frames on the current stack
        return fid == fr.id or fid in fr.stack or fid in ('H', 'B')

    def widen_val(self, W, v0, old, news, key, ind, mono, dead, hint=None):
        """what covers old and every (value, state) of news, over any number of iterations"""
        def wsym():
            ty = hint if hint in INT_TYS or hint in ('bool', 'f64') else None
            for x in [old] + [n for n, _ in news]:
                if ty is None and x is not None:
                    ty = TYPES.get(x)
                    if ty is None and x[0] == 'i' and x[2]:
                        for sy, _ in x[2]:
                            ty = ty or TYPES.get(sy)
                    if ty is None and x[0] in ('b', 'p'):
                        ty = 'bool'
            return sym('w', key, ty=ty)
        if old is not None and old[0] == 'y' and old[1] == 'w' and old[2] == key:
            if key in mono:
                v, sy, sign = mono[key]
                for n, s in news:
                    d = lsub(n, old) if is_num(n) else None
                    if d is None or not s.ent_le(lmul(d, -sign)):
                        del mono[key]
                        break
            return old
        if key in dead or old is None:
            dead.add(key)
            return wsym()
        vals = [n for n, _ in news]
        if all(n == old for n in vals):
            return old
        if all(is_num(x) for x in [old] + vals) and (old[0] == 'i' or any(x[0] == 'i' for x in vals)):
            ds = [lsub(n, old) for n in vals]
            same = all(isint(d) and d == ds[0] for d in ds)
            if key in ind:
                if same and ds[0][1] == ind[key][1]:
                    return old
                del ind[key]
            elif same and v0 is not None and old == v0:
                n = sym('N', key[0], key[1], nonneg=True)
                ind[key] = (v0, ds[0][1])
                return ladd(v0, lmul(n, ds[0][1]))
            dead.add(key)
            w = wsym()
            if v0 is not None and is_num(v0):
                for sign in (1, -1):
                    if all(s.ent_le(lmul(lsub(n, old), -sign)) for n, s in news):
                        mono[key] = (v0, w, sign)
                        break
            return w
        t = old[0]

        def sub(i, a0, a, bs, hint=None):
            return self.widen_val(W, a0, a, bs, key + (i,), ind, mono, dead, hint)
        if t == 'A' and all(n[0] == 'A' and n[1:4] == old[1:4] and len(n[4]) == len(old[4]) for n in vals):
            z = v0[4] if v0 and v0[0] == 'A' and v0[3] == old[3] and len(v0[4]) == len(old[4]) else (None,) * len(old[4])
            return old[:4] + (tuple(sub(i, z[i], old[4][i], [(n[4][i], s) for n, s in news]) for i in range(len(old[4]))),)
        if t in ('T', 'R') and all(n[0] == t and len(n[1]) == len(old[1]) for n in vals):
            z = v0[1] if v0 and v0[0] == t and len(v0[1]) == len(old[1]) else (None,) * len(old[1])
            return (t, tuple(sub(i, z[i], old[1][i], [(n[1][i], s) for n, s in news]) for i in range(len(old[1]))))
        if t == 'V' and all(n[0] == 'V' for n in vals):
            l = sub('len', v0[1] if v0 and v0[0] == 'V' else None, old[1], [(n[1], s) for n, s in news], 'usize')
            same = l == old[1] and all(n[2] == old[2] and n[3] == old[3] for n in vals)
            return ('V', l, old[2], old[3]) if same else ('V', l, None, sym('w', key + ('elems',)))
        if t == 'it' and all(n[0] == 'it' and n[1] == old[1] and len(n) == len(old) for n in vals):
            z = v0 if v0 and v0[0] == 'it' and v0[1] == old[1] and len(v0) == len(old) else (None,) * len(old)
            out = list(old[:2])
            for i in range(2, len(old)):
                if isinstance(old[i], tuple) and old[i] and isinstance(old[i][0], str):
                    out.append(sub(i, z[i], old[i], [(n[i], s) for n, s in news], 'usize'))
                else:
                    out.append(old[i])
            return tuple(out)
        if t == 'U' or any(n[0] == 'U' for n in vals):
            base = old[1] if t == 'U' else old
            if all((n[0] == 'U' and n[1] == base) or n == base for n in vals):
                ks = set(k for k, _ in old[2]) if t == 'U' else set()
                for n in vals:
                    if n[0] == 'U':
                        ks |= set(k for k, _ in n[2])
                names = {}
                for k in ks:
                    names[k] = self.field_names.get((base, k), (None, None))

                def get(v, k, s):
                    if v is None:
                        return None
                    if v[0] == 'U':
                        d = dict(v[2])
                        if k in d:
                            return d[k]
                        v = v[1]
                    if v[0] == 'y':
                        return sym('fld', v, k, names[k][0], ty=names[k][1])
                    return self.field(s, v, k, names[k][0], names[k][1])
                z = v0 if v0 is not None and ((v0[0] == 'U' and v0[1] == base) or v0 == base) else None
                return ('U', base, tuple((k, sub(k, get(z, k, W), get(old, k, W), [(get(n, k, s), s) for n, s in news], names[k][1]))
                                         for k in sorted(ks)))
        dead.add(key)
        return wsym()

    # ---- statements and terminators ----------------------------------------------
    def step(self, b, st, fr, res):
        """executes one block; returns [(next block, state)]"""
        self.tick()
        blk = fr.fn['blocks'][b]
        for s in blk['s']:
            if s['k'] == '=':
                v = self.rvalue(st, fr, s['rv'], s.get('sp'))
                if v[0] == 'ovf':
                    pass
                self.write(st, fr, s['pl'], v)
                if self.guards:
                    self.move_guards(st, fr, s['rv'], s['pl'])
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'drop':
            if self.guards:
                st.aux.pop(('g', fr.id, t['pl']['l']), None)
            return [(t['t'], st)]
        if k == 'return':
            v = self.rd(st, (fr.id, 0), ())
            res.append(Outcome('ret', st, v))
            return []
        if k == 'unreachable' or k == 'resume':
            return []
        if k == 'switch':
            return self.switch(t, st, fr)
        if k == 'assert':
            return self.assert_(t, st, fr)
        if k == 'call':
            return self.call(t, b, st, fr)
        raise AnalysisError('terminator ' + k)

    def move_guards(self, st, fr, rv, pl):
        ops = [rv['a']] if rv['k'] in ('use', 'cast') else list(rv.get('ops') or ())
        for o in ops:
            if o.get('k') == 'move':
                g = st.aux.pop(('g', fr.id, o['pl']['l']), None)
                if g:
                    k = ('g', fr.id, pl['l'])
                    st.aux[k] = st.aux.get(k, frozenset()) | g

    def live_guards(self, st):
        return [x for k, v in st.aux.items() if k[0] == 'g' for x in v]

    def switch(self, t, st, fr):
        d = self.operand(st, fr, t['d'])
        d = self.num(st, d)
        out = []
        if d[0] == 'D':
            return self.switch_disc(t, st, d)
        if t['ty'] == 'bool':
            p = to_pred(d)
            # targets: value 0 -> false
            f_blk = None
            t_blk = t['o']
            for val, blk in t['t']:
                if int(val) == 0:
                    f_blk = blk
                else:
                    t_blk = blk
            if f_blk is None:
                f_blk = t['o']
            r = st.ev(p)
            if r is True:
                return [(t_blk, st)]
            if r is False:
                return [(f_blk, st)]
            s2 = st.fork()
            if s2.assume(p, True):
                out.append((t_blk, s2))
            if st.assume(p, False):
                out.append((f_blk, st))
            return out
        # integers, chars
        d = st.nl(d) if is_num(d) else d
        if isint(d):
            for val, blk in t['t']:
                if int(val) == d[1] or int(val) == d[1] & (2**64 - 1) or int(val) == d[1] & (2**128 - 1):
                    return [(blk, st)]
            return [(t['o'], st)]
        for val, blk in t['t']:
            p = self.int_eq(d, I(int(val)))
            r = st.ev(p)
            if r is False:
                continue
            if r is True:
                return out + [(blk, st)]
            s2 = st.fork()
            if s2.assume(p, True):
                out.append((blk, s2))
            if not st.assume(p, False):
                return out
        if t['o'] is not None:
            out.append((t['o'], st))
        return out

    def switch_disc(self, t, st, d):
        v, adt = d[1], d[2]
        vs = self.P.variants.get(adt)
        ds = self.P.discs.get(adt)
        if v[0] == 'A':
            n = self.P.discs.get(v[1], list(range(99)))[v[2]]
            for val, blk in t['t']:
                if int(val) == n or int(val) == n & (2**64 - 1) or int(val) == n & (2**128 - 1) or int(val) == n & 255:
                    return [(blk, st)]
            return [(t['o'], st)]
        if v[0] == 'y' and isinstance(st.known.get(v), str):
            name = st.known[v]
        else:
            name = None
        out = []
        if vs is None:
            for val, blk in t['t']:
                s2 = st.fork()
                if s2.assume(('var', v, int(val)), True):
                    out.append((blk, s2))
                if not st.assume(('var', v, int(val)), False):
                    return out
            out.append((t['o'], st))
            return out
        rest = dict(zip(vs, ds))
        for val, blk in t['t']:
            iv = int(val)
            nm = None
            for n, dd in list(rest.items()):
                if dd == iv or dd & (2**64 - 1) == iv or dd & (2**128 - 1) == iv or dd & 255 == iv:
                    nm = n
            if nm is None:
                continue
            del rest[nm]
            if name is not None:
                if name == nm:
                    return [(blk, st)]
                continue
            if nm in st.excl.get(v, ()):
                continue
            s2 = st.fork()
            if s2.assume(('var', v, nm), True):
                out.append((blk, s2))
            if not st.assume(('var', v, nm), False):
                return out
        live = [n for n in rest if n not in st.excl.get(v, ())]
        if name is not None:
            return [(t['o'], st)]
        if live and t['o'] is not None:
            if len(live) == 1:
                st.known[v] = live[0]
            out.append((t['o'], st))
        return out

    def panic(self, st, fr, t, what, detail=None):
        st.add(('panic', what, self.P.short(t.get('sp')), fr.fn['path']))
        self.emit(Outcome('panic', st, info=(what, fr.fn['path'], self.P.short(t.get('sp')), detail)))

    def oblige(self, fr, t, what, okay, detail=None):
        if fr.fn.get('std'):
            return
        if self.prelim:
            return
        key = (fr.fn['path'], what, self.P.short(t.get('sp')))
        e = self.obl.setdefault(key, [0, 0, detail])
        e[0 if okay else 1] += 1
        if not okay and detail is not None:
            e[2] = detail

    def assert_(self, t, st, fr):
        m = t['m']
        if m.startswith('other'):
            return [(t['t'], st)]
        c = self.operand(st, fr, t['c'])
        if m.startswith('overflow'):
            if c[0] == 'ovf':
                _, op, a, b, ty = c
                if self.no_overflow(st, op, a, b, ty):
                    self.oblige(fr, t, m, True)
                    return [(t['t'], st)]
                if op == 'Sub' and ty.startswith('u'):
                    # split: the panic path, and the path on which a >= b
                    p = le0(lsub(b, a))
                    r = st.ev(p)
                    if r is not False:
                        self.oblige(fr, t, m, False, (op, self.norm(st, a), self.norm(st, b), ty))
                        self.panic(st.fork(), fr, t, m, (op, a, b, ty))
                        if st.assume(p, True):
                            return [(t['t'], st)]
                        return []
                self.oblige(fr, t, m, False, (op, self.norm(st, a), self.norm(st, b), ty))
                self.panic(st.fork(), fr, t, m, (op, a, b, ty))
                return [(t['t'], st)]
            self.oblige(fr, t, m, False)
            return [(t['t'], st)]
        p = to_pred(self.num(st, c))
        if not t['e']:
            p = pnot(p)
        r = st.ev(p)
        if r is True:
            self.oblige(fr, t, m, True)
            return [(t['t'], st)]
        self.oblige(fr, t, m, False, p)
        self.panic(st.fork(), fr, t, m)
        if r is None and st.assume(p, True):
            return [(t['t'], st)]
        return []

    def no_overflow(self, st, op, a, b, ty):
        lo, hi = INT_TYS.get(ty, (None, None))
        if lo is None:
            return False
        a, b = st.nl(a), st.nl(b)
        if isint(a) and isint(b):
            r = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}.get(op)
            return r is not None and lo <= r <= hi
        if op == 'Sub' and lo == 0:
            return st.ent_le(lsub(b, a))
        r = {'Add': lambda: ladd(a, b), 'Sub': lambda: lsub(a, b),
             'Mul': lambda: lmul(a, b[1]) if isint(b) else lmul(b, a[1]) if isint(a) else None}.get(op, lambda: None)()
        if r is not None:
            up = {'Add': lambda: st.ent_le(b) or st.ent_le(a), 'Sub': lambda: st.ent_le(lneg(b))}.get(op, lambda: False)
            down = {'Add': lambda: st.ent_le(lneg(b)) or st.ent_le(lneg(a)), 'Sub': lambda: st.ent_le(b)}.get(op, lambda: False)
            if (up() or st.ent_le(lower_terms(lsub(r, I(hi))))) and (down() or st.ent_le(lower_terms(lsub(I(lo), r)))):
                return True
        if op == 'Add' and ty in ('usize', 'u64') and self.counter(a, st) and self.counter(b, st):
            return True
        if ty == 'i64' and op in ('Add', 'Sub') and self.counter(a, st) and self.counter(b, st):
            return True          # lengths and positions, one step each: never near 2^63
        if ty in ('i32',) and op in ('Add', 'Sub') and ((isint(b) and abs(b[1]) == 1) or (isint(a) and abs(a[1]) == 1)):
            return True          # nesting depth, one step at a time (see DESIGN: inputs below 2^31 characters)
        return False

    def counter(self, l, st):
        """sum of few lengths, positions, loop counts and small constants"""
        c, d = lin(l)
        if abs(c) > 2**32:
            return False
        for s, x in d.items():
            if abs(x) > 8:
                return False
            if s[1] in ('len', 'N'):
                continue
            if s[1] == 'arg' and self.public and not self.below_length(st, s):
                return False                  # whatever the caller likes
            if s in NONNEG and TYPES.get(s) in ('usize', None):
                continue
            return False
        return True

    def below_length(self, st, s):
        for l in st.les:
            d = lin(l)[1]
            if d.get(s) == 1 and any(x[1] == 'len' and st.ent_le(lsub(s, x)) for x in d):
                return True
        return False

    # ---- calls -----------------------------------------------------------------
    def call(self, t, b, st, fr):
        g = t['f']
        args = [self.operand(st, fr, a) for a in t['args']]
        path = None
        decl = None
        if g is None:
            fo = self.deref(st, self.operand(st, fr, t['fo']))
            if fo[0] == 'F':
                path = decl = fo[1]
            elif fo[0] == 'C':
                path = decl = fo[1]
                args = [fo] + args
        else:
            path, decl = g['path'], g['decl']
        dty = fr.fn['locals'][t['dest']['l']]['ty'] if not t['dest']['p'] and fr.fn['locals'] else None
        site = (fr.id, b)
        held = None
        if self.guards:
            held = frozenset()
            self.passed = []
            for i, a in enumerate(t['args']):
                if a['k'] == 'move':
                    x = st.aux.pop(('g', fr.id, a['pl']['l']), frozenset())
                    held |= x
                    if x:
                        self.passed.append((i, x))
            held |= self.guards(self, st, path, decl, args, fr, t)
            if decl and decl.endswith('mem::drop'):
                held = frozenset()
        outs = self.do_call(path, decl, g, args, st, fr, site, t, dty)
        res = []
        for s2, v in outs:
            if held is not None:
                h = s2.aux.pop(('ret',), None) if path in self.P.fns else held
                if h:
                    k = ('g', fr.id, t['dest']['l'])
                    s2.aux[k] = s2.aux.get(k, frozenset()) | h
            if v[0] == 'skip':            # an iterator passed over an element: next round of this loop
                res.append((b, s2))
                continue
            if t['t'] is None:
                continue
            self.write(s2, fr, t['dest'], v)
            res.append((t['t'], s2))
        return res

    def do_call(self, path, decl, g, args, st, fr, site, t, dty):
        """-> [(state, value)]"""
        if path is None:
            return [(st, self.opaque(st, '<indirect>', args, fr, site, t, dty, True))]
        m = self.models.get(path) or self.models.get(decl)
        if m is not None:
            r = m(self, st, args, fr, site, t, dty, g)
            if r is not None:
                return r
        f = self.P.fns.get(path)
        if f is not None and f['kind'] in ('fn', 'closure') and path not in self.leaves \
                and not (self.leaf and self.leaf(path)) \
                and (not self.on_stack(path, fr) or path in self.reenter and fr.depth < 60 or self.one_way and fr.depth < 60 and args and all(self.ground(st, a) for a in args)) \
                and not (self.symleaf and self.symleaf(path) and not all(self.ground(st, a) for a in args)):
            return self.enter(f, args, st, fr, site)
        if f is None and g is not None and decl == 'std::ops::FnMut::call_mut':
            pass
        return [(st, self.opaque(st, path, args, fr, site, t, dty, f is not None))]

    def ground(self, st, v):
        v = self.norm(st, v)
        if v[0] in ('s', 'b', 'by', 'fl', 'F'):
            return True
        if v[0] == 'i':
            return not v[2]
        if v[0] in ('T', 'R'):
            return all(self.ground(st, x) for x in v[1])
        if v[0] == 'A':
            return all(self.ground(st, x) for x in v[4])
        return False

    def on_stack(self, path, fr):
        if path.startswith('amxstd::'):
            return fr.depth > 40
        return fr.fn['path'] == path or path in [x[-1] for x in fr.stack if isinstance(x, tuple)]

    def enter(self, f, args, st, fr, site):
        self.entered.add(f['path'])
        if self.enter_hook:
            self.enter_hook(self, f, args, st, fr)
        fid = (fr.depth + 1, site[0], site[1], f['path'])
        fr2 = Frame(f, fid, fr.depth + 1, fr.stack + (fr.id,))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        if self.guards:
            for i, x in self.passed:
                st.aux[('g', fid, i + 1)] = x
            self.passed = []
        outs = self.explore(0, st, fr2)
        res = []
        for o in outs:
            if o.kind != 'ret':
                continue
            s = o.st
            if self.guards:
                for k in [k for k in s.aux if k[0] == 'g' and k[1] == fid]:
                    x = s.aux.pop(k)
                    if k[2] == 0:
                        s.aux[('ret',)] = x
            v = self.unref_frame(s, o.val, fid)
            for c in [c for c in s.mem if c[0] == fid]:
                del s.mem[c]
            for k in [k for k in s.aux if (isinstance(k, tuple) and k[0] not in ('gw', 'gs', 'entry', 'backs', 'map') and (k[0] == fid or (isinstance(k[1], tuple) and k[1] and k[1][0] == fid)))]:
                del s.aux[k]
            res.append((s, v))
        return res

    def unref_frame(self, st, v, fid):
        """references into a frame that ends are replaced by what they refer to"""
        if v[0] == 'ref' and v[1][0] == fid:
            return self.unref_frame(st, self.rd(st, v[1], v[2]), fid)
        if v[0] == 'A':
            return v[:4] + (tuple(self.unref_frame(st, x, fid) for x in v[4]),)
        if v[0] in ('T', 'R'):
            return (v[0], tuple(self.unref_frame(st, x, fid) for x in v[1]))
        if v[0] == 'it':
            return v[:2] + tuple(self.unref_frame(st, x, fid) if isinstance(x, tuple) and x else x for x in v[2:])
        if v[0] == 'C':
            return (v[0], v[1], tuple(self.unref_frame(st, x, fid) for x in v[2]))
        return v

    def opaque(self, st, path, args, fr, site, t, dty, local):
        nargs = tuple(self.norm(st, a) for a in args)
        if site[-1] == 'cl' and path in self.P.fns and self.P.fns[path]['kind'] == 'fn':
            # a function value that is applied: the types are those of the function
            ls = self.P.fns[path]['locals']
            muts = [i for i in range(len(args)) if ls[i + 1]['ty'].startswith('&mut')]
            dty = dty or ls[0]['ty']
        else:
            muts = self.mut_args(t, fr, args)
        pure = not muts
        if self.pure is not None:
            p = self.pure(path)
            if p is not None:
                pure = p
        if pure:
            v = sym('call', path, nargs, ty=dty)
        else:
            n = st.cnt.get(site, 0)
            st.cnt[site] = n + 1
            v = sym('call', path, nargs, (site, n), ty=dty)
        if not pure or self.pure is None or self.pure(path) is None:
            for i in muts:
                a = args[i]
                hv = sym('hv', path, i, nargs, (site, st.cnt.get(site, 0)))
                if a[0] == 'ref':
                    self.wr(st, a[1], a[2], hv)
                elif a[0] == 'y':
                    st.mem[('S', a)] = hv
        st.add(('call', path, nargs, v, self.P.short(t.get('sp')), fr.fn['path']))
        return v

    def mut_args(self, t, fr, args):
        out = []
        for i, a in enumerate(t['args']):
            if a['k'] in ('copy', 'move') and not a['pl']['p']:
                ty = fr.fn['locals'][a['pl']['l']]['ty'] if fr.fn['locals'] else ''
                if ty.startswith('&mut') and i < len(args):
                    out.append(i)
        return out

    # ---- entry points ------------------------------------------------------------
    def run(self, suffix, args=None, st=None, bind=None):
        """explores a function from its entry; args: list of values or None (symbolic)"""
        f = self.P.fn(suffix)
        self.public = bool(f.get('reach'))
        st = st or State()
        fr0 = Frame(dict(path='<root>', kind='const', blocks=[], locals=[]), ('root',), 0, ())
        vals = []
        for i in range(f['argc']):
            ty = f['locals'][i + 1]['ty']
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            else:
                vals.append(sym('arg', i, f['locals'][i + 1]['name'], ty=ty.lstrip('&')))
        fid = (1, ('root',), 0, f['path'])
        fr = Frame(f, fid, 1, ())
        self.entered.add(f['path'])
        for i, v in enumerate(vals):
            st.mem[(fid, i + 1)] = v
        outs = self.explore(0, st, fr)
        return [o for o in outs if o.kind == 'ret']


def mentions_changed(t, W, st):
    """does the term speak about something the loop changes (a symbol of this loop)?"""
    new = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'y' and len(x) > 1 and x[1] in ('w', 'N'):
                new.add(x)
            for y in x:
                go(y)
    go(t)
    if not new:
        return False
    old = repr(st.mem.values())
    return not all(repr(x) in old for x in new)


UNSIGNED = ('usize', 'u8', 'u16', 'u32', 'u64', 'char')


def NONNEG_check(old, w):
    c, d = lin(old)
    for s in d:
        if TYPES.get(s) in UNSIGNED:
            NONNEG.add(w)
            TYPES.setdefault(w, TYPES[s])
        elif s in NONNEG and s[1] in ('len', 'N'):
            pass


from .models import MODELS  # noqa: E402
