"""Abstract interpretation of the aggregate functions through the function table: on sequences of up to three items of every
combination of kinds of numbers, judged in every case the numbers can be in and every order of them, and on sequences of unknown
length, where the loop has to take every item in."""
import itertools
from ..funcs import *


NUMS = ('XIInteger', 'XIDecimal', 'XIDouble')
LETTER = {'XIInteger': 'i', 'XIDecimal': 'c', 'XIDouble': 'd', 'XIString': 's'}


def run(ctx):
    P = ctx.P
    F = Texts(P)
    ctx.rule('sum and avg add every item once in the promoted kind; max and min give an item no other one exceeds')
    n = 0
    n += F.decide(ctx, 'fn:sum of an empty sequence', F.run('fn:sum', 'e'), F.exactly('XIInteger', I(0)))
    n += F.decide(ctx, 'fn:sum of an empty sequence, with a zero', F.run('fn:sum', 'e*'), [('span', F.list(1), I(0), F.len(1))])
    for name in ('fn:avg', 'fn:max', 'fn:min'):
        n += F.decide(ctx, name + ' of an empty sequence', F.run(name, 'e'), [])
    for k in (1, 2, 3):
        for kinds in itertools.product(NUMS, repeat=k):
            for name in ('fn:sum', 'fn:avg'):
                n += added(ctx, F, name, kinds)
            if k < 3 or len(set(kinds)) < 3:
                for name in ('fn:max', 'fn:min'):
                    n += extreme(ctx, F, name, kinds)
        for name in ('fn:max', 'fn:min'):
            n += extreme(ctx, F, name, ('XIString',) * k)
    for name in ('fn:sum', 'fn:avg', 'fn:max', 'fn:min'):
        n += every(ctx, F, name)
    ctx.floor('paths', n, 300)
    ctx.saw(*F.V.entered)


def shape(kinds):
    return ''.join(LETTER[k] for k in kinds)


def arg(F, kinds, j):
    return F.val(0) if len(kinds) == 1 else ('y', 'a0_%d' % j)


def addends(case, t):
    """the terms a number is the sum of, conversions that keep a number left out"""
    t = Case.base(case, t)
    if t[0] == 'i':
        c, d = mirai.lin(t)
        out = [s for s, x in d.items() for _ in range(x) if x > 0]
        if c == 0 and all(x > 0 for x in d.values()):
            return sorted((y for s in out for y in (addends(case, s) if s != t else [s])), key=repr)
        return [t]
    if t[0] == 'fl' and Case.value_of(case, t) == 0:
        return []
    if t[:2] == ('y', 'bin') and t[2] == 'Add':
        return sorted(addends(case, t[3]) + addends(case, t[4]), key=repr)
    if t[:2] == ('y', 'vf') and t[2][:2] == ('y', 'checked') and t[3] == 'Some' and t[2][2] == 'add':
        return sorted((y for x in t[2][3] for y in addends(case, x)), key=repr)
    return [t]


def too_big(q):
    """does the path know that an addition of integers has no result?"""
    return any(t[:3] == ('y', 'checked', 'add') and v == 'None' for t, v in q.st.known.items()) or \
        any(t[:3] == ('y', 'checked', 'add') and 'Some' in v for t, v in q.st.excl.items())


def added(ctx, F, name, kinds):
    xs = [arg(F, kinds, j) for j in range(len(kinds))]
    case = Case(cls={x: POS for x in xs})
    kind = max(kinds, key=NUMS.index)
    if name == 'fn:avg' and kind == 'XIInteger':
        kind = 'XIDecimal'
    ints = kinds.count('XIInteger')

    def ok(q, x):
        if name == 'fn:avg':
            x = Case.base(case, x)
            if len(xs) > 1 or x[:3] == ('y', 'bin', 'Div'):
                if x[:3] != ('y', 'bin', 'Div') or case.value_of(case.base(x[4])) != len(xs):
                    return 'is %s, which is not divided by the number of items' % short(x)
                x = x[3]
        got = addends(case, x)
        return None if got == sorted(xs, key=repr) else 'is the sum of %s' % ', '.join(short(g) for g in got)
    return F.decide(ctx, '%s of (%s)' % (name, ', '.join(k[2:].lower() for k in kinds)), F.run(name, [shape(kinds)]), F.single(kind, ok), case,
                    err=lambda q: ints > 1 and too_big(q))


def orderings(k):
    """every way to order k things, as ranks"""
    return sorted({tuple(sorted(set(r)).index(x) for x in r) for r in itertools.product(range(k), repeat=k)})


def extreme(ctx, F, name, kinds):
    xs = [arg(F, kinds, j) for j in range(len(kinds))]
    I_ = F.run(name, [shape(kinds)])
    n = 0
    for ranks in orderings(len(xs)):
        rel = {}
        for i, j in itertools.combinations(range(len(xs)), 2):
            rel[(xs[i], xs[j])] = 'lt' if ranks[i] < ranks[j] else 'gt' if ranks[i] > ranks[j] else 'eq'
        case = Ordered(rel=rel, cls={x: POS for x in xs} if kinds[0] != 'XIString' else {})
        best = (max if name == 'fn:max' else min)(ranks)
        good = [xs[i] for i in range(len(xs)) if ranks[i] == best]

        def f(q, L, v):
            it = F.one(q, L, v)
            if it is None:
                return 'is %s instead of one item' % short(v)
            x = case.base(q.norm(it[4][0]))
            return None if x in good else 'is %s, which another item exceeds' % short(x)
        n += F.decide(ctx, '%s of (%s), ordered %s' % (name, ', '.join(k[2:].lower() for k in kinds), ranks), I_, f, case)
    return n


class Ordered(Case):
    """things are equal to themselves"""
    def order(self, x, y):
        if self.base(x) == self.base(y):
            return 'eq'
        return Case.order(self, x, y)


def every(ctx, F, name):
    """on a sequence of unknown length: the value is what a loop over all the items carries round, and each way round takes the
    item in (or, for max and min, leaves the value as it is or replaces it by the item)"""
    A, n = F.list(0), F.len(0)
    I_ = F.run(name, '*', bounds(lsub(I(4), n)), budget=2500000)
    key = name + ' of any number of items'

    def f(q, L, v):
        if not numbers(q, A, name):
            return None                   # what the statement says nothing of
        it = F.one(q, L, v)
        if it is None:
            l = L.of(v)
            ps = L.F.elements(q.st, l)
            it = q.norm(ps[0][1]) if len(ps) == 1 and ps[0][0] == 'e' else None
        whole = it is None
        if whole:
            it = q.norm(v)
        if name == 'fn:avg':
            x = Case().base(it[4][0]) if it[0] == 'A' and it[4] else it
            if x[:3] != ('y', 'bin', 'Div') or q.st.nl(Case().base(x[4])) != q.st.nl(n):
                return 'is %s, which is not divided by the number of items' % short(x)

        def one(st, t):
            if whole:
                ps = L.F.elements(st, L.of(t))
                return len(ps) == 1 and ps[0][0] == 'e'
            return True
        fs = Folds(q.I)
        fs.hints = [A]
        for k in [k[1] for k in q.st.aux if k[0] == 'gw']:
            bs = [b for b in fs.around(q.st, k) if Case().fits(b.st)]
            its = [inside(fs.iteration(b, k)) for b in bs]
            if not bs or None in its or any(i[0] != A for i in its):
                continue
            w, s = q.st.aux[('gw', k)], q.st.aux[('gs', k)]
            cs = [c for c in w if c in s and any(has_part(it, lambda y: y == sy) for sy in swaps([(w[c], s[c])]))]
            if not cs:
                continue
            lo = its[0][1]
            if not q.st.ent_le(lsub(n, its[0][2])):
                return 'stops before the last item'
            # what the value is before the loop, and after one more way round
            start = q.norm(put(it, swaps((w[c], s[c]) for c in cs)))
            if not q.st.ent_le(lo) and (not q.st.ent_le(lsub(lo, I(1))) or not has_part(start, lambda y: y == ('y', 'elem', A, I(0)))):
                return 'leaves out the first item'
            if not one(q.st, start):
                return 'starts as %s instead of one item' % short(start)
            took = 0
            for b, i in zip(bs, its):
                at = b.st.nl(i[2])
                mine = lambda y: y[:2] == ('y', 'elem') and y[2] == A and b.st.nl(y[3]) == at
                new = q.I.norm(b.st, put(it, swaps((w[c], b.st.mem.get(c, w[c])) for c in cs)))
                if not one(b.st, new) and new != q.I.norm(b.st, it):
                    return 'carries %s round instead of one item' % short(new)
                took += has_part(new, mine)
                if name in ('fn:max', 'fn:min'):
                    if not has_part(new, mine) and new != q.I.norm(b.st, it):
                        return 'carries %s round' % short(new)
                elif not has_part(new, mine):
                    kind = {v for t, v in b.st.known.items() if mine(t)}
                    if not kind or kind & set(NUMS):
                        return 'leaves out an item'
            return None if took else 'takes no item in'
        return 'is %s, which no loop over the items makes' % short(it)
    return F.decide(ctx, key, I_, f, Case(), err=lambda q: too_big(q) or not numbers(q, A, name))


def numbers(q, A, name):
    """may all the items, and the values carried round, be ones the function is for, by what the path knows of their kinds?"""
    def item(t):
        return t[:2] == ('y', 'elem') and (t[2] == A or item(t[2])) or t[0] == 'y' and isinstance(t[1], str) and t[1][:1] == 'w'

    def may(kinds):
        return all(v in kinds for t, v in q.st.known.items() if item(t) and isinstance(v, str)) and \
            not any(set(kinds) <= set(v) for t, v in q.st.excl.items() if item(t))
    return may(NUMS) or name in ('fn:max', 'fn:min') and may(('XIString',))


def inside(i):
    """a walk over a part of a list is a walk over the list"""
    while i is not None and i[0][:2] == ('y', 'sl') and len(i[0]) == 5:
        l, lo = i[0][2], i[0][3]
        i = (l,) + tuple(ladd(lo, x) for x in i[1:])
    return i


def put(t, m):
    """a term with others in place of some of its symbols"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    if t[0] == 'i':
        c, d = mirai.lin(t)
        if any(s in m for s in d):
            out = I(c)
            for s, x in d.items():
                out = ladd(out, lmul(put(s, m), x))
            return out
    return tuple(put(x, m) for x in t)


def swaps(pairs):
    """what stands in the second of each pair where the first has a symbol"""
    out = {}

    def go(a, b):
        if a[0] in ('A', 'R', 'T') and b[0] == a[0] and len(a[-1]) == len(b[-1]) and a[1:-1] == b[1:-1]:
            for x, y in zip(a[-1], b[-1]):
                go(x, y)
        elif a != b:
            out[a[3] if a[0] == 'V' and a[3] is not None else a] = b
    for a, b in pairs:
        go(a, b)
    return out

