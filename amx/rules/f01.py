"""Abstract interpretation of the sequence functions through the function table on lists of unknown length: what each path returns is
read back as spans of the arguments."""
from ..funcs import *


def run(ctx):
    P = ctx.P
    F = Funcs(P)
    ctx.rule('the result of a sequence function is made of exactly the spans of its arguments that the function stands for')
    A, n = F.list(0), F.len(0)
    whole = ('span', A, I(0), n)
    some = lambda: bounds(lsub(I(1), n))
    none = lambda: bounds(n)
    c = 0
    c += F.decide(ctx, 'fn:head of an empty sequence', F.run('fn:head', '*', none()), [])
    c += F.decide(ctx, 'fn:head', F.run('fn:head', '*', some()), [('span', A, I(0), I(1))])
    c += F.decide(ctx, 'fn:tail of an empty sequence', F.run('fn:tail', '*', none()), [])
    c += F.decide(ctx, 'fn:tail', F.run('fn:tail', '*', some()), [('span', A, I(1), n)], hints=[A])
    c += F.decide(ctx, 'fn:reverse', F.run('fn:reverse', '*'), [('rev', A)])
    # the number of items
    c += F.decide(ctx, 'fn:count', F.run('fn:count', '*'), F.exactly('XIInteger', n))
    for what, st in (('no item', none), ('an item', some)):
        c += F.decide(ctx, 'fn:empty of %s' % what, F.run('fn:empty', '*', st()), F.exactly('XIBoolean', ('b', st is none)))
        c += F.decide(ctx, 'fn:exists of %s' % what, F.run('fn:exists', '*', st()), F.exactly('XIBoolean', ('b', st is some)))
    for name, ok in (('fn:zero-or-one', (0, 1)), ('fn:one-or-more', (1, 2)), ('fn:exactly-one', (1,))):
        for k in (0, 1, 2):
            st = bounds(lsub(I(k), n), *([lsub(n, I(k))] if k < 2 else []))
            c += F.decide(ctx, '%s of %s' % (name, ('no item', 'one item', 'several items')[k]), F.run(name, '*', st),
                          [whole] if k in ok else 'err')
    # a position
    p, B = F.val(1), F.list(2)
    ins = ('span', B, I(0), F.len(2))
    k = lsub(p, I(1))
    for what, les, parts in (('below', [lsub(p, I(0))], [ins, whole]),
                             ('inside', [lsub(I(1), p), lsub(p, n)], [('span', A, I(0), k), ins, ('span', A, k, n)]),
                             ('above', [lsub(ladd(n, I(1)), p)], [whole, ins])):
        c += F.decide(ctx, 'fn:insert-before, position %s' % what, F.run('fn:insert-before', '*i*', bounds(*les), exact=True), parts, hints=[A, B])
        c += F.decide(ctx, 'fn:remove, position %s' % what, F.run('fn:remove', '*i', bounds(*les)), removed(F, A, n, p, what == 'inside'), hints=[A])
    for shape, kind in (('s', 'XIString'), ('i', 'XIInteger')):
        c += F.decide(ctx, 'fn:index-of, %s' % kind[2:].lower(), F.run('fn:index-of', '*' + shape), places(F, A, n, F.val(1), kind),
                      err=lambda q: True)
    c += windows(ctx, F, 'fn:subsequence', '*', n, lambda q, L, v, lo, hi: F.matches(q, L, F.spans(q, L, v, [A]), [('span', A, lo, hi)]))
    ctx.floor('paths', c, 100)
    ctx.saw(*F.V.entered)


def places(F, A, n, x, kind):
    """the positions of the items of the kind that are equal to x"""
    def f(q, L, v):
        got = F.spans(q, L, v, [A])
        if not got and q.st.ent_le(n):
            return None
        if len(got) != 1 or got[0][0] != 'loop' or got[0][1] != A or not F.same(q.st, got[0][2], I(0)) or not F.same(q.st, got[0][3], n):
            return 'is %s' % F.show(got)
        seen = set()
        part = got[0][4]
        it = ('y', 'elem', A, part[5])
        for b, alt in part[3]:
            if b.st.known.get(it) != kind:
                continue
            y = ('y', 'vf', it, kind, 0)
            p = ('eqv',) + tuple(sorted((x, y), key=repr)) if kind == 'XIString' else ('eq', lsub(x, y))
            e = True if kind == 'XIInteger' and F.same(b.st, x, y) else b.st.ev(p)
            if e is None and True in (b.st.known.get(('y', 'bin', 'Lt', u, w)) for u, w in ((x, y), (y, x))):
                e = False
            if e is None:
                return 'does not depend on whether the item is equal'
            seen.add(e)
            if not e and alt:
                return 'has %s for an item that is not equal' % short(alt[0][1])
            if e and not (len(alt) == 1 and alt[0][0] == 'e' and alt[0][1][0] == 'A' and alt[0][1][3] == 'XIInteger' and
                          is_num(alt[0][1][4][0]) and F.same(b.st, alt[0][1][4][0], ladd(part[5], I(1)))):
                return 'has %s instead of its position for an item that is equal' % (short(alt[0][1]) if alt else 'nothing')
        return None if len(seen) == 2 else 'does not look at the items'
    return f


def removed(F, A, n, p, inside):
    """all but the item at the position"""
    def f(q, L, v):
        got = F.spans(q, L, v, [A])
        want = [('span', A, I(0), lsub(p, I(1))), ('span', A, p, n)] if inside else [('span', A, I(0), n)]
        if len(got) == 1 and got[0][0] == 'loop' and got[0][1] == A and F.same(q.st, got[0][2], I(0)) and F.same(q.st, got[0][3], n):
            part = got[0][4]
            for b, alt in part[3]:
                x = ladd(part[5], I(1))
                at = cond(F, b.st, x, p)
                keep = alt == [('e', ITEM)]
                if alt and not keep:
                    return 'puts %s in' % short(alt[0][1])
                if inside and at is None:
                    return 'does not depend on whether the item is at the position'
                if at is None and keep is False:
                    return 'leaves out an item although the position is not among the items'
                if at is not None and keep == at:
                    return 'keeps exactly the item at the position' if at else 'leaves out an item elsewhere'
            return None
        return F.matches(q, L, got, want)
    return f


def cond(F, st, x, p):
    """is x the position p? (also where p has been made unsigned)"""
    for y in (p, ('y', 'cast', p, 'i64', 'usize')):
        d = lsub(x, y)
        if F.same(st, x, y):
            return True
        if st.ent_le(ladd(d, I(1))) or st.ent_le(lsub(I(1), d)):
            return False
        e = st.ev(F_eq(x, y))
        if e is not None:
            return e
    return None


def F_eq(x, y):
    return ('eq', lsub(x, y))


def windows(ctx, F, name, shape, n, read):
    """fn:substring and fn:subsequence: the part of the first argument that two numbers select"""
    c = 0
    x, y = F.val(1), F.val(2)
    for a in FLOATS:
        for b in (None,) + FLOATS:
            if a == NINF:
                continue
            what = '%s, start %s%s' % (name, a, '' if b is None else ', length %s' % b)
            I_ = F.windows.get((name, b is None))
            if I_ is None:
                I_ = F.windows[(name, b is None)] = F.run(name, (shape, 'd') if b is None else (shape, 'd', 'd'), exact=True)
            for pa in spots(a, ('y', 'K', 1)):
                for pb in spots(b, ('y', 'K', 2)) if b else (None,):
                    case = Place({x: pa, y: pb} if b else {x: pa})
                    c += F.decide(ctx, what, I_, windowed(F, case, n, x, y if b else None, read), case, facts=lambda q: settle(q, case))
    return c


def windowed(F, case, n, x, y, read):
    def f(q, L, v):
        w = window(F, q, case, n, x, y)
        if w is None:
            return 'does not depend on where the first and the last position are'
        return read(q, L, v, *w)
    return f
