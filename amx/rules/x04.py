"""The entity decoder's result is read back as the fold over the pieces between the ampersands: each way around appends
the character of the reference the piece starts with and the rest of the piece, or the ampersand and the whole piece.
The serializer's translation of text and attribute values is read back as a map on characters, which must be the inverse."""
from ..lib import *
from ..fold import *
from ..ser import SerRun, ESC, SPECIAL, isfield
from ..sax import SaxRun

NAMES = {v[1:]: k for k, v in ESC.items()}
I0 = ('i', 0, ())


def run(ctx):
    P = ctx.P
    decoders = decoder_fns(ctx, P)
    ctx.floor('entity decoders', len(decoders), 1)
    for fn in sorted(decoders):
        decoder(ctx, P, fn)
    R = SerRun(P)
    ctx.saw(*R.I.entered)
    ctx.rule('serialized text and attribute values: & < > " \' become the reference that decodes to them; nothing else changes')
    n = 0
    for o in R.rets:
        ps = R.F.expand(o.st, R.I.norm(o.st, o.val))
        for where, st, p in values(o, ps):
            e = R.escaped(st, p)
            n += 1
            ctx.check(e is not None and e[1] == ESC, 'escaping of %s' % where, '%s is written with the translation %s' % (
                where, {k: v for k, v in (e[1] if e else {}).items() if ESC.get(k, k) != v or k not in ESC} if e else pp(p)[:200]))
    ctx.floor('escaped values', n, 2)


def values(o, ps):
    for p in ps:
        if p[0] == 'for':
            if isfield(p[1], 'attributes'):
                for b, a in p[3]:
                    for q in a:
                        if mentions(q, lambda y: isfield(y, 'value')):
                            yield 'an attribute value', b, q
        elif p[0] == 'y' and mentions(p, lambda y: isfield(y, 'value')) and \
                any(isfield(s, 'node_type') and v == 'Text' for s, v in o.st.known.items()):
            yield 'a text', o, p


def decoder_fns(ctx, P):
    return [p for p in P.fns if p.endswith('::decode_entity') and P.fns[p]['kind'] == 'fn']


def decoder(ctx, P, fn):
    I = Interp(P, budget=400000)
    outs = I.run(fn)
    F = Folds(I)
    ctx.saw(*I.entered)
    ctx.rule('decoding: pieces between ampersands; reference at the start of a piece -> its character, once, then the rest')
    src = ('y', 'arg', 0, P.fns[fn]['locals'][1]['name'])
    n = 0
    for o in outs:
        ps = F.expand(o.st, I.norm(o.st, o.val))
        if ps == [src]:
            # shortcut: allowed only without an ampersand
            ok = any(s[:3] == ('y', 'str', 'contains') and v is False and s[3][0] == src and s[3][1] in (('s', '&'), I_(38))
                     for s, v in o.st.known.items())
            ctx.check(ok, 'a text is returned as it is only without &', pstate(o.st)[:300])
            continue
        fold = [p for p in ps if p[0] == 'for']
        ok = len(fold) == 1 and fold[0] == ps[-1] and fold[0][4] and fold[0][1][:2] == ('y', 'split') and \
            fold[0][1][2] == src and fold[0][1][3] in (('s', '&'), I_(38))
        ctx.check(ok, 'decoding walks over all pieces between &', show(ps)[:400])
        if not ok:
            continue
        f = fold[0]
        first = ('y', 'elem', f[1], I0)
        head = ps[:-1]
        ctx.check((f[2] == I0 and not head) or (f[2] == I_(1) and head == [first]), 'the text in front of the first & is kept',
                  show(ps)[:300])
        for b, a in f[3]:
            n += 1
            why = step(b, a, f, F, I)
            ctx.check(why is None, 'decoding of a piece' if not why else 'decoding of a piece: ' + why[:60],
                      '%s; appends %s when %s' % (why, show(a)[:200], facts(b, f)[:300]))
    ctx.floor('ways through decoding a piece', n, 7)


def I_(n):
    return ('i', n, ())


def facts(b, f):
    return '; '.join('%s=%s' % (pp(s), v) for s, v in b.st.known.items() if s[0] == 'y' and s[1] in ('strip_prefix', 'from_str_radix', 'from_u32'))


def step(b, a, f, F, I):
    key = b.info[2]
    it = F.iteration(b, key)
    idx = it[2]
    part = ('y', 'elem', f[1], b.st.nl(idx))

    def item(t):
        return subst(t, lambda x: ITEM if x[:2] == ('y', 'elem') and x[2] == f[1] and b.st.nl(x[3]) == b.st.nl(idx) else None)
    if b.st.ev(('eq', idx)) is True:
        return None if a == [ITEM] else 'the text in front of the first & is changed'
    if b.st.ev(('eq', idx)) is None and a == [ITEM] and f[2] == I0:
        return 'a piece behind & is appended without it'
    pre = {}
    for s, v in list(b.st.known.items()):
        if s[:2] == ('y', 'strip_prefix') and item(s[2]) == ITEM and s[3][0] == 's':
            pre[s[3][1]] = v == 'Some'
        if s[:3] == ('y', 'str', 'starts_with') and item(s[3][0]) == ITEM and s[3][1][0] == 's':
            pre[s[3][1][1]] = v
    some = [p for p, v in pre.items() if v]
    none = [p for p, v in pre.items() if not v]
    tail = lambda p: ('y', 'vf', ('y', 'strip_prefix', ITEM, ('s', p)), 'Some', 0)
    if not some:
        left = [p for p in list(NAMES) + ['#'] if p not in none]
        if left:
            return 'a piece is kept although it may start with %s' % ', '.join(sorted(left))
        return None if a == [('s', '&'), ITEM] else 'a piece that is no reference is not kept as it is'
    p = max(some, key=len)
    if p in NAMES:
        if len(a) == 2 and a[0] == ('s', NAMES[p]) and same(a[1], tail(p)):
            return None
        if NAMES[p] and a and a[0][0] == 's' and len(a) == 2:
            return '&%s is decoded to %r' % (p, a[0][1])
        return '&%s is not decoded to its character and the rest' % p
    if p in ('#', '#x'):
        if p == '#' and '#x' not in none:
            return 'a decimal reference is not told from a hexadecimal one'
        radix = 16 if p == '#x' else 10
        w = ('y', 'splitn', tail(p), I_(2), ('s', ';'))
        num = ('y', 'elem', w, I0)
        rest = ('y', 'elem', w, I_(1))
        if a == [('s', '&'), ITEM]:
            ln = ('y', 'len', w)
            if any(same_shape(s, 'splitn') for s in terms_of(b)) and 2 in lens_excluded(b, item, w):
                return None
            return 'a character reference with ; is not decoded'
        if len(a) != 2 or not splits(a[1], rest, item):
            return 'what follows a character reference is not kept'
        r = [s for s, v in b.st.known.items() if s[:2] == ('y', 'from_str_radix')]
        if len(r) != 1 or r[0][3] != I_(radix):
            return 'a character reference is read with the wrong radix'
        if not splits(item(r[0][2]), num, item):
            return 'the number of a character reference is not what stands between # and ;'
        if b.st.known.get(r[0]) == 'Ok':
            u = [s for s, v in b.st.known.items() if s[:2] == ('y', 'from_u32') and v == 'Some']
            if u:
                ok = u[0][2] == ('y', 'vf', r[0], 'Ok', 0)
                c = ('ch', item(('y', 'vf', u[0], 'Some', 0)))
                return None if ok and a[0] in (c, c[1]) else 'a character reference does not become its character'
        return None if a[0][0] == 's' and len(a[0][1]) == 1 else 'an invalid character reference does not become one character'
    return '&%s is taken for a reference' % p


def terms_of(b):
    return list(b.st.known) + list(b.st.excl)


def same_shape(s, op):
    return mentions(s, lambda y: y[1] == op)


def lens_excluded(b, item, w):
    out = set()
    for s, v in b.st.excl.items():
        if s[:2] == ('y', 'len') and same(item(s[2]), w):
            out |= set(v)
    return out


def same(x, y):
    return x == y


def splits(x, y, item):
    return item(x) == y
