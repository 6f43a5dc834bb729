"""Abstract interpretation of the string functions through the function table on arbitrary texts (lists of characters of unknown
length): what each path returns is read back as pieces of the arguments."""
from ..funcs import *
from .f01 import windows


def run(ctx):
    P = ctx.P
    F = Texts(P)
    ctx.rule('the result of a string function is made of exactly the characters of its arguments that the function stands for')
    x, y, z = [F.val(i) for i in range(3)]
    c = 0
    D = lambda name, shapes, want, what='', case=None, st=None, err=None: F.decide(
        ctx, '%s(%s)%s' % (name, ', '.join(WORDS.get(s, s) for s in shapes), what), F.run(name, shapes, st), want, case, err=err)
    # characters, not bytes
    c += D('fn:string-length', 's', F.exactly('XIInteger', nchars(x)))
    c += D('fn:string-length', 'e', F.exactly('XIInteger', I(0)))
    for name, m in (('fn:upper-case', 'to_uppercase'), ('fn:lower-case', 'to_lowercase')):
        c += D(name, 's', F.string([('y', 'str', m, (x,))]))
        c += D(name, 'e', F.string([]))
    # putting together
    for k in (2, 3, 5):
        c += D('fn:concat', 's' * k, F.string([F.val(i) for i in range(k)]))
    c += D('fn:concat', 'ses', F.string([x, z]))
    c += D('fn:concat', ['s', 'ss', 's'], 'err')
    c += D('fn:concat', 'si', F.string([x, ('y', 'disp', 'i64', y)]))
    for k in (1, 2):
        shape = ('*', 's')[:k]
        c += D('fn:string-join', shape, joined(F, y if k == 2 else None), err=unfit(F))
    # a part, by position
    cut = lambda q, L, v, lo, hi: F.string([('span', chars(x), lo, hi)], [chars(x)])(q, L, v)
    c += windows(ctx, F, 'fn:substring', 's', nchars(x), cut)
    # a part, by content
    for shapes in ('ss', 'es', 'se', 'ee'):
        s, t = [F.val(i) if k == 's' else S('') for i, k in enumerate(shapes)]
        for name in ('contains', 'starts-with', 'ends-with'):
            c += D('fn:' + name, shapes, F.single('XIBoolean', asks(F, name.replace('-', '_'), s, t)))
        for i, name in enumerate(('fn:substring-before', 'fn:substring-after')):
            c += D(name, shapes, around(F, s, t, i))
    # comparing
    for r, k in (('lt', -1), ('eq', 0), ('gt', 1)):
        case = Case(rel={(x, y): r})
        c += D('fn:compare', 'ss', F.exactly('XIInteger', I(k)), ', %s' % r, case)
    for name in ('fn:compare', 'fn:codepoint-equal'):
        for shapes in ('es', 'se', 'ee'):
            c += D(name, shapes, [])
    c += D('fn:codepoint-equal', 'ss', F.single('XIBoolean', equals(F, x, y)))
    # code points
    c += D('fn:string-to-codepoints', 'e', [])
    c += D('fn:string-to-codepoints', 's', points(F, x))
    c += D('fn:codepoints-to-string', 'i', texts(F, x), err=no_char(x))
    c += D('fn:codepoints-to-string', '*', through(F), err=lambda q: True)
    # by character
    c += D('fn:translate', 'sss', translated(F, x, y, z))
    c += D('fn:translate', 'ess', F.string([]))
    ctx.floor('paths', c, 150)
    ctx.saw(*F.V.entered)


WORDS = {'s': 'string', 'e': 'empty', 'i': 'integer', '*': 'sequence', 'ss': 'two strings'}


def joined(F, sep):
    """the string values of the items with the separator in front of each but the first"""
    def f(q, L, v):
        t = F.one(q, L, v, 'XIString')
        got = F.text(q, L, t) if t is not None else None
        if t is None:
            return 'is %s' % short(v)
        if not got:
            return None if q.st.ent_le(F.len(0)) else 'is empty'
        if len(got) != 1 or got[0][0] != 'loop' or got[0][1] != F.list(0) or not F.same(q.st, got[0][3], F.len(0)) or got[0][2] != I(0):
            return 'is %s instead of something for each item' % F.show(got)
        p = got[0][4]
        seen = set()
        for b, alt in p[3]:
            at = L.F.first(b, p[5])
            first, later = at is True, at is False
            alt = [a for a in alt if a != S('')]
            if sep is not None:
                if not first and not later:
                    return 'does not depend on which item is the first'
                if later:
                    if not alt or alt[0] != sep:
                        return 'has no separator in front of an item: %s' % short(tuple(alt))
                    alt = alt[1:]
            kind = b.st.known.get(('y', 'elem', p[1], p[5])) or b.st.known.get(('y', 'elem', p[1], I(0)))
            if kind == 'XIString':
                seen.add(first)
                if alt != [('y', 'vf', ITEM, 'XIString', 0)]:
                    return 'puts %s in for a string' % short(tuple(alt))
            elif any(a == sep for a in alt) and sep is not None:
                return 'has a separator too many'
        return None if seen else 'has no item that is a string'
    return f


def unfit(F):
    """the error comes from an item that has no string value"""
    def f(q):
        for t, ks in q.st.excl.items():
            if t[:2] == ('y', 'elem') and t[2] == F.list(0) and {'XIString', 'XIInteger', 'XIBoolean', 'XINode'} <= set(ks):
                return True
        return False
    return f


def no_char(x):
    """the error comes from a number that is no code point"""
    def f(q):
        if q.st.ent_le(ladd(x, I(1))) or q.st.ent_le(lsub(I(0x110000), x)):
            return True
        return any(v == 'None' and t[:2] == ('y', 'from_u32') and plain(t[2]) == x for t, v in q.st.known.items())
    return f


def asks(F, name, s, t):
    def ok(q, v):
        v = q.norm(v)
        know = q.st.ev(mirai.to_pred(v)) if v[0] != 'b' else v[1]
        trivial = True if t == S('') else None
        if know is not None and know is trivial:
            return None
        if v == ('y', 'str', name, (s, t)):
            return None
        a = q.maybe(('y', 'str', name, (s, t)))
        if know is not None and a is know:
            return None
        at = found(q, s, t) if name == 'contains' else None
        if at is not None and at is know:
            return None
        return 'is %s' % short(v)
    return ok


def found(q, s, t):
    """has the path established that s contains t?"""
    st = q.st
    a = q.maybe(('y', 'str', 'contains', (s, t)))
    if isinstance(a, bool):
        return a
    k = q.known(('y', 'str', 'find', (s, t)))
    if k is None:
        k = q.known(('y', 'split_once', s, t))
    if k is not None:
        return k == 'Some'
    n = mirai.sym('len', ('y', 'splitn', s, I(2), t), nonneg=True)
    if st.ent_le(lsub(I(2), n)):
        return True
    if st.ent_le(lsub(n, I(1))):
        return False
    return None


def around(F, s, t, side):
    """what is in front of (behind) the first occurrence of t in s"""
    def f(q, L, v):
        at = found(q, s, t)
        x = F.one(q, L, v, 'XIString')
        if x is None:
            return 'is %s' % short(v)
        x = q.norm(x)
        if s == S('') and (x == s or x[:3] == ('y', 'sl', s) or x[:2] == ('y', 'elem') and x[2][:3] == ('y', 'splitn', s)):
            return None
        i = ('y', 'vf', ('y', 'str', 'find', (s, t)), 'Some', 0)
        good = [('y', 'elem', ('y', 'splitn', s, I(2), t), I(side))]
        good += [('y', 'fld', ('y', 'vf', ('y', 'split_once', s, t), 'Some', 0), side, str(side))]
        if at is None:
            return 'does not depend on whether the second text is found'
        if x == S('') and (not at or s == S('')):
            return None
        if at and x in [q.norm(g) for g in good]:
            return None
        if x == s and side == 1 and t == S(''):
            return None
        if at and x[:2] == ('y', 'sl') and x[2] == s:
            lo, hi = (I(0), i) if side == 0 else (ladd(i, I(0) if t == S('') else mirai.sym('len', t, nonneg=True)), mirai.sym('len', s, nonneg=True))
            if F.same(q.st, x[3], lo) and F.same(q.st, x[4], hi):
                return None
        return 'is %s where the text is%s found' % (short(x), '' if at else ' not')
    return f


def equals(F, x, y):
    """are the texts the same?"""
    def ok(q, v):
        v = q.norm(v)
        p = ('eqv',) + tuple(sorted((x, y), key=repr))
        know = v[1] if v[0] == 'b' else None
        if know is None:
            w = mirai.to_pred(v)
            if w[0] == 'eqv' and all(t[0] == 'y' for t in w[1:]):
                s = [source(q, t) for t in w[1:]]
                if sorted(s, key=repr) == sorted((chars(x), chars(y)), key=repr):
                    return None
            return None if w == p else 'is %s' % short(v)
        st = q.st
        e = st.ev(p)
        if e is None:
            e = by_character(F, q, x, y)
        return None if e is know else 'is %s although the texts %s' % (know, 'may be equal or not' if e is None else
                                                                       'are equal' if e else 'differ')
    return ok


def source(q, l):
    """the list whose elements, as they are or as numbers, the list is made of"""
    ps = Folds(q.I).elements(q.st, l)
    if len(ps) == 1 and ps[0][0] == 'l':
        return ps[0][1]
    if len(ps) == 1 and ps[0][0] == 'for' and ps[0][2] == I(0) and ps[0][4] and \
            all(len(a) == 1 and a[0][0] == 'e' and plain(a[0][1]) == ITEM for _, a in ps[0][3]):
        return ps[0][1]
    return None


def by_character(F, q, x, y):
    st = q.st
    n, m = nchars(x), nchars(y)
    el = lambda t, i: ('y', 'elem', chars(t), i)
    fs = Folds(q.I)
    for k, v in st.eqs.items():
        if k[0] in ('eqv', 'p') or v is not False:
            continue
        c, d = mirai.lin(k)
        ss = sorted(d)
        if c == 0 and len(ss) == 2 and d[ss[0]] == -d[ss[1]] and abs(d[ss[0]]) == 1:
            a, b = ss
            if a[:2] == ('y', 'elem') and b[:2] == ('y', 'elem') and {a[2], b[2]} == {chars(x), chars(y)} and F.same(st, a[3], b[3]):
                return False
            if any(F.same(st, u, n) and F.same(st, w, m) for u, w in ((a, b), (b, a))):
                return False
    if not F.same(st, n, m):
        return None
    # a loop that has compared them one by one up to the end
    for key in [k[1] for k in st.aux if k[0] == 'gw']:
        bs = fs.around(st, key)
        if not bs:
            continue
        fs.hints = [chars(x), chars(y)]
        its = [fs.iteration(b, key) for b in bs]
        if None in its or any(i[0] not in (chars(x), chars(y)) or i[1] != I(0) for i in its):
            continue
        if all(b.st.ev(('eq', lsub(el(x, i[2]), el(y, i[2])))) is True or b.st.ev(('eqv', el(x, i[2]), el(y, i[2]))) is True
               for b, i in zip(bs, its)) and st.ent_le(lsub(n, its[0][2])):
            return True
    return None


def points(F, x):
    """the code point of each character"""
    def f(q, L, v):
        got = F.spans(q, L, v)
        if not got and q.st.ent_le(nchars(x)):
            return None
        if len(got) != 1 or got[0][0] != 'loop' or got[0][1] != chars(x) or got[0][2] != I(0) or not F.same(q.st, got[0][3], nchars(x)):
            return 'is %s' % F.show(got)
        for b, alt in got[0][4][3]:
            ok = len(alt) == 1 and alt[0][0] == 'e' and alt[0][1][0] == 'A' and alt[0][1][3] == 'XIInteger' and plain(alt[0][1][4][0]) == ITEM
            if not ok:
                return 'makes %s of a character' % short(alt[0][1] if alt else ())
        return None
    return f


def plain(t):
    while t[:2] == ('y', 'cast'):
        t = t[2]
    return t


def texts(F, x):
    def f(q, L, v):
        t = F.one(q, L, v, 'XIString')
        if t is None:
            return 'is %s' % short(v)
        got = F.text(q, L, t)
        if len(got) == 1 and got[0][0] == 'e' and got[0][1][0] == 'ch' and char_of(got[0][1][1]) == x:
            return None
        return 'is %s' % F.show(got)
    return f


def char_of(t):
    if t[:2] == ('y', 'vf') and t[2][:2] == ('y', 'from_u32'):
        return plain(t[2][2])
    return None


def through(F):
    """each item gives one character"""
    def f(q, L, v):
        t = F.one(q, L, v, 'XIString')
        if t is None:
            return 'is %s' % short(v)
        got = F.text(q, L, t)
        if not got and q.st.ent_le(F.len(0)):
            return None
        if len(got) != 1 or got[0][0] != 'loop' or got[0][1] != F.list(0) or got[0][2] != I(0) or not F.same(q.st, got[0][3], F.len(0)):
            return 'is %s' % F.show(got)
        seen = 0
        for b, alt in got[0][4][3]:
            if len(alt) != 1 or alt[0][0] not in ('ch', 's') or len(alt[0][1]) != 1 and alt[0][0] == 's':
                return 'makes %s of an item' % short(tuple(alt))
            y = char_of(alt[0][1]) if alt[0][0] == 'ch' else None
            if b.st.known.get(('y', 'elem', got[0][1], got[0][4][5])) == 'XIInteger':
                seen += 1
                if y != ('y', 'vf', ITEM, 'XIInteger', 0):
                    return 'makes %s of an integer' % short(alt[0][1])
        return None if seen else 'does not take integers'
    return f


def translated(F, x, y, z):
    """each character as it is when the map does not have it, and else the character at the same place in the other text (none when
    that is too short)"""
    def f(q, L, v):
        t = F.one(q, L, v, 'XIString')
        if t is None:
            return 'is %s' % short(v)
        got = F.text(q, L, t)
        if not got and q.st.ent_le(nchars(x)):
            return None
        if len(got) != 1 or got[0][0] != 'loop' or got[0][1] != chars(x) or got[0][2] != I(0) or not F.same(q.st, got[0][3], nchars(x)):
            return 'is %s' % F.show(got)
        seen = set()
        part = got[0][4]
        for b, alt in part[3]:
            place = lookup(F, q, L, b, ('y', 'elem', chars(x), part[5]), y)
            if place is None:
                return 'does not depend on whether the character is in the map'
            if place is False:
                seen.add('as it is')
                ok = alt in ([ITEM], [('ch', ITEM)])
            elif b.st.ent_le(lsub(nchars(z), place)):
                seen.add('none')
                ok = not alt
            elif b.st.ent_le(ladd(lsub(place, nchars(z)), I(1))):
                seen.add('another')
                ok = len(alt) == 1 and alt[0][0] == 'ch' and alt[0][1] == ('y', 'elem', chars(z), b.st.nl(place))
            else:
                return 'does not depend on whether there is a character to put in'
            if not ok:
                return 'puts %s in %s' % (short(tuple(alt)), 'for a character that is not in the map' if place is False else
                                          'for the character at %s' % short(place))
        return None if len(seen) == 3 else 'only %s' % ', '.join(sorted(seen))
    return f


def lookup(F, q, L, b, ch, y):
    """the place of the first occurrence of the character in the text y, False when it does not occur"""
    st = b.st
    hit = None
    for k, v in list(st.eqs.items()) + [(k, v) for k, v in st.known.items() if isinstance(v, bool)]:
        if v is True and k[0] == 'eqv' and ch in k[1:]:
            o = [e for e in k[1:] if e != ch]
            if o and o[0][:2] == ('y', 'elem') and o[0][2] == chars(y):
                hit = o[0][3]
        if v is True and is_num(k):
            c, d = mirai.lin(k)
            ss = [s for s in d if s != ch]
            if c == 0 and ch in d and len(ss) == 1 and ss[0][:2] == ('y', 'elem') and ss[0][2] == chars(y):
                hit = ss[0][3]
    # the loop that looks: what it has passed is different
    fs = Folds(q.I)
    fs.hints = [chars(y)]
    for key in [k[1] for k in st.aux if k[0] == 'gw']:
        bs = fs.around(st, key)
        its = [fs.iteration(o, key) for o in bs]
        if not its or None in its or any(i[0] != chars(y) or i[1] != I(0) for i in its):
            continue
        e = lambda i: ('y', 'elem', chars(y), i)
        different = all(any(o.st.ev(p) is False for p in (('eq', lsub(ch, e(i[2]))), ('eqv', ch, e(i[2])), ('eqv', e(i[2]), ch))) for o, i in zip(bs, its))
        if not different:
            continue
        if hit is not None:
            return hit if F.same(st, hit, its[0][2]) else None
        if st.ent_le(lsub(nchars(y), its[0][2])):
            return False
    return None
