"""Abstract interpretation of maps and arrays: their functions through the function table, the lookups and the constructors through
the evaluator, and whether two keys are the same on every pair of kinds in every case two values can be in."""
from ..funcs import *
from ..cases import Case, orders, INTS, FLOATS, NAN
from ..chains import along
from ..ev import LEFT, RIGHT
from .. import mirai
from .f05 import S
from .v08 import cases, NUMS, ATOMS

SAME = ('map:contains', 'map:get')


def run(ctx):
    P = ctx.P
    F = Texts(P)
    ctx.rule('maps and arrays give back what was put into them')
    same = same_key(P)
    n = keys(ctx, P, F, same)
    m = F.val(0)
    M = P.adts[adt(P, 'XSeqMap')]['variants'][0]['fields'][0]['name']
    A = P.adts[adt(P, 'XSeqArray')]['variants'][0]['fields'][0]['name']
    entries, members = ('y', 'fld', m, 0, M), ('y', 'fld', m, 0, A)
    ents, mems = [mirai.sym('len', x, nonneg=True) for x in (entries, members)]
    mod = {same: F.V.opaque(same)}
    D = lambda what, name, shapes, want, **kw: F.decide(ctx, what, F.run(name, shapes, models=dict(mod), **kw), want)
    n += D('map:size', 'map:size', 'm', F.exactly('XIInteger', ents))
    n += D('array:size', 'array:size', 'a', F.exactly('XIInteger', mems))
    n += D('map:keys', 'map:keys', 'm', lambda q, L, v: each(q, L, v, entries, [('e', ('y', 'fld', ITEM, 0, '0'))]))
    for name in ('map:size', 'map:keys', 'array:size'):
        for s in ('s', 'n', 'f', 'a' if name[0] == 'm' else 'm'):
            n += D('%s of something else' % name, name, [s], 'err')
    for s in ('s', 'i', 'd', 'b'):
        key = F.item(SHAPES[s], F.val(1))
        n += D('map:contains of a %s' % SHAPES[s][2:], 'map:contains', 'm' + s, lambda q, L, v: contains(F, q, L, v, entries, key, same))
        n += D('map:get of a %s' % SHAPES[s][2:], 'map:get', 'm' + s, lambda q, L, v: value_of(q, L, L.of(v), entries, key, same))
    n += D('array:get', 'array:get', 'ai', lambda q, L, v: member(q, L, L.of(v), members, mems, F.val(1)))
    n += flatten(ctx, P, F, members)
    n += lookups(ctx, P, F, mod, same)
    n += calls(ctx, P, F, mod, same)
    n += constructors(ctx, P, F, mod, same, M, A)
    ctx.floor('paths', n, 60)
    ctx.saw(*F.V.entered)


def adt(P, name):
    a = [a for a in P.adts if a.endswith('::' + name)]
    if len(a) != 1:
        raise AnalysisError('no single struct %s' % name)
    return a[0]


def same_key(P):
    """the relation between two items by which a map finds its entries: asked by the functions of the map"""
    out = set()
    seen = set()
    todo = [P.find('XSeqMap::map_contains'), P.find('XSeqMap::map_get')]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        fn = P.fns[f]
        if fn['argc'] == 2 and fn['locals'][0]['ty'] == 'bool' and all(fn['locals'][i]['ty'].endswith('xitem::XItem') for i in (1, 2)) and \
                not f.startswith('<'):
            out.add(f)
            continue
        todo += [g['path'] for g, t in P.calls(fn) if g['path'] in P.fns] + [g for g in P.fns if g.startswith(f + '::{closure')]
    if len(out) != 1:
        raise AnalysisError('no single relation between the keys of a map: %s' % sorted(out))
    return out.pop()


def keys(ctx, P, F, same):
    """two numbers are the same key when they are equal or both NaN, two strings (or nodes, by their string value) or two
    booleans when they are equal; anything else never"""
    n = 0
    a, b = ('y', 'a'), ('y', 'b')
    val = ('string_value', 'typed_value')
    for kx in ATOMS + ('XIMap', 'XIArray', 'XItemXNodePtr'):
        for ky in ATOMS + ('XIMap', 'XIArray', 'XItemXNodePtr'):
            kx_, ky_ = kx, ky
            if kx not in F.N.kinds or ky not in F.N.kinds:
                continue
            I_ = F.V.run(None, ('xmlerror',) + val, fn=same, args=[F.item(kx, a), F.item(ky, b)])
            key = 'keys %s and %s' % (kx[2:], ky[2:])
            for want, case in key_cases(a, kx, b, ky):
                got = 0
                for o in I_.rets:
                    q = Query(I_, o)
                    if not case.fits(o.st) or not case.fits(o.st, q.norm):
                        continue
                    got += 1
                    n += 1
                    r = case.bool(q.val)
                    ctx.check(r is want, key, 'are %s when they %s' % (short(q.val), 'are the same' if want else 'differ'))
                ctx.check(got > 0, key, 'never decided')
    return n


def key_cases(a, kx, b, ky):
    if kx in NUMS and ky in NUMS:
        out = []
        for ca in (INTS if kx == 'XIInteger' else FLOATS):
            for cb in (INTS if ky == 'XIInteger' else FLOATS):
                for r in orders(ca, cb):
                    out.append((r == 'eq' or ca == cb == NAN, Case(cls={a: ca, b: cb}, rel={(a, b): r})))
        return out
    return [(r == 'eq', c) for r, c in cases(None, kx, None, ky, a, b)]


# ---- searching -------------------------------------------------------------------------------------------------------

def found(q, entries, key, same, I_, st):
    """the entry that is known to have the key"""
    for t, v in st.known.items():
        if t[:3] == ('y', 'call', same) and v is True:
            x, y = [I_.norm(st, z) for z in t[3]]
            for e, k in ((x, y), (y, x)):
                if k == key and e[:2] == ('y', 'fld') and e[4] == '0' and e[2][:2] == ('y', 'elem') and e[2][2] == entries:
                    return e[2]
    return None


def absent(L, st, entries, key, same):
    """a loop over all the entries has ended, each way round of which knows that the entry does not have the key"""
    I_ = L.F.I
    for k in [k[1] for k in st.aux if k[0] == 'gw']:
        bs = L.F.around(st, k)
        if not bs:
            continue
        ok = True
        for b in bs:
            it = L.F.iteration(b, k)
            if it is None or it[0] not in (entries, ('y', 'reverse', entries)) or it[1] != I(0) or not st.ent_le(lsub(it[3], it[2])):
                ok = False
                break
            e = ('y', 'fld', ('y', 'elem', it[0], it[2]), 0, '0')
            no = [t for t, v in b.st.known.items() if t[:3] == ('y', 'call', same) and v is False and
                  {I_.norm(b.st, t[3][0]), I_.norm(b.st, t[3][1])} == {e, key}]
            ok = ok and bool(no)
        if ok:
            return True
    return st.ent_le(I_.length(st, entries))


def contains(F, q, L, v, entries, key, same):
    b = F.one(q, L, v, 'XIBoolean')
    b = None if b is None else q.truth(b)
    if b is True:
        return None if found(q, entries, key, same, L.F.I, q.st) else 'is true although no entry is known to have the key'
    if b is False:
        return None if absent(L, q.st, entries, key, same) else 'is false although not every entry is known not to have the key'
    return 'is %s' % short(v)


def value_of(q, L, l, entries, key, same):
    e = found(q, entries, key, same, L.F.I, q.st)
    ps = L.parts(q.st, l)
    if e is not None:
        want = L.of(('y', 'fld', e, 1, '1'))
        return None if len(ps) == 1 and ps[0][0] == 'l' and ps[0][1] == want or L.F.I.norm(q.st, l) == L.F.I.norm(q.st, want) else 'is %s' % short(ps, 150)
    if ps:
        return 'is %s for a key that has not been found' % short(ps, 150)
    return None if absent(L, q.st, entries, key, same) else 'is () although not every entry is known not to have the key'


def member(q, L, l, members, n, i):
    st = q.st
    ps = L.parts(st, l)
    if not ps:
        ok = st.ent_le(i) or st.ent_le(ladd(lsub(n, i), I(1)))
        return None if ok else 'is () for a position inside'
    k = st.nl(lsub(i, I(1)))
    x = L.F.I.norm(st, l)
    if x[:2] == ('y', 'fld') and x[2][:2] == ('y', 'elem') and x[2][2] == members and st.nl(x[2][3]) == k and \
            st.ent_le(lsub(I(1), i)) and st.ent_le(lsub(i, n)):
        return None
    return 'is %s' % short(ps, 150)


def each(q, L, v, lst, alt):
    """one thing for every element of the list, in order"""
    ps = L.parts(q.st, L.of(v))
    if not ps and q.st.ent_le(L.F.I.length(q.st, lst)):
        return None
    if len(ps) == 1 and ps[0][0] == 'for' and ps[0][1] == lst and q.st.ent_le(ps[0][2]) and ps[0][4] and ps[0][3] and \
            all(a == alt for b, a in ps[0][3]):
        return None
    return 'is %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200)


# ---- flattening ------------------------------------------------------------------------------------------------------

def flatten(ctx, P, F, members):
    """items that are no arrays stay, an array gives what its own flattening gives: the flattening of each member, one after the other"""
    rec = [f for f, fn in P.fns.items() if fn['argc'] == 1 and fn['locals'][1]['ty'].endswith('XSeqArray') and '{closure' not in f and
           fn['locals'][0]['ty'].endswith('XSequence') and f in reach(P, f)]
    if len(rec) != 1:
        raise AnalysisError('no single function that flattens an array: %s' % rec)
    rec = rec[0]
    mod = {rec: F.V.opaque(rec)}
    n = F.decide(ctx, 'array:flatten', F.run('array:flatten', '*', models=mod), lambda q, L, v: flat(F, q, L, L.of(v), F.list(0), rec, None))
    me = ('y', 'arr')
    I_ = F.V.run(None, ('xmlerror',), fn=rec, args=[me], models=mod)
    L = Lists(I_, P)
    for o in I_.rets:
        q = Query(I_, o)
        n += 1
        try:
            why = flat(F, q, L, L.of(q.val), ('y', 'fld', me) + members[3:], rec, F.field)
        except Odd as e:
            why = str(e)
        ctx.check(why is None, 'flattening an array', why or '')
    return n


def reach(P, f):
    """the functions a function reaches over calls, its closures included"""
    seen, todo = set(), [f]
    while todo:
        h = todo.pop()
        for g in [g for g in P.fns if g == h or g.startswith(h + '::{closure')]:
            for c, t in P.calls(P.fns[g]):
                if c['path'] in P.fns and c['path'] not in seen:
                    seen.add(c['path'])
                    todo.append(c['path'])
    return seen


def flat(F, q, L, l, lst, rec, inner):
    """every item of the list (of each member of the list, when inner) in order, arrays flattened"""
    ps = L.parts(q.st, l)
    return flat_parts(F, q, L, ps, lst, rec, inner, q.st)


def flat_parts(F, q, L, ps, lst, rec, inner, st):
    if not ps and st.ent_le(L.F.I.length(st, lst)):
        return None
    if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != lst or not st.ent_le(ps[0][2]) or not ps[0][4]:
        return 'is %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200)
    kinds = set()
    for b, alt in ps[0][3]:
        if inner is not None:
            why = flat_parts(F, q, L, alt, ('y', 'fld', ITEM, 0, inner), rec, None, b.st) if alt else None
            if why:
                return 'a member is taken as: ' + why
            kinds |= set(F.N.kinds)
            continue
        el = [t for t in set(b.st.known) | set(b.st.excl) if t[:2] == ('y', 'elem') and (t[2] == lst or ITEM in flatten_terms(lst))]
        ks = set(F.N.kinds)
        for t in el:
            if b.st.known.get(t) in ks or set(b.st.excl.get(t) or ()) & set(F.N.kinds):
                ks &= {b.st.known[t]} if b.st.known.get(t) else ks - set(b.st.excl.get(t) or ())
        if len(ks) > 1 and 'XIArray' in ks:
            return 'an array is taken as %s' % short(alt, 100)
        kinds |= ks
        arr = ('y', 'fld', ('y', 'call', rec, (('y', 'vf', ITEM, 'XIArray', 0),)), 0, F.field)
        want = [('l', arr)] if ks == {'XIArray'} else [('e', ITEM)]
        alt = [('l', x[1]) if x[0] == 'for' and x[4] and x[2] == I(0) and all(a == [('e', ITEM)] for bb, a in x[3]) else x[:2] for x in alt]
        if ks and alt != want:
            return 'an item of kind %s is taken as %s' % ('/'.join(sorted(k[2:] for k in ks)[:3]), short(alt, 150))
    return None if set(F.N.kinds) <= kinds else 'items are left out'


def flatten_terms(t):
    out = set()
    has_part(t, lambda y: out.add(y) and False)
    return out


# ---- lookups ---------------------------------------------------------------------------------------------------------

def getters(P):
    """the functions that give a value for a key"""
    out = {}
    for kind in ('XSeqMap', 'XSeqArray'):
        out[kind] = [f for f, fn in P.fns.items() if fn['argc'] == 2 and '{closure' not in f and fn['locals'][1]['ty'].endswith(kind) and
                     fn['locals'][2]['ty'].endswith('xitem::XItem') and fn['locals'][0]['ty'].startswith('std::option::Option')]
    return out


def lookups(ctx, P, F, mod, same):
    n = 0
    get = getters(P)
    m = ('y', 'm')
    V = F.V
    for letter, kind in (('m', 'XSeqMap'), ('a', 'XSeqArray')):
        field = P.adts[adt(P, kind)]['variants'][0]['fields'][0]['name']
        whole = ('y', 'fld', m, 0, field)
        if len(get[kind]) != 1:
            raise AnalysisError('no single function that gives a value of a %s: %s' % (kind, get[kind]))
        g = get[kind][0]
        n += getter(ctx, P, F, g, kind, whole, m, same, mod)
        ctxs = F.N.seq(F.item(SHAPES[letter], m))
        I_ = V.run(('UnaryLookupByExpr', {LEFT: None}), ('xmlerror',), args=[ctxs, V.x, V.env], models={g: V.opaque(g)})
        L = Lists(I_, P)
        part = V.result(V.kid(V.x, LEFT), ctx=ctxs)
        key = 'lookup by expression in %s' % kind[4:].lower()
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            k = q.got()
            if q.known(part) == 'Err':
                ctx.check(k[0] == 'err', key, 'is a value although the expression is an error')
                continue
            if k[0] != 'ok':
                ctx.check(False, key, 'is %s' % short(q.val))
                continue
            keys_ = L.of(('y', 'vf', part, 'Ok', 0))
            why = by_keys(q, L, L.parts(q.st, L.of(k[1])), keys_, g, m)
            ctx.check(why is None, key, why or '')
        inline = dict(mod)
        if letter == 'm':
            inline[g] = V.opaque(g)
        I_ = V.run(('UnaryLookupByWildcard', {}), ('xmlerror',), args=[ctxs, V.x, V.env], models=inline)
        L = Lists(I_, P)
        key = 'lookup of everything in %s' % kind[4:].lower()
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            k = q.got()
            if k[0] != 'ok':
                ctx.check(False, key, 'is %s' % short(q.val))
                continue
            L.F.hints = [whole]
            why = everything(q, L, L.parts(q.st, L.of(k[1])), whole, letter, g, m, F.field)
            ctx.check(why is None, key, why or '')
    for kind in ('UnaryLookupByExpr', 'UnaryLookupByWildcard'):
        for s in ('s', 'i', 'n', 'e', 'f'):
            I_ = V.run((kind, {LEFT: None} if 'Expr' in kind else {}), ('xmlerror',), args=[F.arg(s, 0), V.x, V.env])
            for o in I_.rets:
                n += 1
                ctx.check(Query(I_, o).got()[0] == 'err', 'a lookup in something else', 'is a value')
    return n


def getter(ctx, P, F, g, kind, whole, m, same, mod):
    """Some value exactly when there is one for the key"""
    key = F.item('XIInteger', ('y', 'k'))
    I_ = F.V.run(None, ('xmlerror',), fn=g, args=[m, key], models=mod)
    L = Lists(I_, P)
    n = 0
    for o in I_.rets:
        n += 1
        q = Query(I_, o)
        v = q.val
        some = v[3] if v[0] == 'A' else None
        what = 'the value of a %s for a key' % kind[4:].lower()
        if some == 'Some':
            l = L.of(v[4][0])
            if kind == 'XSeqMap':
                why = value_of(q, L, l, whole, key, same) if found(q, whole, key, same, I_, q.st) else 'is given although no entry is known to have the key'
            else:
                why = member(q, L, l, whole, mirai.sym('len', whole, nonneg=True), ('y', 'k'))
        elif some == 'None':
            if kind == 'XSeqMap':
                why = None if absent(L, q.st, whole, key, same) else 'is missing although not every entry is known not to have the key'
            else:
                k, n_ = ('y', 'k'), mirai.sym('len', whole, nonneg=True)
                why = None if q.st.ent_le(k) or q.st.ent_le(ladd(lsub(n_, k), I(1))) else 'is missing inside'
        else:
            why = 'is %s' % short(v)
        ctx.check(why is None, what, why or '')
    return n


def taken(alt):
    """the list a way round adds"""
    if not alt:
        return ()
    if len(alt) == 1 and alt[0][0] == 'l':
        return alt[0][1]
    if len(alt) == 1 and alt[0][0] == 'for' and alt[0][4] and alt[0][2] == I(0) and alt[0][3] and all(a == [('e', ITEM)] for b, a in alt[0][3]):
        return alt[0][1]
    return None


def by_keys(q, L, ps, keys_, g, m):
    st = q.st
    if not ps and st.ent_le(L.F.I.length(st, keys_)):
        return None
    if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != keys_ or not st.ent_le(ps[0][2]) or not ps[0][4]:
        return 'is %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200)
    seen = set()
    for b, alt in ps[0][3]:
        c = [t for t in set(b.st.known) | set(b.st.excl) if t[:3] == ('y', 'call', g) and t[3][0] == m]
        got = {b.st.known.get(t) or ('None' if 'Some' in (b.st.excl.get(t) or ()) else 'Some') for t in c}
        l = taken(alt)
        want = L.of(('y', 'vf', ('y', 'call', g, (m, ITEM)), 'Some', 0))
        if got == {'Some'} and l == want or got == {'None'} and l == ():
            seen |= got
            continue
        return 'takes %s for a key' % short(alt, 150)
    return None if seen == {'Some', 'None'} else 'keys are left out'


def everything(q, L, ps, whole, letter, g, m, field):
    st = q.st
    if not ps and st.ent_le(L.F.I.length(st, whole)):
        return None
    if len(ps) != 1 or ps[0][0] != 'for' or ps[0][1] != whole or not st.ent_le(ps[0][2]) or not ps[0][4]:
        return 'is %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200)
    some = False
    for b, alt in ps[0][3]:
        l = taken(alt)
        if letter == 'a':
            want = [L.of(ITEM)]
        else:
            k = ('y', 'fld', ITEM, 0, '0')
            want = [L.of(('y', 'fld', ITEM, 1, '1')), L.of(('y', 'vf', ('y', 'call', g, (m, k)), 'Some', 0))]
            c = [t for t, v in b.st.known.items() if t[:3] == ('y', 'call', g) and v == 'None']
            if l == () and c:
                continue                  # a key of the map is always found
        if l not in want:
            return 'takes %s for one' % short(alt, 150)
        some = True
    return None if some else 'leaves all out'


def calls(ctx, P, F, mod, same):
    return 0


# ---- constructors ----------------------------------------------------------------------------------------------------

def constructors(ctx, P, F, mod, same, M, A):
    V = F.V
    n = 0
    for kind, what, field in (('Map', 'XIMap', M), ('SquareArray', 'XIArray', A)):
        I_ = V.run((kind, {LEFT: None}), ('xmlerror',), models=mod)
        L = Lists(I_, P)
        key = 'making %s' % ('a map' if kind == 'Map' else 'an array')
        done = 0
        for o in I_.rets:
            n += 1
            q = Query(I_, o)
            g = q.got()
            if g[0] != 'ok':
                continue
            x = F.one(q, L, g[1], what)
            if x is None:
                ctx.check(False, key, 'gives %s' % short(g[1]))
                continue
            done += 1
            lst = L.F.I.norm(q.st, x[4][0] if x[0] == 'A' else ('y', 'fld', x, 0, field))
            why = chained(ctx, F, q, L, lst, kind, same)
            ctx.check(why is None, key, why or '')
        ctx.check(done > 0, key, 'never succeeds')
    I_ = V.run(('CurlyArray', {LEFT: None}), ('xmlerror',))
    L = Lists(I_, P)
    part = V.result(V.kid(V.x, LEFT))
    for o in I_.rets:
        n += 1
        q = Query(I_, o)
        g = q.got()
        if q.known(part) == 'Err':
            ctx.check(g[0] == 'err', 'making an array of items', 'is a value although the expression is an error')
            continue
        x = F.one(q, L, g[1], 'XIArray') if g[0] == 'ok' else None
        if x is None:
            ctx.check(False, 'making an array of items', 'gives %s' % short(q.val))
            continue
        lst = x[4][0] if x[0] == 'A' else ('y', 'fld', x, 0, A)
        items = L.of(('y', 'vf', part, 'Ok', 0))
        ps = L.parts(q.st, lst)
        ok = not ps and q.st.ent_le(I_.length(q.st, items)) or \
            len(ps) == 1 and ps[0][0] == 'for' and ps[0][1] == items and q.st.ent_le(ps[0][2]) and ps[0][4] and ps[0][3] and \
            all(len(a) == 1 and a[0][0] == 'e' and a[0][1] == F.N.seq(ITEM) for b, a in ps[0][3])
        ctx.check(ok, 'making an array of items', 'gives %s' % short([p[:2] if p[0] == 'for' else p for p in ps], 200))
    return n


def chained(ctx, F, q, L, lst, kind, same):
    """the list is built along the chain of entries: each puts what it says behind the others"""
    V = F.V

    def each(b, x, ps):
        if len(ps) != 1 or ps[0][0] != 'e':
            return 'an entry is added as %s' % short(ps, 150)
        e = L.F.I.norm(b.st, ps[0][1])
        v = V.result(V.kid(x, LEFT, RIGHT) if kind == 'Map' else V.kid(x, LEFT))
        val = ('y', 'vf', v, 'Ok', 0)
        if b.st.known.get(v) != 'Ok':
            return 'goes on after an error'
        if kind != 'Map':
            return None if e == val else 'a member is added as %s' % short(e, 150)
        k = V.result(V.kid(x, LEFT, LEFT))
        if b.st.known.get(k) != 'Ok':
            return 'goes on after an error'
        ks = L.of(('y', 'vf', k, 'Ok', 0))
        kv = ('y', 'elem', ks, I(0))
        if e != ('T', (kv, val)):
            return 'an entry is added as %s' % short(e, 150)
        if b.st.nl(L.F.I.length(b.st, ks)) != I(1):
            return 'a key may be other than one item'
        if not any(t[:3] == ('y', 'call', same) and v is True and t[3][0] == t[3][1] == kv for t, v in b.st.known.items()):
            return 'a key may be no atomic value'
        if not absent(L, b.st, made(L, q, lst), kv, same):
            return 'an entry is added although another may have the same key'
    if lst[:1] == ('R',) and not lst[1]:
        return 'is empty' if kind == 'Map' else along(V, L, q, lst, V.x, LEFT, each)
    return along(V, L, q, lst, V.x, LEFT, each)


def made(L, q, lst):
    lst = L.F.I.norm(q.st, lst)
    return lst[3] if lst[0] == 'V' else lst
