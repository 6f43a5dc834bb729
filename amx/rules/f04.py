"""Abstract interpretation of fn:abs, fn:ceiling, fn:floor, fn:round and fn:number through the function table, on every kind of
number, evaluated in every place a double can be (an integer, a half, strictly between, each sign, zeros, infinities, NaN)."""
from ..funcs import *
from ..places import *

DOES = {'fn:abs': lambda c, v, x: v if v == NANV or v[0] == 'num' and v[7] is None and c.sign(v) == POS else c.func('abs', [v]),
        'fn:ceiling': lambda c, v, x: c.whole('ceil', v),
        'fn:floor': lambda c, v, x: c.whole('floor', v),
        'fn:round': lambda c, v, x: c.rounded(x)}


def run(ctx):
    P = ctx.P
    F = Texts(P)
    x = F.val(0)
    ctx.rule('abs, ceiling, floor and round keep the kind and give the stated number; number converts every single item')
    n = 0
    for name, f in DOES.items():
        n += F.decide(ctx, name + ' of an empty sequence', F.run(name, 'e'), [])
        I_ = F.run(name, 'i')
        for c in INTS:
            case = Case(cls={x: c})
            key = '%s of an integer, %s' % (name, c)

            def ok(q, t):
                if name == 'fn:abs':
                    ts = [('y', 'vf', ('y', 'checked', 'abs', (x,)), 'Some', 0), ('y', 'num', 'abs', (x,)), ('y', 'checked', 'neg', (x,))] if c == NEG else []
                    t0 = q.norm(t)
                    if c == NEG:
                        neg = t0 == q.norm(lsub(I(0), x)) or t0[:2] == ('y', 'vf') and t0[2][:3] in (('y', 'checked', 'neg'), ('y', 'checked', 'sub'))
                        return None if t0 in ts or neg else 'is %s' % short(t)
                    if t0 in (('y', 'vf', ('y', 'checked', 'abs', (x,)), 'Some', 0), ('y', 'num', 'abs', (x,))):
                        return None
                return None if F.equal(q, t, x) else 'is %s' % short(t)
            n += F.decide(ctx, key, I_, F.single('XIInteger', ok), case, err=(lambda q: limit(q, x)) if name == 'fn:abs' and c == NEG else None)
            if name == 'fn:abs' and c != NEG:
                continue
        for letter, kind in (('d', 'XIDouble'), ('c', 'XIDecimal')):
            I_ = F.run(name, letter)
            for c in FLOATS if letter == 'd' else (NEG, PZ, POS):
                for place, rng in spots(c, ('y', 'K', 0)):
                    case = Place({x: (place, rng)})
                    want = f(case, place, x)
                    key = '%s of %s, %s' % (name, kind[2:].lower(), case.show(place) + ('' if rng is None else ', K up to -2' if rng[0] is None else ', K from 1'))

                    def ok(q, t):
                        got = case.eval(q.norm(t))
                        return None if alike(case, got, want, letter == 'd') else 'is %s instead of %s' % (case.show(got), case.show(want))
                    n += F.decide(ctx, key, I_, F.single(kind, ok), case)
    nan = F.single('XIDouble', lambda q, t: None if Case().number(t) == NAN else 'is %s instead of NaN' % short(t))
    n += F.decide(ctx, 'fn:number of an empty sequence', F.run('fn:number', 'e'), nan)
    for letter in 'icd':
        case = Case(cls={x: POS})
        n += F.decide(ctx, 'fn:number of %s' % SHAPES[letter][2:], F.run('fn:number', letter),
                      F.single('XIDouble', lambda q, t: None if case.base(q.norm(t)) == x else 'is %s' % short(t)), case)
    for v in (True, False):
        case = Case(truth={x: v})
        n += F.decide(ctx, 'fn:number of %s' % v, F.run('fn:number', 'b'),
                      F.single('XIDouble', lambda q, t: None if case.value_of(q.norm(t)) == int(v) else 'is %s' % short(t)), case)
    n += F.decide(ctx, 'fn:number of a string', F.run('fn:number', 's'), F.single('XIDouble', lambda q, t: text(q, t, x)))
    for many in ('ii', 'ss', 'sd', 'bi', 'iii'):
        n += F.decide(ctx, 'fn:number of several items', F.run('fn:number', [many]), 'err')
    n += F.decide(ctx, 'fn:number of several items', F.run('fn:number', '*', bounds(lsub(I(2), F.len(0)))), 'err')
    ctx.floor('paths', n, 150)
    ctx.saw(*F.V.entered)


def limit(q, x):
    """does the path know that the integer has no absolute value?"""
    return any(t[:2] == ('y', 'checked') and v == 'None' for t, v in q.st.known.items()) or \
        any(t[:2] == ('y', 'checked') and 'Some' in v for t, v in q.st.excl.items()) or \
        q.st.ent_le(lsub(x, I(-2 ** 63)))


def alike(case, got, want, zeros):
    if got is not None and got == want:
        return True                       # the number itself, where it need not be settled
    return case.same_value(got, want, zeros)


def text(q, t, x):
    """the number that the text is, NaN when it is none"""
    t = q.norm(t)

    def parse(p):
        if p[:3] != ('y', 'parse', 'f64'):
            return False
        s = p[3]
        while s[:2] == ('y', 'str') and s[2] == 'trim':
            s = s[3][0] if isinstance(s[3][0], tuple) else s[3]
        return s == x
    if t[:2] == ('y', 'vf') and t[3] == 'Ok' and parse(t[2]):
        return None
    if Case().number(t) == NAN and (any(parse(p) and v == 'Err' for p, v in q.st.known.items() if p[0] == 'y') or
                                    any(parse(p) and 'Ok' in v for p, v in q.st.excl.items() if p[0] == 'y')):
        return None
    return 'is %s' % short(t)
