"""Abstract interpretation of the evaluator for every kind of node and of every function that is given the environment: a path that
returns a value (or goes round a loop) has established for each fallible step it has taken that the step gave a value."""
from ..ev import *
from ..sem import *
from .v05 import heavy


def fallible(P, f):
    """does f evaluate something (and not just ask what kind of value one is)?"""
    fn = P.fns.get(f)
    if '::XSequence' in f or '::XItem' in f or '::xitem::' in f or '::xsequence::' in f:
        return False
    t = fn['locals'][0]['ty'] if fn else ''
    return t.startswith('std::result::Result<') and 'Error' in t


def run(ctx):
    P = ctx.P
    V = Ev(P)
    E = V.envs()
    ctx.rule('a value is returned only when every evaluation on the way has given a value')
    n = calls = 0
    jobs = [(k, (k, {LEFT: None, RIGHT: None}), None) for k in V.kinds if k != 'Nil'] + [(f, None, f) for f in sorted(E) if f != V.ev]
    for key, shape, f in jobs:
        V2 = V
        if f is not None:
            if not fallible(P, f):
                continue
            V2 = Ev(P)
            V2.env = ('y', 'arg', E[f], P.fns[f]['locals'][E[f] + 1]['name'])
        I_ = V2.run(shape, heavy(P), fn=f, opaque=[g for g in E if f is not None or g != V.ev])
        V.entered |= V2.entered
        n += 1
        calls += look(ctx, P, I_, key)
        ctx.check(True, key, '')
    # the functions that have no environment
    mods = ('::func::', '::oper::', '::eval::')
    rest = [f for f in sorted(P.fns) if f not in E and not P.fns[f].get('std') and P.fns[f]['kind'] == 'fn' and any(m in f for m in mods) and fallible(P, f)]
    m = 0
    for f in rest:
        called = [g['path'] for g, t in P.calls(P.fns[f]) if g and fallible(P, g['path'])]
        if not any(g in E or '::func::' in g or '::oper::' in g for g in called):
            continue
        V2 = Ev(P)
        I_ = V2.run(None, [x for x in heavy(P) if x != f], fn=f, opaque=list(E))
        V.entered |= V2.entered
        m += 1
        calls += look(ctx, P, I_, f)
    ctx.floor('functions without the environment', m, 3)
    ctx.floor('functions and kinds', n, 80)
    ctx.floor('fallible steps on the way to a value', calls, 150)
    ctx.saw(*V.entered)


def look(ctx, P, I_, key):
    calls = 0
    for o in I_.rets + I_.backs:
        q = Query(I_, o)
        if o.kind != 'back' and q.got()[0] == 'err':
            continue
        val = I_.norm(o.st, o.val) if o.kind != 'back' else None
        for e in o.st.events():
            if e[0] != 'call' or not fallible(P, e[1]):
                continue
            calls += 1
            r = I_.norm(o.st, e[3])
            if q.known(r) == 'Ok' or r == val or r[0] == 'A' and r[3] == 'Ok':
                continue
            what = 'goes on' if o.kind == 'back' else 'returns %s' % short(val)
            ctx.check(False, '%s: %s' % (key, e[1].split('::')[-1]), '%s although %s may be an error' % (what, short(r)))
    return calls
