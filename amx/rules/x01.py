"""Every loop and recursion under new_document and SaxDecoder::raw_token is shown to make progress: on every path
around a loop some integer moves strictly towards a bound that the loop does not change (the read position towards the
end of the text, an index towards a length); a call to raw_token that returns a token other than EOF consumes at least
one character or delivers the one pending end tag; new_document takes exactly such a token on every turn."""
from ..lib import *
from ..sax import SaxRun, DocRun


def run(ctx):
    P = ctx.P
    ctx.rule('every way around a loop moves an integer strictly towards a loop-invariant bound')
    S = SaxRun(P)
    backs(ctx, S.I, P)
    for d in S.decode:
        I_ = Interp(P, budget=600000, symleaf=charpred(P))
        I_.run(d)
        ctx.saw(*I_.entered)
        backs(ctx, I_, P)
    I_ = Interp(P)
    I_.run('SaxDecoder::new')
    backs(ctx, I_, P)
    ctx.floor('raw_token return paths', len(S.rets), 30)
    ctx.saw(*S.I.entered)
    # a token costs input
    ctx.rule('raw_token: a token other than EOF consumes input or the pending end tag')
    n = 0
    for o in S.rets:
        v = S.I.norm(o.st, o.val)
        if not is_ok(v):
            continue
        t = payload(v)
        n += 1
        if t[3] == 'EOF':
            continue
        if S.pending_first(o):
            ok = S.new(o.st, 'pending') == ('s', '') and o.st.ent_le(lsub(S.pos0, S.new(o.st, 'pos')))
            ctx.check(ok, 'raw_token: pending end tag is delivered once', 'after the pending end tag is delivered it must be cleared')
            continue
        ok = ent_lt(o.st, S.pos0, S.new(o.st, 'pos')) and o.st.ent_le(ladd(I(1), lsub(S.pos0, S.len)))
        ctx.check(ok, 'raw_token: %s consumes input' % t[3], 'a path returns %s without moving the read position: %s' % (
            t[3], pstate(o.st)[:400]))
    ctx.floor('raw_token Ok paths', n, 10)
    # new_document
    ctx.rule('new_document: every turn of its loop reads one token and goes on only for Ok(token other than EOF)')
    D = DocRun(P)
    ctx.saw(*D.I.entered)
    k = 0
    for o in D.backs:
        p = progress(o)
        if p:
            ctx.check(True, 'loop in %s: %s' % (o.info[0], p), '')
            continue
        key = o.info[2]
        ev = o.st.events()[o.st.aux[('entry', key)]:]
        cs = [e for e in ev if e[0] == 'call' and e[1] == D.tok]
        var = D.variant(o.st, cs[-1][3]) if cs else None
        ok = bool(var) and var[0] == 'Ok' and var[1] is not None and 'EOF' not in (var[1] if isinstance(var[1], tuple) else (var[1],))
        k += 1
        ctx.check(ok, 'new_document loop goes on after %s' % (var[1] if var and var[1] else 'no token' if not var else var[0]),
                  'the loop can go round without a fresh token being consumed (or after EOF/error): %s' % pstate(o.st)[:300])
    ctx.floor('new_document loop paths', k, 6)
    # recursion
    ctx.rule('no recursion below new_document')
    reach = P.reachable([D.fn])
    for f in sorted(reach):
        if f in P.fns:
            ctx.check(f not in P.reachable(P.edges().get(f, ())), 'no recursion through %s' % f,
                      'recursion under new_document: depth is not bounded by a consumed token')


def backs(ctx, I_, P):
    for o in I_.outs:
        if o.kind != 'back':
            continue
        p = progress(o)
        fn = o.info[0]
        f = P.fns[fn]
        ctx.check(p is not None, 'progress in a loop of %s' % fn,
                  'a path around the loop does not move anything towards a bound: %s' % pstate(o.st)[:400],
                  P.short(f['sp']))
    for o in I_.outs:
        if o.kind == 'back':
            ctx.saw(o.info[0])
