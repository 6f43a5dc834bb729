"""Every operation that can panic (unwrap/expect, indexing, slicing, integer overflow, division, RefCell borrow, explicit
panic) on any path through new_document, SaxDecoder::new, raw_token and what they call is shown not to be reached
with a failing argument; a panic the analysis cannot exclude is reported."""
from ..lib import *
from ..sax import SaxRun, DocRun


def run(ctx):
    P = ctx.P
    ctx.rule('no panic obligation is left open on any path of the parser')
    S = SaxRun(P)
    n = report_obligations(ctx, S.I)
    ctx.saw(*S.I.entered)
    for d in S.decode + [P.find('SaxDecoder::new')]:
        I_ = Interp(P, budget=600000, symleaf=charpred(P))
        I_.run(d)
        n += report_obligations(ctx, I_)
        ctx.saw(*I_.entered)
    # the leaves: predicates on characters
    cp = charpred(P)
    for f in P.live_fns():
        if f['path'].startswith('sax::') and cp(f['path']):
            I_ = Interp(P, budget=600000, symleaf=cp)
            I_.run(f['path'])
            n += report_obligations(ctx, I_)
            ctx.saw(*I_.entered)
    D = DocRun(P)
    ctx.saw(*D.I.entered)

    def allow(fn, kind, where, v):
        t = v[2]
        if kind == 'unwrap' and isinstance(t, tuple) and t[:2] == ('y', 'upgrade') and 'parent' in str(t):
            return 'the parent of the current node is owned by its own parent\'s list of children, up to the document node, ' \
                   'which new_document holds (property D01)'
    n += report_obligations(ctx, D.I, allow=allow)
    ctx.floor('panic obligations', n, 8)

