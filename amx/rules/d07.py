"""Every function of the tree is analysed from an arbitrary tree: all its panic obligations (indices, unwraps, arithmetic,
assertions) must be discharged, and the guards of RefCell borrows are followed through assignments, calls and drops to show
that no cell is borrowed for writing while another borrow of it is alive."""
from ..dom import *


def run(ctx):
    P = ctx.P
    pubs = [p for p, f in P.fns.items() if f.get('reach') and f['kind'] == 'fn' and P.short(f.get('sp') or '').startswith('src/dom.rs')
            and not p.endswith('::new_document')]
    D = Dom(P, pubs)
    D.find_copies()
    ctx.rule('no panic obligation of a function of the tree is left over')
    ctx.rule('no RefCell is borrowed for writing while another borrow of it may be alive')
    known = {f: set() for f in D.rec}
    for _ in range(6):
        old = {f: set(v) for f, v in known.items()}
        for f in sorted(D.rec):
            B = Borrows(D, known)
            D.run(f, borrows=B)
            known[f] |= B.made
            for g in D.rec & P.reachable([f]):
                known[f] |= known[g]
        if known == old:
            break
    n = nb = no = 0
    for p in sorted(set(pubs) | D.rec):
        B = Borrows(D, known)
        R = D.run(p, borrows=B)
        n += 1
        nb += B.n
        short = p.split('::')[-1]
        for k, v in R.I.obl.items():
            no += 1
            ctx.check(not v[1] or counting(k, v), '%s: %s' % (k[0].split('::')[-1], k[1]), 'this can panic (%s)' % str(v[2])[:200], k[2])
        for (fn, sp), what in B.clashes.items():
            ctx.check(False, '%s: borrow' % fn.split('::')[-1], what, sp)
        ctx.check(not B.clashes, short + ' borrows', 'see above')
    ctx.saw(*D.entered)
    ctx.floor('functions', n, 25)
    ctx.floor('borrows', nb, 20)
    ctx.count('panic obligations', no)


def counting(k, v):
    """an order number that grows by one: it would have to be given to 2^63 nodes to overflow"""
    d = v[2]
    return bool(k[1].startswith('overflow:Add') and d and d[0] == 'Add' and d[3] == 'i64' and isint(d[2]) and 0 < d[2][1] < 16)
