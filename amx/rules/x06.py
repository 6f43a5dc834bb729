"""The characters that can start a name, continue it, or be skipped as white space are computed as sets of code points
from the conditions on the tokenizer's paths (the predicate functions and their range tables evaluated abstractly over
all code points at once) and compared with the sets of the XML recommendation."""
from ..lib import *
from ..sax import SaxRun
from ..data.xmlnames import NameStart, NameChar
from .x07 import Gather
LEVEL = 'other'
SPACE = ((9, 10), (13, 13), (32, 32))


class Quiet:
    def check(self, *a):
        pass


def run(ctx):
    P = ctx.P
    S = SaxRun(P)
    C = CharSets(P)
    ctx.saw(*S.I.entered)
    G = Gather(Quiet(), S)

    def at(st, i):
        k = st.nl(i)
        return C.of(st, None, lambda t: t[:2] == ('y', 'elem') and t[2] == S.text and st.nl(t[3]) == k)

    def inside(st, i):
        return not st.ent_le(lsub(S.len, i))

    names = set()
    for o in S.rets:
        v = S.I.norm(o.st, o.val)
        if not is_ok(v) or S.pending_first(o):
            continue
        t = payload(v)
        if t[3] in ('StartElement', 'EndElement', 'ProcInst'):
            x = t[4][0]
            if x in G.texts:
                names.add(x)
        if t[3] == 'StartElement':
            x = t[4][1]
            while x[:2] == ('y', 'snoc'):
                if x[3][0] == 'A' and x[3][4][0] in G.texts:
                    names.add(x[3][4][0])
                x = x[2]
    ctx.floor('name gathering loops', len(names), 2)
    ctx.rule('first character of a name = Letter | _ | :   ;   following characters = NameChar')
    for x in sorted(names, key=repr):
        start, cont = (), ()
        for ent, p0, head, st in G.texts[x]:
            if ent is None:
                continue
            if not ent:
                # the loop reads the first character too
                p1 = p0
            else:
                p1 = ladd(p0, I(-len(ent)))
            start = iv_union(start, at(st, p1))
            cont = iv_union(cont, at(st, head))
        where = loop_name(G, x)
        cmp(ctx, 'first character of a name (%s)' % where, start, NameStart)
        cmp(ctx, 'characters of a name (%s)' % where, cont, NameChar)
        # where the name ends
        for o in S.rets:
            if not uses(o, S, x):
                continue
            for ent, p0, head in G.gathered(o.st, x):
                if inside(o.st, head):
                    s = iv_inter(at(o.st, head), NameChar)
                    ctx.check(not s, 'a name ends in front of a character that cannot be part of it (%s)' % where,
                              'a name ends although the next character can be one of ' + iv_text(s))
    ctx.rule('skipped white space = #x20 | #x9 | #xD | #xA')
    n = 0
    for key, outs in G.loops.items():
        cells = set()
        for o in outs:
            cells |= set(c for c, a, b in loop_changes(o))
        if any(o.st.mem.get(c) is not None and is_text_cell(o, key, c) for o in outs for c in cells):
            continue
        s = ()
        ok = True
        for o in outs:
            h = G.pos(o.st.aux[('wmem', key)], o.st)
            e = G.pos(o.st.mem, o.st)
            if o.st.nl(e) != o.st.nl(ladd(h, I(1))):
                ok = False
                break
            s = iv_union(s, at(o.st, h))
        if not ok or s == CHARS:
            continue
        n += 1
        cmp(ctx, 'white space skipped in %s' % key_fn(key), s, SPACE)
    ctx.floor('white space loops', n, 1)


def uses(o, S, x):
    return o.kind == 'ret' and mentions(S.I.norm(o.st, o.val), lambda y: y == x)


def is_text_cell(o, key, c):
    a, b = o.st.aux[('wmem', key)].get(c), o.st.mem.get(c)
    return a is not None and a[0] == 'y' and a[1] == 'w' and b != a and b is not None and b[0] == 'cat'


def key_fn(key):
    return key[0][-1] if isinstance(key[0], tuple) else str(key[0])


def loop_name(G, x):
    for key, outs in G.loops.items():
        if any(x in o.st.aux[('wmem', key)].values() for o in outs):
            return key_fn(key)
    return '?'


def cmp(ctx, what, got, want):
    ctx.check(got == want, what, 'characters taken that should not be: %s; not taken that should be: %s' % (
        iv_text(iv_minus(got, want)), iv_text(iv_minus(want, got))))
    ctx.note('%s: %d code points in %d ranges' % (what, sum(b - a + 1 for a, b in got), len(got)))
