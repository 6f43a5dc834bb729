"""For every loop of the tokenizer that gathers text: each way around it appends to the text exactly the characters the
read position moves over, in order, and the text starts out as the characters between the start of the piece and the
loop.  The pieces returned in the tokens are such texts (character data and attribute values through the entity decoder,
CDATA, comments, names and processing instructions as they are), starting right behind the opening delimiter and ending
right before the closing one."""
from ..lib import *
from ..fold import Folds, ITEM
from ..sax import SaxRun
from .x03 import kind, END


def pieces(t):
    if t[0] == 's' and len(t) == 2:
        return [('ch', I(ord(c))) for c in t[1]]
    if t[0] == 'cat':
        out = []
        for p in t[1]:
            if p[0] == 's':
                out += [('ch', I(ord(c))) for c in p[1]]
            else:
                out.append(p)
        return out
    return [('v', t)]


def is_text(t):
    return t is not None and t[0] in ('s', 'cat') or (t is not None and t[0] == 'y' and t[1] == 'w')


def elem_pos(S, p):
    if p[0] == 'ch' and isinstance(p[1], tuple) and p[1][:2] == ('y', 'elem') and p[1][2] == S.text:
        return p[1][3]
    return None


def contiguous(S, st, ps, start, end):
    """are ps exactly the characters start..end of the text?"""
    p = start
    for x in ps:
        e = elem_pos(S, x)
        if e is None:
            # a character known on this path
            if x[0] == 'ch' and isint(x[1]) and S.at(st, p)[0] == x[1][1]:
                p = ladd(p, I(1))
                continue
            return False
        if st.nl(e) != st.nl(p):
            return False
        p = ladd(p, I(1))
    return st.nl(p) == st.nl(end)


class Gather:
    """the text-gathering loops of raw_token"""

    def __init__(self, ctx, S):
        self.S = S
        self.loops = {}
        self.memo = {}
        for o in S.I.outs:
            if o.kind == 'back':
                self.loops.setdefault(o.info[2], []).append(o)
        self.texts = {}       # w symbol -> list of (entry pieces, entry pos, head pos)
        for key, outs in sorted(self.loops.items(), key=lambda kv: str(kv[0])):
            self.loop(ctx, key, outs)

    def pos(self, mem, st):
        i, n = self.S.fields['pos']
        v = mem.get(('S', self.S.me), self.S.me)
        if v[0] == 'U' and i in dict(v[2]):
            return st.nl(dict(v[2])[i])
        return self.S.old('pos')

    def loop(self, ctx, key, outs):
        S = self.S
        cells = set()
        for o in outs:
            w = o.st.aux[('wmem', key)]
            for c, a, b in loop_changes(o):
                if a[0] == 'y' and a[1] == 'w' and b[0] == 'cat' and b[1] and b[1][0] == ('v', a):
                    cells.add(c)
        for o in outs:
            fn = o.info[0]
            w = o.st.aux[('wmem', key)]
            s = o.st.aux[('smem', key)]
            head = self.pos(w, o.st)
            end = self.pos(o.st.mem, o.st)
            for c in cells:
                a = w[c]
                b = o.st.mem.get(c, a)
                if a[0] != 'y':
                    continue
                ps = pieces(b)
                ok = ps and ps[0] == ('v', a) and contiguous(S, o.st, ps[1:], head, end)
                ctx.check(ok, 'gathered verbatim in %s' % fn,
                          'a way around the loop moves the position from %s to %s but the text becomes %s (%s)' % (
                              pp(head), pp(end), pp(b), pstate(o.st)[:300]), S.P.short(S.P.fns[fn]['sp']))
                self.texts.setdefault(a, []).append((pieces(s[c]) if c in s else None, self.pos(s, o.st), head, o.st))

    def covers(self, st, t, start, end):
        """the term t is exactly the text from start to end (end None: not checked) on this path"""
        if t[0] == 's':
            return contiguous(self.S, st, pieces(t), start, end if end is not None else ladd(start, I(len(t[1]))))
        if t[0] == 'cat' and not any(p[0] == 'v' for p in t[1]):
            return contiguous(self.S, st, pieces(t), start, end if end is not None else ladd(start, I(len(pieces(t)))))
        for ent, p0, head in self.gathered(st, t):
            if contiguous(self.S, st, ent, start, p0) and (end is None or st.nl(end) == st.nl(head)):
                return True
        return False

    def gathered(self, st, t):
        """how the text t was built on this path: [(pieces before the loop, position before the loop, position behind)]"""
        out = []
        if t in self.texts:
            for k, w in st.aux.items():
                if k[0] != 'gw':
                    continue
                for c, v in w.items():
                    if v == t:
                        s = st.aux[('gs', k[1])]
                        if c in s and s[c] != t:
                            out.append((pieces(s[c]), self.pos(s, st), self.pos(w, st)))
        return out


def run(ctx):
    P = ctx.P
    S = SaxRun(P)
    ctx.saw(*S.I.entered)
    ctx.rule('each way around a gathering loop appends exactly the characters passed over')
    G = Gather(ctx, S)
    ctx.floor('gathering loops', len(set(k for k in G.texts)), 5)
    ctx.rule('token texts start behind the opening delimiter and end before the closing one')
    dec = set(S.decode)
    n = 0
    for o in S.rets:
        v = S.I.norm(o.st, o.val)
        if not is_ok(v):
            continue
        t = payload(v)
        new = S.new(o.st, 'pos')
        if S.pending_first(o):
            ctx.check(t[3] == 'EndElement' and t[4][0] == S.old('pending'), 'pending end tag has the element\'s name',
                      'the end of an empty-element tag is reported as %s' % pp(t))
            continue
        k = kind(S, o, t)
        n += 1
        if k == 'CharData':
            x = t[4][0]
            ok = x[:2] == ('y', 'call') and x[2] in dec and G.covers(o.st, x[3][0], S.pos0, None)
            ctx.check(ok, 'character data is the decoded text from the first character on', 'CharData is %s; %s' % (pp(x), pstate(o.st)[:300]))
            at = S.at(o.st, new)
            stop = at[0] == 60 or o.st.ent_le(lsub(S.len, new)) or S.at(o.st, ladd(new, I(-1)))[0] == 0
            ctx.check(stop, 'character data runs to the next < or the end', 'character data ends early: ' + pstate(o.st)[:300])
        elif k == 'CDATA':
            ctx.check(G.covers(o.st, t[4][0], ladd(S.pos0, I(9)), ladd(new, I(-3))), 'CDATA text is verbatim',
                      'CharData of a CDATA section is %s; %s' % (pp(t[4][0]), pstate(o.st)[:300]))
        elif k == 'Comment':
            ctx.check(G.covers(o.st, t[4][0], ladd(S.pos0, I(4)), ladd(new, I(-3))), 'comment text is verbatim',
                      'Comment is %s; %s' % (pp(t[4][0]), pstate(o.st)[:300]))
        elif k == 'ProcInst':
            ctx.check(G.covers(o.st, t[4][0], ladd(S.pos0, I(2)), None), 'processing instruction target starts behind <?',
                      'target is %s; %s' % (pp(t[4][0]), pstate(o.st)[:300]))
            ok = any(o.st.nl(ladd(new, I(-2))) == o.st.nl(h) and e == [] for e, p0, h in G.gathered(o.st, t[4][1]))
            ctx.check(ok, 'processing instruction data ends before ?>', 'data is %s; %s' % (pp(t[4][1]), pstate(o.st)[:300]))
        elif k == 'EndElement':
            ctx.check(G.covers(o.st, t[4][0], ladd(S.pos0, I(2)), None), 'end tag name starts behind </',
                      'name is %s; %s' % (pp(t[4][0]), pstate(o.st)[:300]))
        elif k == 'StartElement':
            ctx.check(G.covers(o.st, t[4][0], ladd(S.pos0, I(1)), None), 'start tag name starts behind <',
                      'name is %s; %s' % (pp(t[4][0]), pstate(o.st)[:300]))
            slash = S.at(o.st, ladd(new, I(-2)))[0] == 47
            pend = S.new(o.st, 'pending')
            ctx.check(pend == (t[4][0] if slash else ('s', '')) or (not slash and pend == S.old('pending')), 'an empty-element tag gets its end tag',
                      'after %s the pending end tag is %s; %s' % ('/>' if slash else '>', pp(pend), pstate(o.st)[:300]))
            attrs(ctx, S, G, o, t[4][1], dec)
    ctx.floor('token paths', n, 12)
    ctx.rule('the text read is the given text without its carriage returns, and is never changed')
    for o in S.rets:
        ctx.check(S.new(o.st, 'text') == S.text, 'the text is not changed', 'the text becomes ' + pp(S.new(o.st, 'text'))[:200])
    source(ctx, S)


def source(ctx, S):
    """SaxDecoder::new keeps every character but #xD"""
    C = CharSets(S.P)
    n = 0
    for o, text in S.sources():
        n += 1
        ctx.saw(*S.NI.entered)
        kept = None
        whole = ('y', 'chars', ('y', 'arg', 0, S.P.fns[S.P.find('SaxDecoder::new')]['locals'][1]['name']))
        if text[:2] == ('y', 'collect') and text[2][:2] == ('it', 'chars'):
            kept = CHARS
        else:
            ps = Folds(S.NI).elements(o.st, text)
            if len(ps) == 1 and ps[0][0] == 'for' and ps[0][1] == whole and ps[0][2] == I(0) and ps[0][4]:
                kept = ()
                for b, alt in ps[0][3]:
                    if alt == [('e', ITEM)]:
                        kept = iv_union(kept, C.of(b.st, None, lambda x: x[:2] == ('y', 'elem') and x[2] == whole))
                    elif alt:
                        kept = None
                        break
        ctx.check(kept == iv_minus(CHARS, ((13, 13),)), 'only carriage returns are dropped from the text',
                  'the characters kept are %s (%s)' % (iv_text(kept) if kept is not None else 'unknown', pp(text)[:200]))
    ctx.floor('constructors of the tokenizer', n, 1)


def iter_elems(o):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if t[:2] == ('y', 'elem'):
                out.append(t)
            for x in t:
                go(x)
    for s in list(o.st.known) + list(o.st.excl):
        go(s)
    for c, a, b in loop_changes(o):
        go(b)
    return out


def attrs(ctx, S, G, o, x, dec):
    """attributes appended on this path: name and value are gathered texts, the value decoded once"""
    while x[:2] == ('y', 'snoc'):
        a = x[3]
        if a[0] != 'A':
            break
        nm, val = a[4][0], a[4][1]
        ctx.check(nm in G.texts or nm[0] in ('cat',), 'attribute name is gathered text', 'attribute name is ' + pp(nm))
        ok = val[:2] == ('y', 'call') and val[2] in dec and (val[3][0] in G.texts)
        ctx.check(ok, 'attribute value is the decoded gathered text', 'attribute value is ' + pp(val))
        for e, p0, h in (G.gathered(o.st, val[3][0]) if ok else ()):
            q = S.at(o.st, ladd(p0, I(-1)))[0]
            ctx.check(e == [] and q in (34, 39), 'an attribute value starts behind its quote',
                      'the value text starts with %s behind %s' % (e, q))
            ctx.check(S.at(o.st, h)[0] == q, 'an attribute value ends at the quote that opened it',
                      'opened by %s, ended by %s; %s' % (q, S.at(o.st, h)[0], pstate(o.st)[:300]))
        x = x[2]
