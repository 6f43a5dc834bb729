"""Every way round the loop of Lexer::new that cuts the text into tokens (with the functions it calls entered) is rebuilt
as the sequence of characters it consumes: single characters with the set of values each can have on that path, and
gathering loops.  A reference recognizer of the XPath tokens (34 symbols, NCNames, three kinds of numbers, strings, Q{...},
nested comments, white space) is run along the sequence, on classes of characters it cannot tell apart: each character must
continue the token, the token pushed must be of the type the recognizer ends in, with the text the pieces spell, and no
value the next character can have may continue it.  A path that ends in an error must have run into a character, or the
end, that the recognizer has no way to continue with; the loop may only be left at the end of the text."""
from ..lex import *


def pieces(L, st, t):
    """text -> [('k', code) | ('e', position) | ('*', loop, cell, w)]"""
    out = []
    for p in (t[1] if t[0] == 'cat' else (t,)):
        if p[0] == 's':
            out += [('k', ord(c)) for c in p[1]]
        elif p[0] == 'ch' and isint(p[1]):
            out.append(('k', p[1][1]))
        elif p[0] == 'ch':
            at = L.where(st, p[1])
            if at is None:
                raise Wrong('the text contains ' + pp(p[1])[:100])
            out.append(('e', at))
        else:
            w = p[1] if p[0] == 'v' else p
            g = L.gathered(st, w)
            if g is None:
                raise Wrong('the text contains ' + pp(w)[:100])
            out += pieces(L, st, g[2]) + [('*', g[0], g[1], w)]
    return out


def same_char(s, x):
    return s[0] == 'c' and (x[0] == 'e' and x[1] == s[1] or x[0] == 'k' and s[2] == ((x[1], x[1]),))


def spelled(L, st, segs, ps, delim, key=None):
    """do the pieces of the text spell the characters (strings: each doubled delimiter once)"""
    ps = list(ps)
    i = 0
    while i < len(segs):
        s = segs[i]
        if s[0] == '*':
            if not ps or ps[0][0] != '*' or ps[0][1] != s[1]:
                return 'a loop passes over characters that the text lacks'
            for b in L.around(st, s[1]):
                for sub, end, over, look in L.ways(b, s[1]):
                    add = L.appended(b, ps[0][2], ps[0][3])
                    if add is None:
                        return 'a way round the loop replaces the text'
                    why = spelled(L, b.st, sub, pieces(L, b.st, ('cat', tuple(add))), delim)
                    if why:
                        return why
            ps = ps[1:]
        elif delim and s[2] == ((ord(delim), ord(delim)),):
            # a doubled delimiter stands for one
            if i + 1 >= len(segs) or segs[i + 1][0] != 'c' or segs[i + 1][2] != s[2] or \
                    not ps or not (same_char(s, ps[0]) or same_char(segs[i + 1], ps[0])):
                return 'a doubled quote does not give one quote'
            ps = ps[1:]
            i += 1
        else:
            if not ps or not same_char(s, ps[0]):
                return 'the character at %s is not in the text' % pp(s[1])
            ps = ps[1:]
        i += 1
    return 'the text has more characters' if ps else None


def token(L, st, segs, q, tok):
    """the token pushed against the state the recognizer ended in; None or what is wrong"""
    ty, text = tok[4][0], tok[4][1]
    if text[0] == 'A' or ty[0] != 'A':
        ty, text = text, ty
    for r in q:
        if accepts(r) != ty[3]:
            return 'what ends in %s becomes a token of type %s' % (describe(r), ty[3])
    # the token begins behind white space and comments
    i = 0
    states = frozenset([START])
    for n, s in enumerate(segs):
        states = L.along(st, states, [s])
        if states == frozenset([START]):
            i = n + 1
    body = segs[i:]
    delim = None
    if ty[3] == 'StringLiteral':
        delim = list(q)[0][1]
        body = body[1:-1]
    return spelled(L, st, body, pieces(L, st, text), delim)


def name_of(segs):
    out = []
    for s in segs:
        out.append('*' if s[0] == '*' else iv_text(s[2], 3))
    return ' '.join(out)


def run(ctx):
    P = ctx.P
    L = LexRun(P)
    ctx.saw(*L.I.entered)
    where = P.short(P.fns[L.new]['sp'])
    ctx.rule('each way round the cutting loop consumes white space, a comment or exactly one longest token, and pushes that token')
    kinds = {}
    n = 0
    for o in L.backs[L.main]:
        if not L.all_positions_possible(o.st) or L.contradicts(o.st):
            continue
        w = o.st.aux[('gw', L.main)]
        try:
            ways = L.segments(o.st, L.pos(o.st, w), L.pos(o.st, o.st.mem), (L.main,))
        except Wrong as x:
            ctx.check(False, 'token cutting', '%s (%s)' % (x, pstate(o.st)[:300]), where)
            continue
        for segs, end, over, look in ways:
            n += 1
            q = None
            try:
                q = L.along(o.st, frozenset([START]), segs)
                why = way(L, o, segs, q, look, L.toks(w), L.toks(o.st.mem), kinds)
            except Wrong as x:
                why = str(x)
            ctx.check(not why, 'token cutting: ' + (describe(sorted(q, key=str)[0]) if q else 'text'),
                      '%s (characters %s; %s)' % (why, name_of(segs), pstate(o.st)[:300]), where)
    ctx.floor('ways round the cutting loop', n, 50)
    for k in sorted(set(SYMBOLS.values()) | set(ACCEPT.values())):
        ctx.check(k in kinds, 'token cutting: some way makes a %s' % k, 'no way round the loop makes a token of type %s' % k, where)
    ctx.check('skipped' in kinds, 'token cutting: comments are passed over', 'no way round the loop passes over a comment', where)

    ctx.rule('an error is reported only where no token continues')
    n = m = 0
    for o in L.rets:
        v = L.I.norm(o.st, o.val)
        g = o.st.aux.get(('gw', L.main))
        if g is None:
            ctx.check(False, 'token cutting: the loop is entered', 'a path returns %s without reading the text' % pp(v)[:200], where)
            continue
        if not L.all_positions_possible(o.st) or L.contradicts(o.st):
            continue
        try:
            ways = L.segments(o.st, L.pos(o.st, g), None, (L.main,))
        except Wrong as x:
            ctx.check(False, 'token cutting', '%s (%s)' % (x, pstate(o.st)[:300]), where)
            continue
        for segs, end, over, look in ways:
            why = None
            try:
                if is_err(v):
                    n += 1
                    why = stuck(L, o.st, segs, over)
                elif is_ok(v):
                    m += 1
                    q = L.along(o.st, frozenset([START]), segs)
                    if q != frozenset([START]):
                        why = 'the loop ends behind ' + describe(sorted(q, key=str)[0])
                    elif not over:
                        why = 'the loop ends before the end of the text'
                    else:
                        why = sentinels(L, o)
            except Wrong as x:
                why = str(x)
            ctx.check(not why, 'token cutting: %s' % ('errors' if is_err(v) else 'the end'), '%s (characters %s; %s)' % (
                why, name_of(segs), pstate(o.st)[:300]), where)
    ctx.floor('ways to an error', n, 5)
    ctx.floor('ways to the end', m, 1)


def way(L, o, segs, q, look, t0, t1, kinds):
    """what is wrong with one way round the cutting loop, or None"""
    if t1 == t0:
        bad = [r for r in q if normal(r, look) != START]
        kinds['skipped'] = kinds.get('skipped', 0) + 1
        return 'no token is pushed behind ' + describe(bad[0]) if bad else None
    if not (t1[:2] == ('y', 'snoc') and t1[2] == t0 and t1[3][0] == 'A'):
        return 'the tokens become ' + pp(t1)[:200]
    why = token(L, o.st, segs, q, t1[3])
    if why:
        return why
    for r in q:
        k = accepts(r)
        kinds[k] = kinds.get(k, 0) + 1
        for a in ATOMS:
            if iv_inter(a, look) and step(r, a) is not None:
                return '%s ends although %s follows' % (describe(r), iv_text(iv_inter(a, look)))
    return None


def stuck(L, st, segs, over):
    """a path to an error: every reading of it meets a character that no token continues with"""
    states = frozenset([START])
    for s in segs:
        if s[0] == '*':
            states = L.star(st, states, s)
            continue
        nxt = set()
        for q in states:
            for a in ATOMS:
                if iv_inter(a, s[2]):
                    r = step(q, a)
                    if r is not None:
                        nxt.add(r)
                    elif accepts(q):
                        return 'an error although %s is complete' % describe(q)
        states = frozenset(nxt)
        if not states:
            return None
    for q in states:
        if accepts(q) or q == START:
            return 'an error although %s is complete' % describe(q)
    if states and not over:
        return 'an error although %s may be continued' % describe(list(states)[0])
    return None


def sentinels(L, o):
    """the tokens are enclosed in two end markers"""
    first = L.lexer(o.st.aux[('gs', L.main)])[4][L.ftoks]
    eof = lambda t: t[0] == 'A' and any(x[0] == 'A' and x[3] == 'EOF' for x in t[4])
    if not (first[0] == 'V' and first[1] == I(1) and first[2] and eof(first[2][0])):
        return 'the tokens begin with ' + pp(first)[:100]
    evs = list(o.st.events())
    at = [i for i, e in enumerate(evs) if e[0] == 'loop' and e[2] == L.main[1] and e[1] == L.backs[L.main][0].info[0]]
    pushed = []
    for e in evs[at[-1] + 1:] if at else ():
        if e[0] == 'call' and e[1] in L.leaves:
            break
        if e[0] == 'push':
            pushed.append(e[3])
    if len(pushed) != 1 or not eof(pushed[0]):
        return 'behind the last token stands %s' % ', '.join(pp(x) for x in pushed)
    return None
