"""The XPath tokenizer, analysed once per check: every way round the loop that cuts the text into tokens, as the sequence
of characters consumed (single characters with the set of values each can have, and gathering loops), and the reference
recognizer these are compared with."""
from .lib import *
from .facts import loop_info

TT = 'TType'
NUL = ((0, 0),)


def one(*cs):
    return iv_norm([(ord(c), ord(c)) for c in cs])


SYMBOLS = {
    '//': 'SlashSlash', '/': 'Slash', '::': 'ColonColon', ':=': 'Bind', ':*': 'ColonAsterisk', ':': 'Colon', '=>': 'Arrow',
    '=': 'GeneralEQ', '!=': 'GeneralNE', '!': 'OperatorMap', '||': 'OperatorConcat', '|': 'Union', '<=': 'GeneralLE',
    '<<': 'NodeBefore', '<': 'GeneralLT', '>=': 'GeneralGE', '>>': 'NodeAfter', '>': 'GeneralGT', ',': 'Comma', '?': 'Question',
    '+': 'Plus', '-': 'Minus', '*:': 'AsteriskColon', '*': 'Asterisk', '$': 'Dollar', '[': 'LeftBracket', ']': 'RightBracket',
    '(': 'LeftParen', ')': 'RightParen', '@': 'At', '#': 'Sharp', '{': 'LeftCurly', '}': 'RightCurly', '..': 'DotDot', '.': 'Dot',
}
DIGIT = ((48, 57),)
SPACE = iv_norm([(32, 32), (9, 9), (10, 10), (13, 13)])
# XML 1.0 (fifth edition) NameStartChar and NameChar without the colon: the characters of an NCName
NAME0 = iv_norm([(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
                 (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF),
                 (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)])
NAME1 = iv_union(NAME0, ((0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)))


def atoms():
    """the characters, divided so that the recognizer cannot tell two of a class apart"""
    singles = sorted(set(''.join(SYMBOLS)) | set('Qe"\'E'))
    out = [((ord(c), ord(c)),) for c in singles]
    rest = iv_minus(iv_minus(CHARS, NUL), one(*singles))
    for cls in (DIGIT, SPACE, NAME0, iv_minus(NAME1, NAME0)):
        x = iv_inter(rest, cls)
        if x:
            out.append(x)
            rest = iv_minus(rest, x)
    return out + [rest]


ATOMS = atoms()


def inside(a, s):
    return not iv_minus(a, s)


START = ('start',)


def step(q, a):
    """the state behind a character of the class a, or None"""
    k = q[0]
    c = chr(a[0][0]) if len(a) == 1 and a[0][0] == a[0][1] else None
    if k == 'start':
        if inside(a, SPACE):
            return START
        if inside(a, DIGIT):
            return ('int',)
        if c == 'Q':
            return ('Q',)
        if inside(a, NAME0):
            return ('name',)
        if c in ('"', "'"):
            return ('str', c)
        if c in SYMBOLS or c is not None and any(s[0] == c for s in SYMBOLS):
            return ('sym', c)
        return None
    if k == 'Q' and c == '{':
        return ('uri',)
    if k in ('name', 'Q'):
        return ('name',) if inside(a, NAME1) else None
    if k == 'uri':
        return ('uriend',) if c == '}' else ('uri',)
    if k == 'str':
        return ('strend', q[1]) if c == q[1] else q
    if k == 'strend':
        return ('str', q[1]) if c == q[1] else None
    if k == 'sym':
        if q[1] == '(' and c == ':':
            return ('com', 1, '')
        if q[1] == '.' and inside(a, DIGIT):
            return ('dec',)
        if c is not None and any(s.startswith(q[1] + c) for s in SYMBOLS):
            return ('sym', q[1] + c)
        return None
    if k in ('int', 'dec'):
        if inside(a, DIGIT):
            return q
        if c == '.' and k == 'int':
            return ('dec',)
        return ('exp',) if c in ('e', 'E') else None
    if k == 'exp' and c in ('+', '-'):
        return ('expsign',)
    if k in ('exp', 'expsign', 'dbl'):
        return ('dbl',) if inside(a, DIGIT) else None
    if k == 'com':
        n, p = q[1], q[2]
        if p == '(' and c == ':':
            return comment(n, 1)
        if p == ':' and c == ')':
            return comment(n, -1)
        return ('com', n, c if c in ('(', ':') else '')
    return None


def comment(n, d):
    if isinstance(n, int):
        return ('com', n + d, '') if n + d > 0 else START
    return ('com', (n[0], n[1] + d), '')


ACCEPT = {'name': 'InnerName', 'Q': 'InnerName', 'uriend': 'BracedURILiteral', 'strend': 'StringLiteral', 'int': 'IntegerLiteral',
          'dec': 'DecimalLiteral', 'dbl': 'DoubleLiteral'}


def accepts(q):
    """the type of the token that ends in this state, or None"""
    if q[0] == 'sym':
        return SYMBOLS.get(q[1])
    return ACCEPT.get(q[0])


def normal(q, look):
    """a half-read comment delimiter that the next character cannot complete"""
    if q[0] == 'com' and q[2]:
        b = (q[0], q[1], '')
        if all(step(q, a) == step(b, a) for a in ATOMS if iv_inter(a, look)):
            return b
    return q


class Wrong(Exception):
    pass


class LexRun:
    def __init__(self, P):
        self.P = P
        self.lex = [a for a in P.adts if a.endswith('lexer::Lexer')][0]
        fs = P.adts[self.lex]['variants'][0]['fields']
        only = lambda f: [i for i, g in enumerate(fs) if f(g['ty'])]
        self.fchars = only(lambda t: 'Vec<char>' in t)[0]
        self.ftoks = only(lambda t: 'Vec<' in t and 'Token' in t)[0]
        self.fnums = only(lambda t: t == 'usize')
        self.new = P.find('Lexer::new')
        self.leaves = {p for p in P.fns if self.passlike(p)}
        self.C = CharSets(P)
        self.memo = {}
        self.I = Interp(P, budget=3000000, symleaf=charpred(P), leaves=self.leaves)
        self.rets = self.I.run(self.new)
        self.backs = {}
        for o in self.I.outs:
            if o.kind == 'back':
                self.backs.setdefault(o.info[2], []).append(o)
        main = [k for k, os in self.backs.items() if any(('gw', k) in o.st.aux and self.toks(o.st.mem) != self.toks(o.st.aux[('gw', k)]) for o in os)]
        if len(main) != 1:
            raise AnalysisError('expected one loop that cuts the text into tokens, found %d' % len(main))
        self.main = main[0]
        st = self.backs[self.main][0].st
        moving = [i for i in self.fnums if not isint(self.lexer(st.aux[('gw', self.main)])[4][i])]
        if len(moving) != 1:
            raise AnalysisError('cannot tell which number is the position in the text')
        self.fpos = moving[0]
        self.text = self.plain(self.lexer(st.mem)[4][self.fchars])
        self.len = mirai.sym('len', self.text, nonneg=True)

    def passlike(self, p):
        """a pass over tokens: a method with a loop that never looks at the characters"""
        f = self.P.fns[p]
        if not p.startswith(self.lex + '::') or f['argc'] < 1 or 'mut ' not in f['locals'][1]['ty'] or 'Lexer' not in f['locals'][1]['ty']:
            return False
        rs = self.P.reachable([p])
        import json
        texts = [json.dumps(self.P.fns[q]['blocks']) for q in rs if q.startswith(self.lex + '::')]
        return f['argc'] == 1 and f['locals'][0]['ty'] == '()' and not any('std::vec::Vec<char>' in t for t in texts) and \
            any('std::vec::Vec<xpath_impl::lexer::Token' in t or 'lexer::Token>' in t for t in texts)

    def lexer(self, mem):
        for v in mem.values():
            if v[0] == 'A' and v[1] == self.lex:
                return v
        return None

    def plain(self, v):
        return v[3] if v[0] == 'V' and v[3] is not None else v

    def toks(self, mem):
        v = self.lexer(mem)
        return self.plain(v[4][self.ftoks]) if v else None

    def pos(self, st, mem):
        v = self.lexer(mem)
        return st.nl(v[4][self.fpos]) if v else None

    # ---- characters ---------------------------------------------------------------------------------------------------
    def elems(self, st):
        """position -> terms for the character there that the path knows something about"""
        out = {}
        al = self.aliases(st)

        def go(t):
            if isinstance(t, tuple):
                if t in al:
                    out.setdefault(al[t], set()).add(t)
                    return
                if t[:2] == ('y', 'elem') and t[2] == self.text:
                    out.setdefault(st.nl(t[3]), set()).add(t)
                    return
                for x in t:
                    go(x)
        for s in list(st.known) + list(st.excl) + list(st.les) + list(st.eqs):
            go(s)
        return out

    def where(self, st, t):
        """the position a character term stands at, or None"""
        if t[:2] == ('y', 'elem') and t[2] == self.text:
            return st.nl(t[3])
        return self.aliases(st).get(t)

    def aliases(self, st):
        """characters read ahead of a loop: symbol -> position, one before the loop's"""
        out = {}
        for k, w in st.aux.items():
            if k[0] == 'gw':
                for x in self.ahead(st, k[1]):
                    out[x] = st.nl(ladd(self.pos(st, w), I(-1)))
        return out

    def ahead(self, st, key):
        """the symbols that hold, whenever the loop's head is reached, the character before the position (or the end marker)"""
        w, s = st.aux[('gw', key)], st.aux[('gs', key)]
        if id(w) in self.memo:
            return self.memo[id(w)][1]
        out = []
        self.memo[id(w)] = (w, out)
        if self.pos(st, s) is None or self.pos(st, w) == self.pos(st, s):
            return out

        def before(t, x, p):
            return t[:2] == ('y', 'elem') and t[2] == self.text and x.nl(t[3]) == x.nl(ladd(p, I(-1))) or \
                t == I(0) and self.over(x, ladd(p, I(-1)))
        bs = self.around(st, key)
        for c, v in w.items():
            if v[:2] == ('y', 'w') and c in s and before(s[c], st, self.pos(st, s)) and bs and \
                    all(before(b.st.mem.get(c, v), b.st, self.pos(b.st, b.st.mem)) for b in bs) and \
                    any(mentions(t, lambda y: y == v) for b in bs for t in list(b.st.known) + list(b.st.excl)):
                out.append(v)
        return out

    def set_at(self, st, p, known):
        ts = known.get(st.nl(p), ())
        return iv_minus(self.C.of(st, None, lambda t: t in ts), NUL)

    def over(self, st, p):
        """the text certainly ends before position p"""
        return st.ent_le(lsub(self.len, p))

    def loops(self, st, but=()):
        """start position -> [(loop, position behind it)]"""
        out = {}
        for k, w in st.aux.items():
            if k[0] == 'gw' and k[1] not in but:
                s = st.aux.get(('gs', k[1]))
                a, b = self.pos(st, s), self.pos(st, w)
                if a is not None and b is not None and a != b:
                    if self.ahead(st, k[1]):
                        a, b = st.nl(ladd(a, I(-1))), st.nl(ladd(b, I(-1)))
                    out.setdefault(a, []).append((k[1], b))
        return out

    def segments(self, st, start, end=None, but=()):
        """[(pieces, position behind, text ends there?, what may follow)] from start on, one for every way the loops may be
        run.  A piece is ('c', position, set) or ('*', loop, sets of the first characters, is that all the loop consumes?):
        what the path knows about the characters at the start of a loop (it looked ahead) holds for those the loop consumes,
        or for those behind it if it is not run so often."""
        known = self.elems(st)
        all_loops = self.loops(st, but)
        end = st.nl(end) if end is not None else None
        done = []

        def at(p, more):
            s = self.set_at(st, p, known)
            return iv_inter(s, more[p]) if p in more else s

        def walk(p, out, more, used):
            while True:
                if len(out) > 60:
                    raise Wrong('the path reads too far ahead')
                ls = [x for x in all_loops.get(p, ()) if x[0] not in used]
                if ls:
                    if len(ls) > 1:
                        raise Wrong('two loops start at the same position')
                    k, q = ls[0]
                    used = used | {k}
                    pre = []
                    x = p
                    while (x in known or x in more) and not self.over(st, x) and not (x in more and more[x] is None):
                        pre.append(at(x, more))
                        x = st.nl(ladd(x, I(1)))
                    ends = self.over(st, x) or x in more and more[x] is None
                    for n in range(len(pre) + (1 if ends else 0)):
                        over = dict(more)
                        y = q
                        for s in pre[n:]:
                            over[y] = iv_inter(s, over[y]) if y in over else s
                            y = st.nl(ladd(y, I(1)))
                        if ends:
                            over[y] = None
                        walk(q, out + [('*', k, tuple(pre[:n]), True)], over, used)
                    if ends:
                        return                    # a longer run would pass the end of the text
                    out = out + [('*', k, tuple(pre), False)]
                    p = q
                    continue
                over = self.over(st, p) or p in more and more[p] is None
                if p == end or over or end is None and p not in known and p not in more:
                    look = () if over else at(p, more)
                    if over and more.get(p) or not over and not look:
                        return
                    done.append((out, p, over, look))
                    return
                if p not in known and p not in more:
                    raise Wrong('moves from %s to %s, but nothing is known about the character at %s' % (pp(start), pp(end), pp(p)))
                s = at(p, more)
                if not s:
                    return
                out = out + [('c', p, s)]
                p = st.nl(ladd(p, I(1)))
        walk(st.nl(start), [], {}, frozenset())
        return done

    def all_positions_possible(self, st):
        kn = self.elems(st)
        return all(self.set_at(st, p, kn) for p in kn)

    def contradicts(self, st):
        """has the path decided `text contains c` in a way its own parts exclude?"""
        for s, v in st.known.items():
            if s[:3] == ('y', 'str', 'contains') and isinstance(v, bool):
                t, c = s[3][0], s[3][-1]
                n = c[1] if c[0] == 's' else chr(c[1]) if isint(c) else None
                if n is None or len(n) != 1:
                    continue
                d = self.contains(st, t, ord(n))
                if d is not None and d != v:
                    return True
            # one of the characters of a text built here
            if self.char_of(s) and isinstance(v, int) and not isinstance(v, bool) and self.contains(st, s[2][2], v) is False:
                return True
        for k in [k[1] for k in st.aux if k[0] == 'gw' and k[1] != self.main]:
            # a loop has looked at all characters of a text built here, and passed over each of them
            passed = {}
            for b in self.around(st, k):
                for e in {e for e in list(b.st.known) + list(b.st.excl) if self.char_of(e)}:
                    passed[e] = iv_union(passed.get(e, ()), self.C.of(b.st, e))
            for e, can in passed.items():
                if st.ent_le(lsub(mirai.sym('len', e[2], nonneg=True), e[3])) and \
                        any(len(a) == 1 and a[0][0] == a[0][1] and not iv_inter(a, can) and self.contains(st, e[2][2], a[0][0])
                            for a in ATOMS):
                    return True
        return False

    def char_of(self, s):
        return s[:2] == ('y', 'elem') and s[2][:2] == ('y', 'chars') and s[2] != self.text and s[2][2][0] in ('cat', 's')

    def contains(self, st, t, c, depth=0):
        """does the text contain the character: True, False or None"""
        parts = t[1] if t[0] == 'cat' else (t,)
        kn = self.elems(st)
        sure = False
        maybe = False
        for p in parts:
            if p[0] == 's':
                if chr(c) in p[1]:
                    sure = True
            elif p[0] == 'ch' and isint(p[1]):
                sure = sure or p[1][1] == c
            elif p[0] == 'ch':
                at = self.where(st, p[1])
                s = self.set_at(st, at, kn) if at is not None else CHARS
                if s == ((c, c),):
                    sure = True
                elif iv_inter(s, ((c, c),)):
                    maybe = True
            else:
                w = p[1] if p[0] == 'v' else p
                g = self.gathered(st, w)
                if g is None or depth > 3:
                    maybe = True
                    continue
                k, cell, before = g
                d = self.contains(st, before, c, depth + 1)
                sure, maybe = sure or d is True, maybe or d is None
                for b in self.around(st, k):
                    x = self.appended(b, cell, w)
                    if x is None:
                        maybe = True
                    elif self.all_positions_possible(b.st) and self.contains(b.st, ('cat', tuple(x)), c, depth + 1) is not False:
                        maybe = True
        return True if sure else None if maybe else False

    def gathered(self, st, w):
        """(loop, cell, text before the loop) for a text a loop gathers"""
        for k, m in st.aux.items():
            if k[0] == 'gw' and k[1] != self.main:
                for cell, v in m.items():
                    if v == w:
                        s = st.aux[('gs', k[1])].get(cell)
                        if s is not None and s != w:
                            return k[1], cell, s
        return None

    def appended(self, b, cell, w):
        v = b.st.mem.get(cell, w)
        if v == w:
            return []
        if v[0] == 'cat' and v[1] and v[1][0] == ('v', w):
            return list(v[1][1:])
        return None

    def around(self, st, key):
        """the ways round the loop as it was entered on this path"""
        if ('backs', key) in st.aux:
            return st.aux[('backs', key)]
        w = st.aux.get(('gw', key))
        return [b for b in self.backs.get(key, []) if b.st.aux.get(('gw', key)) is w]

    # ---- the recognizer along a path -----------------------------------------------------------------------------------
    def along(self, st, states, segs, trail=None):
        """states behind the pieces; Wrong if a piece cannot be taken"""
        for n, s in enumerate(segs):
            if trail is not None:
                trail.append(states)
            if s[0] == 'c':
                nxt = set()
                for q in states:
                    for a in ATOMS:
                        if iv_inter(a, s[2]):
                            r = step(q, a)
                            if r is None:
                                raise Wrong('%s cannot follow %s' % (iv_text(iv_inter(a, s[2])), describe(q)))
                            nxt.add(r)
                states = frozenset(nxt)
            else:
                states = self.star(st, states, s)
        if trail is not None:
            trail.append(states)
        return states

    def star(self, st, states, seg):
        key, pre, exact = seg[1:4]
        coms = [q for q in states if q[0] == 'com']
        if coms:
            if len(states) != 1 or coms[0][2]:
                raise Wrong('a comment loop entered in the middle of something')
            return frozenset([self.comment_loop(st, coms[0], key)])
        todo = [(q, 0) for q in states]
        seen = set(todo)
        while todo:
            q, n = todo.pop()
            if exact and n >= len(pre):
                continue
            for b in self.around(st, key):
                for r, m in self.round(b, key, q, pre[n:]):
                    x = (r, min(n + m, len(pre) + 1 if exact else len(pre)))
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
        return frozenset(q for q, n in seen if n == len(pre))

    def ways(self, b, key):
        """the ways round a loop on one of its paths"""
        if not self.all_positions_possible(b.st):
            return []
        d = I(-1) if self.ahead(b.st, key) else I(0)
        return self.segments(b.st, ladd(self.pos(b.st, b.st.aux[('gw', key)]), d), ladd(self.pos(b.st, b.st.mem), d), (key, self.main))

    def round(self, b, key, q, pre=()):
        """(state, characters consumed) behind one way round the loop, begun in q"""
        out = []
        for segs, end, over, look in self.ways(b, key):
            if pre:
                if any(s[0] != 'c' for s in segs):
                    raise Wrong('a loop inside a loop behind characters looked at before')
                segs = [('c', s[1], iv_inter(s[2], pre[i])) if i < len(pre) else s for i, s in enumerate(segs)]
                if not all(s[2] for s in segs):
                    continue
            out += [(normal(r, look), len(segs)) for r in self.along(b.st, frozenset([q]), segs)]
        return out

    def comment_loop(self, st, q, key):
        """a loop inside a comment keeps the depth in some number"""
        w, s = st.aux[('gw', key)], st.aux[('gs', key)]
        why = 'no number counts how deeply the comments are nested'
        for cell in w:
            if not mirai.is_num(w[cell]) or isint(w[cell]) or cell not in s or not isint(s[cell]):
                continue
            off = q[1] - s[cell][1]             # depth == cell + off
            try:
                for b in self.around(st, key):
                    w2 = b.st.aux[('gw', key)][cell]
                    rs = self.round(b, key, ('com', ('rel', 0), ''))
                    if not rs:
                        continue
                    if not b.st.ent_le(lsub(I(1 - off), w2)):
                        raise Wrong('goes on reading a comment although its depth may be 0')
                    d = b.st.nl(lsub(b.st.mem.get(cell, w2), w2))
                    for r, _ in rs:
                        if r[0] != 'com' or r[2] or not isint(d) or r[1][1] != d[1]:
                            raise Wrong('a way round the comment loop changes the depth by %s where the text asks for %s' % (
                                pp(d), r[1][1] if r[0] == 'com' else r))
                if st.ent_le(ladd(w[cell], I(off))):
                    return START
                if self.over(st, self.pos(st, w)):
                    return ('com', 1, '')
                # left in the middle of a comment: only an error is allowed
                return ('com', 1, '')
            except Wrong as x:
                why = str(x)
        raise Wrong(why)


def describe(q):
    k = q[0]
    return {'start': 'white space', 'sym': 'the symbol %s' % (q[1] if len(q) > 1 else ''), 'name': 'a name', 'Q': 'the name Q', 'uri': 'Q{',
            'uriend': 'Q{...}', 'str': 'the beginning of a string', 'strend': 'a string', 'int': 'an integer', 'dec': 'a decimal',
            'exp': 'an exponent sign', 'expsign': 'an exponent', 'dbl': 'a double', 'com': 'the beginning of a comment'}[k]
