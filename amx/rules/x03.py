"""Paths of raw_token that return a token for markup ('<' first) are shown to end inside the text and directly behind
that token's closing delimiter, and EOF is returned only at the end of the text; the paths of new_document are shown to
return a document only when EOF arrives with the document node current, to turn every tokenizer error into an error, and
to leave the current element on an end tag only when that element has the tag's name."""
from ..lib import *
from ..sax import SaxRun, DocRun

START = {'EndElement': '</', 'ProcInst': '<?', 'Comment': '<!--', 'Directive': '<!', 'StartElement': '<'}
END = {'EndElement': '>', 'ProcInst': '?>', 'Comment': '-->', 'Directive': '>', 'StartElement': '>', 'CDATA': ']]>'}


def kind(S, o, t):
    if t[3] == 'CharData' and S.first_char(o)[0] == 60:
        return 'CDATA'
    return t[3]


def run(ctx):
    P = ctx.P
    S = SaxRun(P)
    ctx.saw(*S.I.entered)
    ctx.rule('markup token => position after it <= length of the text, and the closing delimiter stands right before it')
    n = 0
    for o in S.rets:
        v = S.I.norm(o.st, o.val)
        if not is_ok(v) or S.pending_first(o):
            continue
        t = payload(v)
        new = S.new(o.st, 'pos')
        if t[3] == 'EOF':
            at = S.first_char(o)
            ctx.check(o.st.ent_le(lsub(S.len, S.pos0)) or at[0] == 0, 'raw_token: EOF only at the end of the text',
                      'EOF is returned although text is left: ' + pstate(o.st)[:300])
            continue
        k = kind(S, o, t)
        if k == 'CharData':
            continue
        n += 1
        ctx.check(o.st.ent_le(lsub(new, S.len)), 'raw_token: %s ends inside the text' % k,
                  'a path returns %s although the input ended inside it: %s' % (k, pstate(o.st)[:400]))
        delim = END[k]
        got = [S.at(o.st, ladd(new, I(j - len(delim))))[0] for j in range(len(delim))]
        ctx.check(got == [ord(c) for c in delim], 'raw_token: %s is closed by %s' % (k, delim),
                  'a path returns %s without having read its closing %s: %s' % (k, delim, pstate(o.st)[:400]))
        if k == 'StartElement':
            name = t[4][0]
            ctx.check(name != ('s', '') and (name[0] != 'y' or not o.st.known.get(name) == ('s', '')) and
                      (name[0] != 'y' or ('s', '') in o.st.excl.get(name, ()) or nonempty(S, name)),
                      'raw_token: a start tag has a name', 'a start tag without a name is accepted: ' + pstate(o.st)[:300])
    ctx.floor('markup token paths', n, 10)

    D = DocRun(P)
    ctx.saw(*D.I.entered)
    ctx.rule('new_document: Ok only at EOF with no open element; tokenizer errors become errors')
    oks = 0
    for o in D.rets:
        v = D.I.norm(o.st, o.val)
        r = D.token(o)
        if r is None:
            ctx.check(is_err(v), 'new_document: no document without reading tokens', 'a document is returned before any token is read')
            continue
        if is_ok(v):
            oks += 1
            ctx.check(r[0] == 'Ok' and r[1] == 'EOF', 'new_document: a document is returned only at EOF',
                      'a document is returned after token %s/%s' % r[:2])
            ctx.check(root_current(D, o), 'new_document: no element is open at EOF',
                      'a document is returned at EOF without checking that every element is closed: ' + pstate(o.st)[:300])
        elif not is_err(v):
            ctx.check(False, 'new_document: result', 'neither Ok nor Err: ' + pp(v)[:200])
    ctx.floor('new_document Ok paths', oks, 1)
    for o in D.backs:
        if o.info[0] != D.fn and not D.calls(o):
            continue
        r = D.token(o)
        if r is None:
            continue
        ctx.check(r[0] == 'Ok', 'new_document: a tokenizer error ends the parse', 'the loop goes on after an error token: %s' % pstate(o.st)[:300])
        if r[1] == 'EndElement':
            nm = ('y', 'vf', r[2], 'EndElement', 0)
            ok = any(k[0] == 'eqv' and tv is True and nm in k[1:] and any(is_name(x) for x in k[1:]) for k, tv in o.st.eqs.items())
            ctx.check(ok, 'new_document: an end tag matches the open element', 'an end tag is accepted without comparing its '
                      'name with the open element: ' + pstate(o.st)[:300])
            ctx.check(element_current(D, o), 'new_document: an end tag needs an open element',
                      'an end tag is accepted when no element is open: ' + pstate(o.st)[:300])


def nonempty(S, name):
    """a string built by a loop that starts from a non-empty string and only appends"""
    seen = False
    for o in S.I.outs:
        if o.kind != 'back':
            continue
        key = o.info[2]
        for c, w in o.st.aux[('wmem', key)].items():
            if w == name:
                s = o.st.aux[('smem', key)].get(c)
                seen = True
                if not s or s[0] != 'cat' or not any(p[0] == 'ch' or (p[0] == 's' and p[1]) for p in s[1]):
                    return False
    return seen


def is_name(t):
    return isinstance(t, tuple) and t[:2] == ('y', 'fld') and t[-1] == 'name'


def node_type_facts(o, name, truth):
    for s, v in o.st.known.items():
        if s[:2] == ('y', 'fld') and s[-1] == 'node_type' and v == name:
            return True
    return False


def root_current(D, o):
    return node_type_facts(o, 'DocumentRoot', True)


def element_current(D, o):
    if node_type_facts(o, 'Element', True):
        return True
    for s, v in o.st.excl.items():
        if s[:2] == ('y', 'fld') and s[-1] == 'node_type' and 'DocumentRoot' in v:
            return True
    return False
