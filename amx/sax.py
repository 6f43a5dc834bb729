"""The XML tokenizer and the document builder, analysed once per check."""
from . import mirai
from .lib import *

TOKEN = 'XmlToken'


class SaxRun:
    """every path through raw_token, with the functions it calls entered"""

    def __init__(self, P):
        self.P = P
        self.fn = P.find('SaxDecoder::raw_token')
        self.decode = [p for p in P.fns if p.endswith('::decode_entity') and p.startswith('sax')]
        self.I = Interp(P, budget=600000, symleaf=charpred(P), leaves=set(self.decode))
        self.rets = self.I.run(self.fn)
        self.me = ('y', 'arg', 0, P.fns[self.fn]['locals'][1]['name'])
        adt = [a for a in P.adts if a.split('::')[-1] == 'SaxDecoder'][0]
        fs = P.adts[adt]['variants'][0]['fields']
        self.fields = {}
        for i, f in enumerate(fs):
            ty = f['ty']
            if ty == 'usize':
                self.fields['pos'] = (i, f['name'])
            elif 'Vec<char>' in ty:
                self.fields['text'] = (i, f['name'])
            elif 'String' in ty:
                self.fields['pending'] = (i, f['name'])
        for k in ('pos', 'text', 'pending'):
            if k not in self.fields:
                raise AnalysisError('SaxDecoder has no %s field of the expected type' % k)
        self.text = self.old('text')
        self.pos0 = self.old('pos')
        self.len = mirai.sym('len', self.text, nonneg=True)
        # a text that contains NUL, the tokenizer's end marker, is refused when the tokenizer is made
        if all(self.no_nul(o) for o, _ in self.sources()):
            nul = lambda o: any(s[:2] == ('y', 'elem') and s[2] == self.text and v == 0 and not isinstance(v, bool)
                                for s, v in o.st.known.items())
            self.rets = [o for o in self.rets if not nul(o)]
            self.I.outs = [o for o in self.I.outs if not nul(o)]

    def sources(self):
        """[(path of SaxDecoder::new that succeeds, the text it stores)]"""
        if not hasattr(self, 'NI'):
            self.NI = Interp(self.P)
            self.nrets = self.NI.run('SaxDecoder::new')
        out = []
        for o in self.nrets:
            v = self.NI.norm(o.st, o.val)
            if is_ok(v):
                out.append((o, payload(v)[4][self.fields['text'][0]]))
        return out

    def no_nul(self, o):
        for s, v in o.st.known.items():
            if v is False and s[:3] == ('y', 'str', 'contains') and s[3][-1] in (('i', 0, ()), ('s', chr(0))):
                return True
        return False

    def old(self, which):
        i, n = self.fields[which]
        return ('y', 'fld', self.me, i, n)

    def new(self, st, which):
        i, n = self.fields[which]
        return st.nl(self.I.norm(st, self.I.field(st, self.me, i, n))) if which == 'pos' else \
            self.I.norm(st, self.I.field(st, self.me, i, n))

    def chars(self, st):
        """{position term: (known code or None, excluded codes)}"""
        out = {}
        for s, v in st.known.items():
            if s[0] == 'y' and s[1] == 'elem' and s[2] == self.text and isinstance(v, int) and not isinstance(v, bool):
                out[st.nl(s[3])] = (v, frozenset())
        for s, v in st.excl.items():
            if s[0] == 'y' and s[1] == 'elem' and s[2] == self.text:
                k = st.nl(s[3])
                a = out.get(k, (None, frozenset()))
                out[k] = (a[0], a[1] | v)
        return out

    def at(self, st, i):
        """what is known about the character at position i: (code or None, excluded)"""
        return self.chars(st).get(st.nl(i), (None, frozenset()))

    def pending_first(self, o):
        """the path on which the end tag of an empty-element tag is delivered"""
        p = self.old('pending')
        return o.st.known.get(p) != ('s', '') and ('s', '') in o.st.excl.get(p, ())

    def first_char(self, o):
        return self.at(o.st, self.pos0)


class DocRun:
    """every path through new_document, raw_token left opaque"""

    def __init__(self, P, leaves=()):
        self.P = P
        self.fn = P.find('dom::new_document')
        self.tok = P.find('SaxDecoder::raw_token')
        self.I = Interp(P, budget=600000, leaves={self.tok} | set(leaves))
        self.rets = self.I.run(self.fn)
        self.backs = [o for o in self.I.outs if o.kind == 'back']

    def calls(self, o):
        return [e for e in o.st.events() if e[0] == 'call' and e[1] == self.tok]

    def token(self, o):
        """(result variant, token variant) of the last token read on this path"""
        cs = self.calls(o)
        if not cs:
            return None
        r = cs[-1][3]
        return self.variant(o.st, r)

    def variant(self, st, r):
        v = st.known.get(r)
        ex = st.excl.get(r, frozenset())
        if v is None and 'Err' in ex:
            v = 'Ok'
        if v is None and 'Ok' in ex:
            v = 'Err'
        if v != 'Ok':
            return (v, None, None)
        t = ('y', 'vf', r, 'Ok', 0)
        k = st.known.get(t)
        adt = [a for a in self.P.adts if a.split('::')[-1] == TOKEN][0]
        if k is None:
            left = [x for x in self.P.variants[adt] if x not in st.excl.get(t, ())]
            if len(left) == 1:
                k = left[0]
            else:
                return ('Ok', tuple(left), t)
        return ('Ok', k, t)
