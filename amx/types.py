"""Sequence types: what the evaluator makes of `instance of`, read off one form of type at a time.  The verdicts that the evaluator
takes from elsewhere (a member of an array against the type of the members, a node against a kind test) are collected from each
path, so that the result can be compared with them."""
from .nodes import *

OCC = {'': (1, 1), '?': (0, 1), '*': (0, None), '+': (1, None)}
NAMES = ('xs:string', 'xs:integer', 'xs:decimal', 'xs:double', 'xs:numeric', 'xs:boolean', 'xs:anyAtomicType', 'xs:anyURI',
         'xs:untypedAtomic')
ATOMIC = {'XIString': ('xs:string',), 'XIInteger': ('xs:integer', 'xs:decimal', 'xs:numeric'), 'XIDecimal': ('xs:decimal', 'xs:numeric'),
          'XIDouble': ('xs:double', 'xs:numeric'), 'XIBoolean': ('xs:boolean',)}
FUNCTION = ('InlineFunction', 'NamedFunctionRef', 'PartialFunctionCall')
OTHER = None                # a type name that is none of the above


def is_a(kind, name):
    """is an atomic value of this kind of the type with this name (None for a name that is no type we know)"""
    return kind in ATOMIC and (name in ATOMIC[kind] or name == 'xs:anyAtomicType')


class Types:
    def __init__(self, P, V, N):
        self.P, self.V, self.N = P, V, N
        self.T = V.kid(V.x, RIGHT)
        self.matchers, self.kindtests = [], []
        for f, fn in P.fns.items():
            if fn.get('std') or fn['kind'] != 'fn' or fn['argc'] != 2:
                continue
            a, b = [fn['locals'][i + 1]['ty'] for i in range(2)]
            ret = fn['locals'][0]['ty']
            if not (a.startswith('&') and b.startswith('&') and b.endswith('XNodePtr')):
                continue
            if a.endswith('XSequence') and 'Result<bool' in ret:
                self.matchers.append(f)
            if a.endswith('::NodePtr') and ret == 'bool':
                self.kindtests.append(f)
        self.adt = {k: [a for a in P.adts if a.endswith('xitem::' + k)][0] for k in ('XSeqArray', 'XSeqMap')}

    def array(self, *members):
        a = self.adt['XSeqArray']
        return N_item(self.N, 'XIArray', ('A', a, 0, self.P.adts[a]['variants'][0]['name'], (('R', tuple(members)),)))

    def map(self, *entries):
        a = self.adt['XSeqMap']
        return N_item(self.N, 'XIMap', ('A', a, 0, self.P.adts[a]['variants'][0]['name'],
                                        (('R', tuple(('T', e) for e in entries)),)))

    def models(self, value, top):
        """a matcher that is given another type than the one in question gives a verdict; so do the tests of a node"""
        V = self.V

        def deeper(f):
            op = V.opaque(f)

            def m(I_, st, a, fr, site, t, dty, g):
                x = I_.norm(st, a[1])
                return None if x in top else op(I_, st, a, fr, site, t, dty, g)
            return m

        def left(I_, st, a, fr, site, t, dty, g):
            x = I_.norm(st, a[1])
            if x != V.kid(V.x, LEFT):
                raise AnalysisError('evaluates %s' % short(x))
            return [(st, mirai.ok(value))]
        ms = {f: deeper(f) for f in self.matchers}
        ms.update({f: V.opaque(f) for f in self.kindtests})
        ms[V.ev] = left
        return ms

    def run(self, value, kind, occ='', shape=None, names=None, op='OperatorInstanceOf', wrap=0, st=None, one_way=True, more=None):
        """the evaluator on `value instance of TYPE`; names: side path below the item type -> type name (None: another one)"""
        V = self.V
        sh = (kind, shape or {})
        top = [self.T]
        x = V.kid(self.T, LEFT)
        for i in range(wrap):
            sh = ('ParenthesizedItemType', {LEFT: sh})
            top.append(x)
            x = V.kid(x, LEFT)
        top.append(x)
        st = st or mirai.State()
        st.known[V.fld(self.T, NAME)] = S(occ)
        for path, n in (names or {}).items():
            t = V.fld(V.kid(x, *path) if path else x, NAME)
            st.known[t] = S('xs:another-type' if n is OTHER else n)
        I_ = V.run((op, {LEFT: None, RIGHT: ('SequenceType', {LEFT: sh})}), ('xmlerror',), models=dict(self.models(value, top), **(more or {})),
                   st=st,
                   one_way=(lambda f: True) if one_way else None)
        return I_, x

    def verdicts(self, q):
        """what the path has been told of other values: (value, type node) -> True, False, 'Err' or None"""
        out = {}
        for e in q.st.events():
            if e[0] == 'call' and e[1] in self.matchers + self.kindtests:
                r = q.norm(e[3])
                if e[1] in self.kindtests:
                    v = q.known(r)
                else:
                    v = q.known(r)
                    v = 'Err' if v == 'Err' else q.known(('y', 'vf', r, 'Ok', 0)) if v == 'Ok' else None
                out[tuple(q.norm(x) for x in e[2])] = v
        return out


def N_item(N, kind, *vals):
    return ('A', N.xi, N.kinds.index(kind), kind, tuple(vals))


def S(s):
    return ('s', s)


def answer(q, L, g):
    """the boolean that the path answers: True, False, 'Err', or the term"""
    if g[0] == 'err':
        return 'Err'
    if g[0] != 'ok':
        return short(q.val)
    ps = L.parts(q.st, L.of(g[1]))
    if len(ps) != 1 or ps[0][0] != 'e':
        return short(q.val)
    x = q.norm(ps[0][1])
    if x[0] != 'A' or x[3] != 'XIBoolean':
        return short(q.val)
    b = q.norm(x[4][0])
    if b[0] == 'b':
        return b[1]
    k = q.known(b) if b[0] == 'y' else q.st.ev(b[1]) if b[0] == 'p' else None
    return k if k is not None else short(b)
