"""The serializer: every way through NodePtr::to_string, the texts read back as pieces."""
from .lib import *
from .fold import Folds, ITEM, charmap, show, subst

SPECIAL = frozenset('&<>"\'')
ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}


class SerRun:
    def __init__(self, P):
        self.P = P
        self.fn = P.find('NodePtr::to_string')
        self.I = Interp(P, budget=400000)
        self.rets = self.I.run(self.fn)
        self.F = Folds(self.I)
        self.me = ('y', 'arg', 0, P.fns[self.fn]['locals'][1]['name'])

    def node_types(self):
        adt = [a for a in self.P.adts if a.split('::')[-1] == 'NodeType'][0]
        return self.P.variants[adt]

    def type_of(self, o):
        """the node types possible on a path, and the node whose type was asked"""
        ts = set(self.node_types())
        node = None
        for s, v in list(o.st.known.items()):
            if isfield(s, 'node_type'):
                ts &= {v}
                node = s[2]
        for s, v in o.st.excl.items():
            if isfield(s, 'node_type'):
                ts -= set(v)
                node = s[2]
        return ts, node

    def escaped(self, o, t):
        """(source term, images) if t is a character-wise translation of a text"""
        return charmap(self.P, self.I, self.F, o.st, t, SPECIAL)


def isfield(s, name):
    return isinstance(s, tuple) and s[:2] == ('y', 'fld') and s[-1] == name


def field_of(t, name, node):
    return isfield(t, name) and t[2] == node
