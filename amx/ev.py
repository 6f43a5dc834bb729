"""Shared by the rules about evaluation: the evaluator explored one node kind at a time, an evaluation of a part of the
expression being a term over (context, part, environment).  That evaluating a part leaves the environment as it was is
assumed here and shown by the same rules (for every return that is not an error, the environment is the one given)."""
from .lib import *
from . import mirai
from .fold import Folds, subst

LEFT, RIGHT, NAME = 'left', 'right', 'name'


class Ev:
    def __init__(self, P):
        self.P = P
        self.ev = P.find('evaluate_xnode')
        f = P.fns[self.ev]
        if f['argc'] != 3:
            raise AnalysisError('evaluate_xnode no longer has three arguments')
        names = [f['locals'][i + 1]['name'] for i in range(3)]
        self.ctx, self.x, self.env = [('y', 'arg', i, n) for i, n in enumerate(names)]
        xn = [a for a in P.adts if a.endswith('parser::XNode')]
        xp = [a for a in P.adts if a.endswith('parser::XNodePtr')]
        if not xn or not xp:
            raise AnalysisError('no parser::XNode')
        self.fields = {g['name']: i for i, g in enumerate(P.adts[xn[0]]['variants'][0]['fields'])}
        self.ptrfield = P.adts[xp[0]]['variants'][0]['fields'][0]['name']
        kt = [a for a in P.adts if a.endswith('parser::XNodeType')]
        self.kinds = [v['name'] for v in P.adts[kt[0]]['variants']]
        self.entered = set()
        self.obl = {}

    # ---- terms ------------------------------------------------------------------------------------------------------
    def fld(self, x, name):
        return ('y', 'fld', ('y', 'fld', x, 0, self.ptrfield), self.fields[name], name)

    def kid(self, x, *side):
        for s in side:
            x = ('y', 'vf', self.fld(x, s), 'Some', 0)
        return x

    def result(self, x, ctx=None, env=None):
        """the term of the evaluation of part x"""
        return ('y', 'call', self.ev, (ctx or self.ctx, x, env or self.env))

    def value(self, x, ctx=None, env=None):
        return ('y', 'vf', self.result(x, ctx, env), 'Ok', 0)

    # ---- running ----------------------------------------------------------------------------------------------------
    def state(self, shape, st=None):
        """a state in which the node has the given shape: (kind, {side: shape or None for any non-nil})"""
        st = st or mirai.State()

        def put(x, sh):
            kind, kids = sh
            if kind is not None:
                st.known[self.fld(x, 'n_type')] = kind
            else:
                st.excl[self.fld(x, 'n_type')] = frozenset(['Nil'])
            for side, k in kids.items():
                st.known[self.fld(x, side)] = 'Some'
                put(self.kid(x, side), k if k is not None else (None, {}))
        put(self.x, shape)
        return st

    def envs(self):
        """the functions that are given the environment for writing (other than its own methods): function -> position"""
        out = {}
        for p, f in self.P.fns.items():
            if f.get('std') or f['kind'] != 'fn' or '::EvalEnv::' in p:
                continue
            for i in range(f['argc']):
                ty = f['locals'][i + 1]['ty']
                if ty.startswith('&') and 'mut ' in ty and ty.endswith('EvalEnv'):
                    out[p] = i
        return out

    def opaque(self, path):
        """a call that is not entered; it leaves the environment as it was"""
        f = self.P.fns[path]
        rty = f['locals'][0]['ty']

        def m(I_, st, a, fr, site, t, dty, g):
            args = []
            for i, x in enumerate(a):
                ty = f['locals'][i + 1]['ty'] if i < f['argc'] else ''
                if ty.startswith('&') and 'mut ' in ty:
                    x = I_.norm(st, st.mem.get(('S', x), x) if x[0] == 'y' else x)
                else:
                    x = I_.own(st, x)
                args.append(x)
            v = mirai.sym('call', path, tuple(args), ty=rty)
            st.add(('call', path, v[3], v, self.P.short(t.get('sp')), fr.fn['path']))
            return [(st, v)]
        return m

    def run(self, shape, leaves=(), budget=400000, fn=None, args=None, models=None, paths=3000, opaque=(), st=None, exact=False,
            one_way=None, reenter=()):
        L = set()
        for x in leaves:
            try:
                L.add(self.P.find(x))
            except AnalysisError:
                pass
        m = {self.ev: self.opaque(self.ev)}
        for f in opaque:
            m[f] = self.opaque(f)
        m.update(models or {})
        I_ = Interp(self.P, leaves=L, models=m, budget=budget)
        I_.max_paths = paths
        I_.exact_saturating = exact
        I_.one_way = one_way
        I_.reenter = reenter
        if one_way:
            I_.one_way_place = lambda s, v: self.fld(v, 'n_type') in s.known or v[0] == 'A' and v[1].endswith('parser::XNodePtr')
        I_.entry = fn or self.ev
        I_.rets = I_.run(fn or self.ev, args, st=self.state(shape, st) if shape else st)
        I_.backs = [o for o in I_.outs if o.kind == 'back']
        self.entered |= I_.entered
        for k, v in I_.obl.items():
            self.obl[k] = v
        return I_

    # ---- environments -----------------------------------------------------------------------------------------------
    def envfields(self):
        a = [a for a in self.P.adts if a.endswith('eval::EvalEnv')]
        if not a:
            raise AnalysisError('no struct eval::EvalEnv')
        return [f['name'] for f in self.P.adts[a[0]]['variants'][0]['fields']]

    def envget(self, e, i, name):
        """a field of an environment term"""
        if e[0] == 'U':
            d = dict(e[2])
            return d[i] if i in d else self.envget(e[1], i, name)
        if e[0] == 'A':
            return e[4][i]
        return ('y', 'fld', e, i, name)

    def same_env(self, I_, st, now, fields=None):
        """None, or the first field of the environment that differs from the one given"""
        for i, n in enumerate(self.envfields()):
            if fields is not None and n not in fields:
                continue
            x = I_.norm(st, self.envget(now, i, n))
            if x != ('y', 'fld', self.env, i, n):
                return '%s is %s' % (n, pp(x)[:200])
        return None

    def lookup(self, env, name, distinct=()):
        """what a reference to the variable `name` gives in the environment: the run of the evaluator for it"""
        x = ('y', 'varref')
        st = mirai.State()
        st.known[self.fld(x, 'n_type')] = 'VarRef'
        nm = self.fld(x, 'name')
        for d in distinct:
            st.eqs[('eqv',) + tuple(sorted((nm, d), key=repr))] = False
        if name is not None:
            env = mirai_subst(env, name, nm)
        I_ = self.run(None, ('xmlerror',), args=[None, x, env], st=st)
        return I_, nm

    def entries(self):
        """(field of the environment, field of the name, field of the value) when a reference gives the value of the first
        entry of its name"""
        if not hasattr(self, 'entries_'):
            self.entries_ = None
            if self.others(self.env, self.env, ()) is None:
                I_, nm = self.lookup(self.env, None)
                got = set()
                for o in I_.rets:
                    v = I_.norm(o.st, o.val)
                    if v[0] == 'A' and v[3] == 'Ok' and v[4][0][:2] == ('y', 'fld') and v[4][0][2][:2] == ('y', 'elem'):
                        el = v[4][0][2]
                        for e, b in o.st.eqs.items():
                            if e[0] == 'eqv' and b is True:
                                for x in e[1:]:
                                    if x[:2] == ('y', 'fld') and x[2] == el:
                                        got.add((el[2][3], x[3], v[4][0][3]))
                if len(got) == 1:
                    self.entries_ = got.pop()
        return self.entries_

    def pushed(self, env, base, name, value):
        """is the environment the base with one more entry in front?"""
        e = self.entries()
        if e is None or env[0] != 'U' or env[1] != base or [i for i, v in env[2] if i == e[0]] != [e[0]]:
            return False
        v = dict(env[2])[e[0]]
        b = ('y', 'fld', base, e[0], self.envfields()[e[0]])
        if v[:2] != ('y', 'insert') or v[2] != b or v[3] != I(0) or v[4][0] != 'A':
            return False
        return v[4][4][e[1]] == name and v[4][4][e[2]] == value

    def binds(self, env, name, value):
        """None when a reference to the variable gives the value"""
        if self.pushed(env, self.env, name, value):
            return None
        I_, nm = self.lookup(env, name)
        want = mirai_subst(value, name, nm)
        for o in I_.rets:
            v = I_.norm(o.st, o.val)
            p = v[4][0] if v[0] == 'A' and v[1] == RES and v[3] == 'Ok' else ('y', 'vf', v, 'Ok', 0)
            if p != I_.norm(o.st, want):
                return '$name is %s and not %s' % (pp(v)[:200], pp(want)[:200])
        return None if I_.rets else 'a reference to the variable never returns'

    def others(self, env, base, names):
        """None when a reference to any other variable gives what it gives in the environment `base`: the first entry of that name"""
        if env != base and len(names) == 1 and env[0] == 'U' and self.entries() is not None:
            v = dict(env[2]).get(self.entries()[0])
            if v is not None and v[:2] == ('y', 'insert') and v[4][0] == 'A' and \
                    self.pushed(env, base, names[0], v[4][4][self.entries()[2]]):
                return None
        I_, nm = self.lookup(env, None, names)
        fs = self.envfields()
        vec = [('y', 'fld', base, i, n) for i, n in enumerate(fs)]
        good = 0
        starts = set()
        for o in I_.backs:
            for e, v in o.st.eqs.items():
                if e[0] == 'eqv' and v is False:
                    for s in (1, 2):
                        if e[s] == nm:
                            t = e[3 - s]
                            if t[:2] == ('y', 'fld') and t[2][:2] == ('y', 'elem') and t[2][2] in vec:
                                starts.add(o.info[2])
        for o in I_.rets:
            v = I_.norm(o.st, o.val)
            if v[0] == 'A' and v[3] == 'Err':
                continue
            t = v[4][0] if v[0] == 'A' else v
            if not (t[:2] == ('y', 'fld') and t[2][:2] == ('y', 'elem') and t[2][2] in vec):
                return 'another variable is %s' % pp(v)[:200]
            el = t[2]
            if not any(e[0] == 'eqv' and b is True and nm in e[1:] and any(s[:2] == ('y', 'fld') and s[2] == el for s in e[1:])
                       for e, b in o.st.eqs.items()):
                return 'another variable is an entry whose name has not been compared: %s' % pp(v)[:200]
            good += 1
        if not good:
            return 'no other variable can be seen'
        if not starts:
            return 'the entries before the one taken have not been compared'
        for k in starts:
            b = [o for o in I_.backs if o.info[2] == k][0]
            it = Folds(I_).iteration(b, k)
            if it is None or it[1] != I(0) and not (isint(it[1]) and it[1][1] == len(names)):
                return 'the search does not start with the innermost entry'
        return None


def mirai_subst(t, a, b):
    from .fold import subst
    return subst(t, lambda x: b if x == a else None) if a is not None else t
