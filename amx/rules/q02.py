"""Abstract interpretation of every function that evaluation reaches, from an unknown state: each place where it could panic (indices,
unwraps, slices, arithmetic, divisions, explicit panics) is an obligation.  What a function does not discharge on its own must be
discharged in every function that calls it, and where it is called through the table of the library, for every name and number of
arguments in it.  Parts of the expression that the parser always puts there (the ones Q03 to Q08 decide) may be relied on; which
of them are is looked up in a list."""
import multiprocessing
import re
from ..lib import *
from ..types import *
from ..data.functions import FUNCTIONS
from ..data.trees import ALWAYS

MISSING = 'nothing to evaluate'

MUTVEC = re.compile(r"^&(?:'\w+ )?mut std::vec::Vec<")


def run(ctx):
    P = ctx.P
    E = Panics(ctx, P)
    ctx.rule('no panic obligation of a function that evaluation reaches is left over in any of its calling contexts')
    n = E.decide()
    ctx.floor('functions', n, 180)
    ctx.floor('panic obligations', E.seen(), 80)
    ctx.floor('settled by the callers', len(E.lifted), 20)
    ctx.rule('what is evaluated is there')
    ctx.saw(*E.entered)


def kind_of(x):
    return ('y', 'fld', ('y', 'fld', x, 0, 'xnode_ptr'), 0, 'n_type')


CHECKED = ['std::ops::%s::%s' % (x, x.lower()) for x in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg')] + \
    ['core::num::<impl %s>::%s' % (ty, x) for ty in mirai.INT_TYS for x in ('wrapping_rem', 'wrapping_div', 'abs', 'pow', 'rem_euclid', 'div_euclid')] + \
    ['core::slice::<impl [T]>::' + x for x in ('swap', 'split_at', 'copy_from_slice')] + ['core::str::<impl str>::split_at'] + \
    ['std::vec::Vec::<T, A>::' + x for x in ('swap_remove', 'split_off')] + ['std::string::String::' + x for x in ('insert', 'insert_str', 'remove', 'split_off')]


def checked(old, op):
    """a function of the standard library that panics for some arguments"""
    def model(I, st, args, fr, site, t, dty, g):
        ty = (g.get('gen') or [''])[0].lstrip('&')
        if '<impl ' in g['decl'] and g['decl'].startswith('core::num'):
            ty = g['decl'].split('<impl ')[1].split('>')[0]
        lo, hi = mirai.INT_TYS.get(ty, (None, None))
        if lo is None and ('ops::' in g['decl']):
            return old(I, st, args, fr, site, t, dty, g) if old else None
        ok = False
        xs = [I.num(st, a) for a in args[:2]] if lo is not None else []
        if op in ('add', 'sub', 'mul'):
            ok = I.no_overflow(st, op.capitalize(), xs[0], xs[1], ty)
        elif op in ('neg', 'abs'):
            ok = st.ent_le(mirai.lsub(mirai.I(lo + 1), st.nl(xs[0])))
        elif op != 'pow' and lo is not None:
            equal = lambda n: st.ev(I.int_eq(st.nl(xs[1]), mirai.I(n)))
            ok = equal(0) is False and (lo == 0 or op.startswith('wrapping') or equal(-1) is False or st.ent_le(mirai.lsub(mirai.I(lo + 1), st.nl(xs[0]))))
        elif op == 'swap':
            n = I.length(st, I.norm(st, args[0]))
            ok = all(st.ent_le(mirai.ladd(mirai.lsub(I.num(st, a), n), mirai.I(1))) for a in args[1:3])
        I.oblige(fr, t, 'call of ' + op, ok is True, tuple(I.norm(st, a) for a in args))
        return old(I, st, args, fr, site, t, dty, g) if old else None
    return model


def work(f):
    return WORK(f)


class Panics:
    def __init__(self, ctx, P, ends=('::eval_xpath', '::get_nodeset', '::each_node', '::get_first_node')):
        self.ctx, self.P = ctx, P
        self.fns = {f['path']: f for f in P.live_fns() if f['kind'] in ('fn', 'closure') and not f['derived'] and not f.get('std')}
        roots = [g for g in self.fns if g.endswith(ends)]
        if len(roots) < len(ends):
            raise AnalysisError('entry points of XPath missing: %s' % roots)
        reach = P.reachable(roots) | set(roots)
        parsing = lambda q: any('Lexer' in l['ty'] for l in P.fns[q]['locals'][1:P.fns[q]['argc'] + 1])
        sp = lambda q: P.short(self.fns[q].get('sp') or '')
        self.todo = sorted(q for q in reach if q in self.fns and not sp(q).startswith(('src/dom.rs', 'src/sax.rs')) and not parsing(q) and
                           not sp(q).endswith(('lexer.rs', 'parser.rs')))
        e = P.edges()
        self.rec = {f for f in self.fns if any(f in P.reachable([g]) for g in e[f])}
        size = {f: sum(1 for b in self.fns[f]['blocks'] if not b['c']) for f in self.fns}
        self.sets = [{f for f in self.fns if f not in self.rec and size[f] <= n} for n in (20, 8, 8, 8, 0, 60, 10 ** 6)]
        nodes = [f for f in self.fns if self.fns[f]['kind'] == 'fn' and any(self.is_node(f, i) for i in range(self.fns[f]['argc']))]
        self.sides = {f: f.split('_')[-1] for f in nodes if f.endswith(('::get_left', '::get_right'))}
        self.evals = {f: i for f in nodes if f in self.rec and self.fns[f]['argc'] > 2 for i in range(self.fns[f]['argc'])
                      if self.is_node(f, i) and 'Result<' in self.fns[f]['locals'][0]['ty'] and f.endswith('::evaluate_xnode')}
        self.size = size
        self.entered = set()
        self.cache = {}
        self.lifted = set()
        self.bad = {}
        self.all = {}
        self.callers = P.callers()
        self.eval = P.find('evaluate_function')
        self.table = self.listed()

    def near(self, f):
        """what f calls itself and gets a plain value from, and what its callees hand the lexer on to"""
        e = self.P.edges()
        ok = lambda g: g in self.fns and g not in self.rec and self.size[g] <= 60
        one = {g for g in e[f] if ok(g)}
        return {g for g in one if 'Result<' not in self.fns[g]['locals'][0]['ty'] or 'XNodePtr' in self.fns[g]['locals'][0]['ty']} | {h for g in one for h in e[g] if ok(h) and any('Lexer' in l['ty'] for l in self.fns[h]['locals'][1:self.fns[h]['argc'] + 1])}

    def is_node(self, f, i):
        return self.fns[f]['locals'][i + 1]['ty'].lstrip('&').split('::')[-1] == 'XNodePtr'

    def side(self, name):
        """a part of a node of the tree: there, if the grammar says so for that kind of node"""
        def model(I, st, args, fr, site, t, dty, g):
            x = ('y', 'call', '::get_' + name, (I.norm(st, args[0]),))
            if name in ALWAYS.get(st.known.get(kind_of(x[3][0])), ()) and kind_of(x) not in st.known:
                st.excl[kind_of(x)] = st.excl.get(kind_of(x), frozenset()) | {'Nil'}
            return [(st, x)]
        return model

    def evaluation(self, i):
        def model(I, st, args, fr, site, t, dty, g):
            x = kind_of(I.norm(st, args[i]))
            I.oblige(fr, t, MISSING, st.known.get(x, 'Nil') != 'Nil' or 'Nil' in st.excl.get(x, ()), x)
            return None
        return model

    def listed(self):
        """the functions in the tables of the library"""
        P = self.P
        out = set()
        todo = [self.eval] + sorted(P.const_refs(P.fns[self.eval]))
        for f in todo:
            if f in P.fns:
                out |= {x for x in P.fn_refs(P.fns[f]) if x in self.fns and self.fns[x]['kind'] == 'fn'}
        return out

    def seen(self):
        return len(self.all)

    def explore(self, f, chain, n, args=None):
        """the obligations of a run of f with the functions of the chain (and set n) entered; None if it took too long"""
        key = (f, chain, n, args)
        if key in self.cache:
            return self.cache[key]
        enter = self.sets[n] | set(chain)
        if n == 2:
            enter |= {g for c in (chain if f == self.eval else chain + (f,)) for g in self.near(c)}
        own = self.fns
        sides = self.sides
        I_ = Interp(self.P, leaf=lambda p: p in own and own[p]['kind'] == 'fn' and (p in sides or p not in enter), budget=120000,
                    models={p: self.side(x) for p, x in sides.items()})
        I_.models.update({p: self.evaluation(i) for p, i in self.evals.items() if p not in chain})
        I_.models.update({d: checked(I_.models.get(d), d.split('::')[-1]) for d in CHECKED})
        I_.max_paths = 2000
        I_.peel = n == 3
        st = mirai.State()
        fn = own[f]
        for i in range(fn['argc']):
            if args is None and MUTVEC.match(fn['locals'][i + 1]['ty']):
                a = mirai.sym('arg', i, fn['locals'][i + 1]['name'], ty=fn['locals'][i + 1]['ty'].lstrip('&'))
                st.mem[('S', a)] = ('V', mirai.sym('len', a, nonneg=True), None, a)
        if f in self.evals:
            x = kind_of(mirai.sym('arg', self.evals[f], fn['locals'][self.evals[f] + 1]['name']))
            st.excl[x] = frozenset(['Nil'])
        try:
            I_.run(f, list(args) if args is not None else None, st=st)
        except (mirai.Budget, RecursionError):
            self.cache[key] = None
            return None
        self.entered |= I_.entered
        self.cache[key] = I_.obl
        return I_.obl

    def excused(self, k, why):
        """the name of a function reference has its number of arguments behind a '#' (Q07)"""
        return k[1] == 'index' and why and why[0] == I(1) and why[1][:2] == ('y', 'len') and why[1][2][:2] == ('y', 'split') and \
            why[1][2][3] in (S('#'), I(ord('#'))) and why[1][2][2][:2] in (('y', 'fld'), ('y', 'call')) and 'name' in str(why[1][2][2][-1]) + str(why[1][2][2][2])

    def owned(self, k, f):
        return k[0] == f or k[0].startswith(f + '::{')

    def undischarged(self, f, chain=(), target=None, args=None):
        """the obligations of target (f itself) that no way of analysing f discharges"""
        target = target or f
        left = None
        good = set()
        for n in range(len(self.sets)):
            o = self.explore(f, chain, n, args)
            if o is None:
                continue
            left = {} if left is None else left
            for k, v in o.items():
                if self.owned(k, target):
                    self.all.setdefault(k, 0)
                    if not v[1] or self.excused(k, v[2]):
                        good.add(k)
                    else:
                        left.setdefault(k, v[2])
            if all(k in good for k in left) and (chain == () or left or n >= 3):
                break
        if left is not None:
            left = {k: why for k, why in left.items() if k not in good}
        if left is None:
            return {(target, 'analysis', ''): 'the analysis of %s takes too long' % f}
        return left

    def decide(self):
        todo = self.todo
        global WORK
        WORK = self.one
        with multiprocessing.get_context('fork').Pool(8) as pool:
            res = pool.map(work, todo, chunksize=1)
        said = set()
        for f, (bad, lifted, seen, entered) in zip(todo, res):
            self.lifted |= lifted
            self.all.update((k, 0) for k in seen)
            self.entered |= entered
            for k, why in bad:
                if k not in said:
                    said.add(k)
                    self.ctx.check(False, '%s: %s' % (k[0].split('::')[-1], k[1]), why, k[2])
            self.ctx.check(True, f.split('::')[-1] + ' does not panic', '')
        return len(self.todo)

    def one(self, f):
        self.bad, self.lifted, self.all, self.entered = {}, set(), {}, set()
        for k, why in sorted(self.undischarged(f).items()):
            if self.fns[f]['kind'] == 'closure':
                self.around(f, k, why)
            else:
                self.lift(f, k, why)
        return sorted(self.bad.items()), self.lifted, set(self.all), self.entered

    def given(self, f):
        """the functions that f hands functions to"""
        return tuple(sorted({t['f']['path'] for b in self.fns[f]['blocks'] for t in [b['t']] if t['k'] == 'call' and t['f'] and
                             t['f']['path'] in self.fns and t['f']['path'] not in self.rec and
                             any('{' in str(g) for g in t['f'].get('gen') or ())}))

    def around(self, f, k, why):
        """k, an obligation of a closure, is not discharged in the closure: it is to be where the closure is made and handed on"""
        p = f[:f.index('::{closure')]
        chain = (p,) + self.given(p)
        runs = [o for o in (self.explore(p, chain, n) for n in range(len(self.sets))) if o is not None and k in o]
        if any(not o[k][1] or self.excused(k, o[k][2]) for o in runs):
            self.lifted.add(k)
        elif runs:
            self.lift(p, k, runs[0][k][2], (p,) + chain[1:], 1, f)
        else:
            self.report(k, 'this can panic (%s)' % str(why)[:200])

    def lift(self, f, k, why, chain=(), depth=0, target=None):
        """k, an obligation of the innermost function of the chain, is not discharged in f"""
        chain = chain or (f,)
        target = target or chain[-1]
        cs = sorted({c for c in self.parents(f)})
        listed = f in self.table
        if not cs and not listed or depth > 4 or self.fns[f].get('reach'):
            self.report(k, 'this can panic when reached from %s (%s)' % (f.split('::')[-1], str(why)[:200]))
            return False
        ok = True
        for c in cs:
            if k in self.bad:
                return False
            if c in chain:
                self.report(k, 'this can panic when %s calls itself (%s)' % (c.split('::')[-1], str(why)[:200]))
                return False
            left = self.undischarged(c, chain + self.given(c), target)
            if k in left or (target, 'analysis', '') in left:
                left.setdefault(k, 'the analysis takes too long')
                if c in self.rec:
                    self.report(k, 'this can panic when called from %s (%s)' % (c.split('::')[-1], str(left[k])[:200]))
                    return False
                ok = self.lift(c, k, left[k], (c,) + chain + self.given(c), depth + 1, target) and ok
        if listed:
            for nm, ns in sorted(FUNCTIONS.items()):
                for m in (range(2, 6) if ns is None else ns):
                    if k in self.bad:
                        return False
                    left = self.undischarged(self.eval, chain, target, args=(S(nm), ('R', tuple(('y', 'arg', i, 'seq') for i in range(m))), ('y', 'context'), ('y', 'environment')))
                    if k in left or (target, 'analysis', '') in left:
                        left.setdefault(k, 'the analysis takes too long')
                        self.report(k, 'this can panic in a call of %s with %d arguments (%s)' % (nm, m, str(left[k])[:200]))
                        ok = False
        if ok:
            self.lifted.add(k)
        return ok

    def report(self, k, why):
        if k not in self.bad:
            self.bad[k] = why

    def parents(self, f):
        out = set()
        for c in self.callers.get(f, ()):
            while '::{closure' in c:
                c = c[:c.index('::{closure')]
            if c in self.todo:
                out.add(c)
        return out
