"""Builds the MIR fact extractor, runs it on /repo's current tree, loads the result."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AMX_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class AnalysisError(Exception):
    """the program could not be analysed (missing anchor, failed build)"""


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '-O', src, '-o', tmp], capture_output=True, text=True,
                           cwd=CACHE)
        if r.returncode:
            raise AnalysisError('the fact extractor does not build:\n' + r.stderr[-3000:])
        os.replace(tmp, out)
    return out


def extract(repo=None):
    repo = repo or REPO
    return extract_file(os.path.join(repo, 'src', 'lib.rs'), 'amxml')


def std_model():
    """the functions of stdmodel/lib.rs (cached: they do not depend on the analysed tree)"""
    src = os.path.join(VERIF, 'amx', 'stdmodel', 'lib.rs')
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(VERIF, 'driver', 'driver.rs'), 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'stdmodel-%s.json' % h)
    if not os.path.exists(out):
        d = extract_file(src, 'amxstdmodel')
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        json.dump(d, open(tmp, 'w'))
        os.replace(tmp, out)
        return d
    return json.load(open(out))


def extract_file(src, name):
    drv = driver()
    tmp = tempfile.mkdtemp(prefix='amx-facts-')
    atexit.register(shutil.rmtree, tmp, True)
    out = os.path.join(tmp, 'facts.json')
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    r = subprocess.run([drv, out, '--edition', '2015', '--crate-type', 'lib', '--crate-name', name, src, '-A', 'warnings', '-Zmir-opt-level=0',
                        '-C', 'debug-assertions=on', '-o', os.path.join(tmp, 'x.rlib')],
                       capture_output=True, text=True, env=env, cwd=tmp)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError('the crate does not compile:\n' + r.stderr[-3000:])
    d = json.load(open(out))
    shutil.rmtree(tmp, True)
    return d


BUILTIN_ADTS = {
    'std::option::Option': ['None', 'Some'],
    'std::result::Result': ['Ok', 'Err'],
    'std::ops::ControlFlow': ['Continue', 'Break'],
    'std::cmp::Ordering': ['Less', 'Equal', 'Greater'],
}
BUILTIN_DISC = {'std::cmp::Ordering': [-1, 0, 1]}


class Program:
    def __init__(self, d, repo=None):
        self.raw = d
        self.repo = repo or REPO
        self.fns = {}
        for f in d['fns']:
            self.fns[f['path']] = f
        for f in std_model()['fns']:
            if f['path'].startswith('amxstd::') and f['kind'] == 'fn':
                f['std'] = True
                f['reach'] = False
                self.fns[f['path']] = f
        self.adts = {a['path']: a for a in d['adts']}
        self.variants = {}     # adt -> [name]
        self.discs = {}        # adt -> [disc]
        self.nfields = {}      # (adt, vi) -> n
        for a in d['adts']:
            self.variants[a['path']] = [v['name'] for v in a['variants']]
            ds = []
            for v in a['variants']:
                try:
                    ds.append(int(v['disc']))
                except Exception:
                    ds.append(len(ds))
            self.discs[a['path']] = ds
            for i, v in enumerate(a['variants']):
                self.nfields[(a['path'], i)] = len(v['fields'])
        for k, v in BUILTIN_ADTS.items():
            self.variants[k] = v
            self.discs[k] = BUILTIN_DISC.get(k, list(range(len(v))))
        for k, n in (('std::option::Option', [0, 1]), ('std::result::Result', [1, 1]),
                     ('std::ops::ControlFlow', [1, 1]), ('std::cmp::Ordering', [0, 0, 0])):
            for i, x in enumerate(n):
                self.nfields[(k, i)] = x
        self.impls = d['impls']

    # ---- lookup -----------------------------------------------------
    def find(self, suffix, optional=False):
        """the function whose path is, or ends with ::, suffix"""
        if suffix in self.fns:
            return suffix
        c = [p for p in self.fns if p.endswith('::' + suffix)]
        if len(c) == 1:
            return c[0]
        if optional:
            return None
        raise AnalysisError('anchor %r matches %d functions: %s' % (suffix, len(c), c[:4]))

    def fn(self, suffix):
        return self.fns[self.find(suffix)]

    def live_fns(self):
        return [f for f in self.raw['fns'] if f['kind'] in ('fn', 'closure')]

    def short(self, sp):
        if sp and sp.startswith(self.repo):
            return sp[len(self.repo) + 1:]
        return sp

    # ---- call graph ---------------------------------------------------
    def calls(self, f):
        """[(callee dict or None, term)] of non-cleanup blocks"""
        out = []
        for b in f['blocks']:
            if b['c']:
                continue
            if b['t']['k'] == 'call':
                out.append((b['t']['f'], b['t']))
        return out

    def fn_refs(self, f):
        """function items and closures mentioned as values (not called directly)"""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if 'fn' in x and isinstance(x['fn'], dict) and 'path' in x['fn']:
                    out.add(x['fn']['path'])
                if x.get('a') == 'closure' and 'path' in x:
                    out.add(x['path'])
                for k, v in x.items():
                    if k not in ('f', 'fo'):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for b in f['blocks']:
            if not b['c']:
                walk(b)
        for p in f.get('proms', []):
            walk(p['blocks'])
        return out

    def const_refs(self, f):
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if 'item' in x and isinstance(x['item'], str):
                    out.add(x['item'])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f['blocks'])
        for p in f.get('proms', []):
            walk(p['blocks'])
        return out

    def edges(self):
        if hasattr(self, '_edges'):
            return self._edges
        e = {}
        for p, f in self.fns.items():
            s = set()
            for g, t in self.calls(f):
                if g:
                    s.add(g['path'])
                    for c in g.get('clos', []) or []:
                        s.add(c)
            s |= self.fn_refs(f)
            for c in self.const_refs(f):
                if c in self.fns and c != p:
                    s.add(c)
            # Display/Debug through format arguments and to_string
            for g, t in self.calls(f):
                if not g:
                    continue
                gp = g['path']
                tr = None
                if 'Argument' in gp and 'new_display' in gp:
                    tr = 'std::fmt::Display'
                elif 'Argument' in gp and 'new_debug' in gp:
                    tr = 'std::fmt::Debug'
                elif gp.endswith('ToString>::to_string'):
                    tr = 'std::fmt::Display'
                elif gp.endswith('Clone>::clone') or 'PartialEq' in gp:
                    tr = gp.split(' as ')[-1].split('>')[0] if ' as ' in gp else 'std::cmp::PartialEq'
                if tr:
                    blob = json.dumps(g.get('gen', []))
                    for q in self.fns:
                        if q.startswith('<') and (' as ' + tr) in q:
                            ty = q[1:].split(' as ')[0]
                            if ty in blob:
                                s.add(q)
            e[p] = {x for x in s if x in self.fns}
        self._edges = e
        return e

    def reachable(self, roots):
        e = self.edges()
        seen = set()
        st = [r for r in roots if r in self.fns]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(e.get(x, ()))
        return seen

    def callers(self):
        c = {}
        for p, s in self.edges().items():
            for q in s:
                c.setdefault(q, set()).add(p)
        return c


def load(repo=None):
    return Program(extract(repo), repo)


# ---- CFG helpers ---------------------------------------------------------
def succs(b):
    t = b['t']
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        return [x[1] for x in t['t']] + ([t['o']] if t['o'] is not None else [])
    if k in ('drop', 'assert'):
        return [t['t']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


def loop_info(f):
    """headers -> set of body blocks (natural loops; irreducible edges treated by DFS retreating edges)"""
    if '_loops' in f:
        return f['_loops']
    blocks = f['blocks']
    color = {}
    back = []
    order = []
    stack = [(0, iter(succs(blocks[0])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if color.get(m, 0) == 0:
                color[m] = 1
                stack.append((m, iter(succs(blocks[m]))))
                break
            elif color[m] == 1:
                back.append((n, m))
        else:
            color[n] = 2
            order.append(n)
            stack.pop()
    preds = {}
    for i in color:
        for s in succs(blocks[i]):
            preds.setdefault(s, set()).add(i)
    loops = {}
    for n, h in back:
        body = loops.setdefault(h, {h})
        st = [n]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(preds.get(x, ()))
    f['_loops'] = loops
    return loops
