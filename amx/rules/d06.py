"""Effect analysis over the resolved call graph: from no function of the public interface other than the editing functions and
the parser can anything be reached that writes to a node (a list of nodes borrowed for writing, a cell of a node set, a
reference count unwrapped for writing, unsafe code).  Order numbers are a cache that only document_order reads (see D03)."""
from ..dom import *
from .d03 import EDITS

WRITES = ('replace', 'replace_with', 'swap', 'take', 'get_mut', 'as_ptr', 'update', 'set', 'into_inner')


def run(ctx):
    P = ctx.P
    E = P.edges()
    ctx.rule('no reading function reaches a write to a node')
    writers = {}
    calls = 0
    for p, f in P.fns.items():
        if f.get('std'):
            continue
        if f.get('unsafe'):
            writers.setdefault(p, []).append(('unsafe function', f.get('sp')))
        for g, t in P.calls(f):
            if not g:
                continue
            calls += 1
            gen = str(g.get('gen'))
            path, m = g['path'], g['path'].rsplit('::', 1)[-1]
            if not nodeish(gen + path):
                continue
            w = None
            if 'std::cell::RefMut' in path + gen and 'DerefMut' in path:
                w = 'a list of nodes is changed'
            elif ('std::cell::RefCell' in path or 'std::cell::Cell' in path or 'std::cell::UnsafeCell' in path) and m in WRITES:
                w = 'a cell of a node is written'
            elif path.startswith(('std::rc::Rc', 'std::sync::Arc')) and m in ('get_mut', 'make_mut', 'get_mut_unchecked', 'from_raw', 'into_raw'):
                w = 'a shared node is opened for writing'
            elif path.startswith(('std::ptr::', 'core::ptr::', 'std::mem::transmute', 'std::intrinsics')):
                w = 'raw memory access'
            if w:
                writers.setdefault(p, []).append((w, t.get('sp')))
    ctx.floor('functions that write', len(writers), 4)
    edits = {P.find('NodePtr::' + f) for f in EDITS}
    builders = {P.find('dom::new_document')}
    pubs = [p for p, f in P.fns.items() if f.get('reach') and f['kind'] == 'fn' and not f.get('std')]
    allowed = set()
    n = 0
    for p in sorted(pubs):
        if p in edits or p in builders:
            continue
        n += 1
        seen = {p} | set(P.reachable([p]))
        bad = sorted(q for q in seen if q in writers)
        for q in bad:
            w, sp = writers[q][0]
            ctx.check(False, '%s only reads' % p, 'from %s a function is reached in which %s (%s)' % (p, w, path_to(E, p, q)), P.short(sp))
        ctx.check(not bad, '%s only reads' % p, 'see above')
    ctx.floor('reading functions', n, 40)
    ctx.count('call sites examined', calls)
    ctx.saw(*[p for p in pubs])


def nodeish(s):
    return 'dom::Node' in s and not s.startswith("['i64'")


def path_to(E, a, b):
    prev, todo = {a: None}, [a]
    while todo:
        x = todo.pop(0)
        if x == b:
            break
        for y in E.get(x, ()):
            y = y if isinstance(y, str) else y[0]
            if y not in prev:
                prev[y] = x
                todo.append(y)
    out = []
    while b is not None:
        out.append(b.split('::')[-1])
        b = prev.get(b)
    return ' -> '.join(reversed(out))
