"""Effect analysis over the resolved call graph of everything the public interface reaches: no call into a part of the
standard library that reads something other than its arguments (clock, environment, files, threads, random hash keys, hash
order, addresses), no mutable or interior-mutable static, no conversion of a pointer into a number; and nothing reached while
an expression is evaluated writes to the compiled expression."""
from ..lib import *

OUTSIDE = ('std::time', 'std::env', 'std::fs', 'std::net', 'std::process', 'std::thread', 'std::sync', 'std::os', 'std::io::stdin',
           'std::io::Read', 'std::random', 'core::random', 'std::arch', 'core::arch', 'std::hash::RandomState', 'std::hash::random',
           'std::collections::hash_map::RandomState', 'std::alloc', 'std::panic::catch', 'std::backtrace')
ORDERED = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain', 'into_iter', 'union',
           'intersection', 'difference', 'symmetric_difference', 'extract_if', 'next', 'capacity', 'hasher', 'raw_entry')
WRITES = ('borrow_mut', 'try_borrow_mut', 'replace', 'replace_with', 'swap', 'take', 'set', 'update', 'get_mut')


def run(ctx):
    P = ctx.P
    pubs = [p for p, f in P.fns.items() if f.get('reach') and f['kind'] == 'fn' and not f.get('std')]
    all_ = sorted(p for p in set(P.reachable(pubs)) | set(pubs) if p in P.fns and not P.fns[p].get('std'))
    ctx.rule('nothing but the arguments is read')
    ctx.rule('hash tables are only looked up, never gone through')
    ctx.rule('no address becomes a number')
    calls = casts = 0
    for p in all_:
        f = P.fns[p]
        short = p.split('::')[-1]
        bad = []
        check = lambda ok, key, msg, where=None: None if ok else bad.append((key, msg, where))
        for g, t in P.calls(f):
            if not g:
                continue
            calls += 1
            path, gen = g['path'], ' '.join(map(str, g.get('gen') or []))
            m = path.rsplit('::', 1)[-1]
            sp = P.short(t.get('sp'))
            bare = path.lstrip('<&').replace('mut ', '')
            check(not any(bare.startswith(o) for o in OUTSIDE), short + ' reads its arguments only', 'calls ' + path, sp)
            hashed = 'hash_map::' in path or 'hash_set::' in path or 'HashMap' in path or 'HashSet' in path or \
                (m in ORDERED and gen.split('<')[0].lstrip('&').replace('mut ', '').rsplit('::', 1)[-1] in ('HashMap', 'HashSet'))
            check(not (hashed and m in ORDERED), short + ' does not depend on hash order', 'goes through a hash table: %s' % path, sp)
            check(not ('new_pointer' in path or 'fmt::Pointer' in path or path.endswith(('Rc::<T, A>::as_ptr', '::addr', '::expose_provenance', '::expose_addr', 'Rc::<T, A>::strong_count', 'Rc::<T, A>::weak_count')) or
                           'strong_count' in m or 'weak_count' in m or m in ('size_of_val_raw',)),
                      short + ' does not depend on addresses', 'calls ' + path, sp)
        for b in f['blocks']:
            for s in b['s']:
                if s['k'] != '=':
                    continue
                rv = s['rv']
                if rv['k'] == 'cast':
                    casts += 1
                    check('Expose' not in rv['c'] and not ('Transmute' in rv['c'] and ptr(rv.get('from')) and rv.get('from') != '*const ()' and rv['ty'] in mirai.INT_TYS),
                              short + ' does not depend on addresses', 'a pointer becomes a number', P.short(s.get('sp')))
                txt = repr(rv)
                check("'tls'" not in txt and 'ThreadLocalRef' not in txt, short + ' has no state of its own', 'reads a thread-local', P.short(s.get('sp')))
        for b in bad:
            ctx.check(False, *b)
        ctx.check(not bad, short + ' depends on its arguments only', 'see above')
    ctx.rule('no static can carry state from one evaluation to the next')
    for s in P.raw.get('statics') or []:
        ty = str(s.get('ty'))
        ctx.check(not s.get('mut') and not any(x in ty for x in ('Cell', 'Atomic', 'Mutex', 'RwLock', 'Lock', '*mut')),
                  'static ' + str(s.get('path')), 'a static of type %s' % ty)
    ev = [p for p in P.fns if p.endswith('::evaluate_xnode')] or [P.find('eval_xpath')]
    ctx.rule('the compiled expression is not written while it is evaluated')
    nr = 0
    # functions that work on a Lexer build a new expression from a text
    parsing = lambda q: any('Lexer' in l['ty'] for l in P.fns[q]['locals'][1:P.fns[q]['argc'] + 1]) if q in P.fns else False
    seen, todo = set(), [e for e in ev if e in P.fns]
    while todo:
        q = todo.pop()
        if q not in seen and not parsing(q):
            seen.add(q)
            todo += [x if isinstance(x, str) else x[0] for x in P.edges().get(q, ())]
    for p in sorted(seen):
        f = P.fns.get(p)
        if f is None or f.get('std'):
            continue
        nr += 1
        for g, t in P.calls(f):
            if g and 'XNode' in str(g.get('gen')) + g['path'] and 'std::cell::' in g['path'] + str(g.get('gen')):
                m = g['path'].rsplit('::', 1)[-1]
                ctx.check(m not in WRITES and 'deref_mut' not in m, p.split('::')[-1] + ' leaves the expression alone',
                          'the compiled expression is written', P.short(t.get('sp')))
    ctx.saw(*all_)
    ctx.count('casts', casts)
    ctx.floor('functions', len(all_), 200)
    ctx.floor('call sites', calls, 3000)
    ctx.floor('functions reached in an evaluation', nr, 100)


def ptr(t):
    return bool(t) and str(t).startswith(('*', '&', 'std::rc::Rc', 'std::boxed::Box', 'std::ptr::NonNull', 'fn('))
