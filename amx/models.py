"""What the analysis knows about functions of the standard library.

Each model gets the abstract arguments of one call and returns [(state, abstract result)], or None to fall back to
an opaque term.  They state the documented behaviour of the std functions in the term domain of mirai.py.
"""
import math
import re
import struct


def M():
    from . import mirai
    return mirai


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ---- transparent wrappers ---------------------------------------------------
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::string::String::as_str', 'std::boxed::Box::<T>::new',
       'std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::new',
       'std::hint::must_use', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
       'std::cell::Cell::<T>::new', 'std::vec::Vec::<T, A>::as_slice', 'std::string::String::into_boxed_str',
       'std::boxed::box_assume_init_into_vec_unsafe', 'std::str::<impl str>::to_owned', 'core::str::<impl str>::as_ref',
       'std::boxed::Box::<T, A>::assume_init', 'std::iter::Iterator::by_ref', 'std::iter::IntoIterator::into_iter_')
def m_id(I, st, a, fr, site, t, dty, g):
    v = a[0]
    if is_rc(g) and g['decl'] in ('std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow'):
        return [(st, rcptr(I, st, v))]
    if g and g['decl'] in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut') and v[0] == 'ref' and \
            ('std::cell::Ref' in g['path'] or (g.get('gen') or [''])[0].startswith('std::cell::Ref')):
        x = I.rd(st, v[1], v[2])           # the guard of a borrow stands for the reference it gives out
        if x[0] in ('ref', 'y'):
            return [(st, x)]
    if g and g['path'] == 'std::boxed::box_assume_init_into_vec_unsafe':
        m = M()
        v = I.deref(st, v)
        if v[0] == 'R':
            v = ('V', m.I(len(v[1])), v[1], None)
    return [(st, v)]


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::<impl [T]>::to_vec')
def m_clone(I, st, a, fr, site, t, dty, g):
    if is_rc(g):
        return [(st, rcptr(I, st, a[0]))]
    return [(st, I.deref(st, a[0]))]


def is_rc(g):
    return bool(g) and ('std::rc::Rc<' in g['path'] or (g.get('gen') or [''])[0].startswith('std::rc::Rc<'))


def rcptr(I, st, v):
    """the Rc behind references to it: a reference to its heap cell, or a symbol"""
    n = 0
    while v[0] == 'ref' and v[1][0] != 'H' and n < 20:
        v = I.rd(st, v[1], v[2])
        n += 1
    return v


@model('std::rc::Rc::<T>::new')
def m_rcnew(I, st, a, fr, site, t, dty, g):
    n = st.cnt.get(('heap', site), 0)
    st.cnt[('heap', site)] = n + 1
    cell = ('H', site, n)
    st.mem[cell] = a[0]
    return [(st, ('ref', cell, ()))]


@model('std::boxed::Box::<T>::new_uninit')
def m_uninit(I, st, a, fr, site, t, dty, g):
    return [(st, ('y', 'undef', site))]


@model('std::string::ToString::to_string', 'std::convert::From::from', 'std::convert::Into::into')
def m_from(I, st, a, fr, site, t, dty, g):
    m = M()
    v = I.norm(st, a[0])
    if g['decl'] == 'std::string::ToString::to_string':
        gen = (g.get('gen') or [''])[0]
        if gen in ('std::string::String', 'str', '&str', '&&str'):
            return [(st, v)]
        if gen == 'char':
            return [(st, cat([('ch', v)]))]
        if gen.lstrip('&') in m.INT_TYS or gen.lstrip('&') in ('f64', 'f32', 'bool'):
            return [(st, ('s', str(v[1])) if v[0] == 'i' and not v[2] else cat([('v', ('y', 'disp', gen.lstrip('&'), v))]))]
        # Display of a type of the crate: enter its fmt when asked to
        return [(st, cat([('v', v)]))]
    gen = g.get('gen') or []
    if gen and gen[0] == 'std::string::String' and len(gen) > 1 and gen[1] == 'char':
        return [(st, cat([('ch', v)]))]
    return [(st, a[0] if a[0][0] != 'ref' else v)]


# ---- strings ---------------------------------------------------------------
def pieces(v):
    if v[0] == 's':
        return [v] if v[1] else []
    if v[0] == 'cat':
        return list(v[1])
    if v[0] == 'i':
        if not v[2]:
            return [('s', str(v[1]))]
        return [('v', v)]
    return [('v', v)]


def cat(ps):
    out = []
    for p in ps:
        if p[0] == 'ch' and p[1][0] == 'i' and not p[1][2]:
            try:
                p = ('s', chr(p[1][1]))
            except ValueError:
                pass
        if p[0] == 'v' and p[1][0] in ('s', 'cat'):
            for q in pieces(p[1]):
                if q[0] == 's' and out and out[-1][0] == 's':
                    out[-1] = ('s', out[-1][1] + q[1])
                else:
                    out.append(q)
            continue
        if p[0] == 's':
            if not p[1]:
                continue
            if out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
                continue
        out.append(p)
    if not out:
        return ('s', '')
    if len(out) == 1 and out[0][0] == 's':
        return out[0]
    if len(out) == 1 and out[0][0] == 'v' and out[0][1][0] == 'y' and M().TYPES.get(out[0][1], '').replace('&', '') in ('std::string::String', 'str'):
        return out[0][1]
    return ('cat', tuple(out))


def place(I, st, r):
    """a reference to a guard or reference is a reference to what that refers to"""
    n = 0
    while r[0] == 'ref' and n < 20:
        w = I.rd(st, r[1], r[2])
        if w[0] != 'ref':
            if w[0] == 'y' and w[1] == 'guard':
                w = w[2]
            else:
                break
        r = w
        n += 1
    return r


def set_ref(I, st, r, v):
    r = place(I, st, r)
    if r[0] == 'ref':
        I.wr(st, r[1], r[2], v)
    elif r[0] == 'y':
        st.mem[('S', r)] = v


@model('std::string::String::new')
def m_snew(I, st, a, fr, site, t, dty, g):
    return [(st, ('s', ''))]


@model('std::string::String::push')
def m_spush(I, st, a, fr, site, t, dty, g):
    v = I.norm(st, a[0])
    set_ref(I, st, a[0], cat(pieces(v) + [('ch', I.norm(st, a[1]))]))
    return [(st, M().UNIT)]


@model('std::string::String::push_str', 'std::ops::AddAssign::add_assign')
def m_spushstr(I, st, a, fr, site, t, dty, g):
    v = I.norm(st, a[0])
    set_ref(I, st, a[0], cat(pieces(v) + pieces(I.norm(st, a[1]))))
    return [(st, M().UNIT)]


@model('std::ops::Add::add')
def m_sadd(I, st, a, fr, site, t, dty, g):
    if 'String' not in g['path']:
        return None
    return [(st, cat(pieces(I.norm(st, a[0])) + pieces(I.norm(st, a[1]))))]


@model('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug',
       'core::fmt::rt::Argument::<\'_>::new_lower_exp', 'core::fmt::rt::Argument::<\'_>::new_lower_hex')
def m_fa(I, st, a, fr, site, t, dty, g):
    kind = g['path'].rsplit('new_', 1)[1]
    ty = (g.get('gen') or [''])[0].lstrip('&')
    return [(st, ('y', 'fa', kind, ty, I.norm(st, a[0])))]


@model("std::fmt::Arguments::<'a>::from_str")
def m_fs(I, st, a, fr, site, t, dty, g):
    return [(st, I.norm(st, a[0]))]


def decode_template(bs):
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bytes(bs[i:i + b]).decode('utf8', 'replace')))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(('lit', bytes(bs[i:i + n]).decode('utf8', 'replace')))
            i += n
        else:
            fl = None
            if b & 1:
                i += 4
                fl = 1
            if b & 2:
                i += 2
                fl = 1
            if b & 4:
                i += 2
                fl = 1
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', nxt, fl))
            nxt += 1
    return out


@model("std::fmt::Arguments::<'a>::new")
def m_fn(I, st, a, fr, site, t, dty, g):
    tb = I.norm(st, a[0])
    ar = I.norm(st, a[1])
    if tb[0] == 's':
        bs = tb[1].encode()
    elif tb[0] == 'by':
        bs = bytes(tb[1])
    elif tb[0] == 'R':
        bs = bytes(x[1] for x in tb[1])
    else:
        return None
    args = list(ar[1]) if ar[0] == 'R' else []
    ps = []
    for e in decode_template(bs):
        if e[0] == 'lit':
            ps.append(('s', e[1]))
        else:
            x = args[e[1]] if e[1] < len(args) else ('y', 'fa', 'display', '?', ('y', 'noarg'))
            if x[0] == 'y' and x[1] == 'fa':
                kind, ty, v = x[2], x[3], x[4]
                if kind == 'display' and not e[2]:
                    if ty == 'char':
                        ps.append(('ch', v))
                    elif ty in ('std::string::String', 'str', '&str', '&&str'):
                        ps.extend(pieces(v))
                    elif v[0] == 'i' and not v[2]:
                        ps.append(('s', str(v[1])))
                    else:
                        ps.append(('v', ('y', 'disp', ty, v)))
                else:
                    ps.append(('v', ('y', 'fmt', kind, ty, v)))
            else:
                ps.append(('v', x))
    return [(st, cat(ps))]


@model('std::fmt::format')
def m_fmt(I, st, a, fr, site, t, dty, g):
    return [(st, I.norm(st, a[0]))]


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str")
def m_wf(I, st, a, fr, site, t, dty, g):
    m = M()
    st.add(('call', g['path'], (I.norm(st, a[1]),), m.UNIT, I.P.short(t.get('sp')), fr.fn['path']))
    return [(st, m.ok(m.UNIT))]


def fork_pred(I, st, p, vt, vf):
    r = st.ev(p)
    if r is True:
        return [(st, vt)]
    if r is False:
        return [(st, vf)]
    s2 = st.fork()
    out = []
    if s2.assume(p, True):
        out.append((s2, vt))
    if st.assume(p, False):
        out.append((st, vf))
    return out


# ---- equality / order ----------------------------------------------------------
def has_custom_eq(I, ty):
    ty = ty.lstrip('&').replace('mut ', '')
    for p in ('<%s as std::cmp::PartialEq>::eq' % ty,):
        f = I.P.fns.get(p)
        if f is not None and not f['derived']:
            return p
    return None


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(I, st, a, fr, site, t, dty, g):
    m = M()
    gen = (g.get('gen') or [''])[0]
    neg = g['decl'].endswith('::ne')
    c = has_custom_eq(I, gen)
    if c is not None:
        if c in I.leaves or (I.leaf and I.leaf(c)):
            p = m.to_pred(m.sym('call', c, tuple(sorted((I.norm(st, x) for x in a), key=repr)), ty='bool'))
            return [(st, m.from_pred(m.pnot(p) if neg else p))]
        if g['path'] == c:
            return None
        out = []
        for s2, v in I.do_call(c, c, None, a, st, fr, site, t, 'bool'):
            if neg:
                v = m.from_pred(m.pnot(m.to_pred(v)))
            out.append((s2, v))
        return out
    p = I.equal(st, a[0], a[1])
    adt = I.P.adts.get(gen.lstrip('&'))
    if p[0] == 'eqv' and adt and len(adt['variants']) > 1 and not any(v['fields'] for v in adt['variants']):
        p = I.variant_eq(st, p[1], p[2], None)
    if neg:
        p = m.pnot(p)
    return [(st, m.from_pred(p))]


@model('std::rc::Rc::<T, A>::ptr_eq')
def m_ptreq(I, st, a, fr, site, t, dty, g):
    m = M()
    x, y = sorted((ptrname(rcptr(I, st, a[0])), ptrname(rcptr(I, st, a[1]))), key=repr)
    if x == y:
        return [(st, m.TRUE)]
    if x[:2] == ('y', 'hp') and y[:2] == ('y', 'hp'):
        return [(st, m.FALSE)]
    return [(st, m.sym('ptreq', x, y, ty='bool'))]


def ptrname(v):
    if v[0] == 'ref' and v[1][0] == 'H':
        return ('y', 'hp') + v[1][1:]
    return v


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::ge')
def m_lt(I, st, a, fr, site, t, dty, g):
    m = M()
    op = g['decl'].rsplit('::', 1)[1]
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    if op in ('gt', 'ge'):
        x, y = y, x
    if x[0] == 's' and y[0] == 's':
        return [(st, ('b', x[1] < y[1] if op in ('lt', 'gt') else x[1] <= y[1]))]
    return [(st, m.sym('bin', 'Lt' if op in ('lt', 'gt') else 'Le', x, y, ty='bool'))]


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(I, st, a, fr, site, t, dty, g):
    m = M()
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    gen = (g.get('gen') or [''])[0].lstrip('&')
    part = g['decl'].endswith('partial_cmp')
    if part and gen not in m.INT_TYS:
        if gen in ('f64', 'f32'):
            return [(st, m.sym('partial_cmp', x, y, ty=m.OPT))]
        return [(st, m.some(m.sym('cmp', x, y, ty=m.ORD)))] if gen in ('str', 'std::string::String', 'bool', 'char') else None
    if gen in m.INT_TYS:
        out = []
        for nm, vi, p in (('Less', 0, m.le0(m.ladd(m.lsub(x, y), m.I(1)))), ('Equal', 1, I.int_eq(x, y)),
                          ('Greater', 2, m.le0(m.ladd(m.lsub(y, x), m.I(1))))):
            s2 = st.fork()
            if s2.assume(p, True):
                v = ('A', m.ORD, vi, nm, ())
                out.append((s2, m.some(v) if part else v))
        return out
    return [(st, m.sym('cmp', x, y, ty=m.ORD))]


@model('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max')
def m_min(I, st, a, fr, site, t, dty, g):
    m = M()
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    if g['decl'].endswith('max'):
        return fork_pred(I, st, m.le0(m.lsub(x, y)), y, x)
    return fork_pred(I, st, m.le0(m.lsub(x, y)), x, y)


def m_usub(I, st, a, fr, site, t, dty, g):
    m = M()
    x, y = I.num(st, a[0]), I.num(st, a[1])
    return fork_pred(I, st, m.le0(m.lsub(x, y)), m.I(0), m.lsub(x, y))


for _n in ('usize', 'u64', 'u32', 'u16', 'u8'):
    MODELS['core::num::<impl %s>::saturating_sub' % _n] = m_usub


# ---- Option / Result -----------------------------------------------------------
def split_adt(I, st, v, adt):
    """[(state, variant name, payload or None)]"""
    m = M()
    v = I.deref(st, v)
    v0 = v
    if v[0] == 'A':
        return [(st, v[3], v[4][0] if v[4] else None)]
    out = []
    if v[0] == 'y' and isinstance(st.known.get(v), tuple) and st.known[v][0] == 'A':
        v = st.known[v]
        return [(st, v[3], v[4][0] if v[4] else None)]
    for nm in I.P.variants[adt]:
        s2 = st.fork()
        if s2.assume(('var', v0, nm), True):
            out.append((s2, nm, m.sym('vf', v0, nm, 0) if nm != 'None' else None))
    return out


@model('std::ops::Try::branch')
def m_branch(I, st, a, fr, site, t, dty, g):
    m = M()
    adt = m.OPT if 'Option' in g['path'] else m.RES
    out = []
    for s2, nm, pay in split_adt(I, st, a[0], adt):
        if nm in ('Ok', 'Some'):
            out.append((s2, ('A', m.CF, 0, 'Continue', (pay,))))
        elif nm == 'Err':
            out.append((s2, ('A', m.CF, 1, 'Break', (m.err(pay),))))
        else:
            out.append((s2, ('A', m.CF, 1, 'Break', (m.NONE,))))
    return out


@model('std::ops::FromResidual::from_residual')
def m_fromres(I, st, a, fr, site, t, dty, g):
    return [(st, a[0])]


@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect', 'std::result::Result::<T, E>::unwrap',
       'std::result::Result::<T, E>::expect')
def m_unwrap(I, st, a, fr, site, t, dty, g):
    m = M()
    adt = m.OPT if 'Option' in g['path'] else m.RES
    out = []
    for s2, nm, pay in split_adt(I, st, a[0], adt):
        if nm in ('Ok', 'Some'):
            out.append((s2, pay))
        else:
            I.oblige(fr, t, 'unwrap', False, I.norm(st, a[0]))
            I.panic(s2, fr, t, 'unwrap', I.norm(st, a[0]))
    if out and len(out) == 1:
        I.oblige(fr, t, 'unwrap', True)
    return out


@model('std::option::Option::<T>::unwrap_or', 'std::result::Result::<T, E>::unwrap_or')
def m_unwrap_or(I, st, a, fr, site, t, dty, g):
    m = M()
    adt = m.OPT if 'Option' in g['path'] else m.RES
    return [(s2, pay if nm in ('Ok', 'Some') else a[1]) for s2, nm, pay in split_adt(I, st, a[0], adt)]


def is_model(name, adt_is):
    @model(name)
    def f(I, st, a, fr, site, t, dty, g):
        m = M()
        adt = m.OPT if 'Option' in g['path'] else m.RES
        return [(s2, ('b', nm == adt_is)) for s2, nm, pay in split_adt(I, st, a[0], adt)]
    return f


is_model('std::option::Option::<T>::is_some', 'Some')
is_model('std::option::Option::<T>::is_none', 'None')
is_model('std::result::Result::<T, E>::is_ok', 'Ok')
is_model('std::result::Result::<T, E>::is_err', 'Err')


def call_closure(I, st, c, args, fr, site, t):
    """[(state, value)] of applying a closure or function value to arguments"""
    m = M()
    c2 = I.deref(st, c)
    if c2[0] == 'C':
        return I.do_call(c2[1], c2[1], None, [c2] + args, st, fr, (site, 'cl'), t, None)
    if c2[0] == 'F':
        return I.do_call(c2[1], c2[1], None, args, st, fr, (site, 'cl'), t, None)
    v = m.sym('apply', I.norm(st, c2), tuple(I.norm(st, x) for x in args))
    st.add(('apply', I.norm(st, c2), tuple(I.norm(st, x) for x in args), v, I.P.short(t.get('sp')), fr.fn['path']))
    return [(st, v)]


@model('std::option::Option::<T>::map', 'std::result::Result::<T, E>::map', 'std::result::Result::<T, E>::map_err',
       'std::option::Option::<T>::and_then', 'std::result::Result::<T, E>::and_then', 'std::option::Option::<T>::unwrap_or_else',
       'std::result::Result::<T, E>::unwrap_or_else', 'std::option::Option::<T>::ok_or', 'std::option::Option::<T>::ok_or_else',
       'std::option::Option::<T>::map_or', 'std::result::Result::<T, E>::ok', 'std::result::Result::<T, E>::or_else',
       'std::option::Option::<T>::cloned', 'std::option::Option::<T>::as_ref', 'std::result::Result::<T, E>::as_ref',
       'std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<T>::unwrap_or_default')
def m_optmap(I, st, a, fr, site, t, dty, g):
    m = M()
    meth = g['path'].rsplit('::', 1)[1]
    isopt = 'Option' in g['path']
    adt = m.OPT if isopt else m.RES
    out = []
    if meth == 'as_ref':
        return [(st, I.deref(st, a[0]))]
    for s2, nm, pay in split_adt(I, st, a[0], adt):
        good = nm in ('Ok', 'Some')
        wrapg = m.some if isopt else m.ok
        bad = m.NONE if isopt else m.err(pay)
        if meth in ('cloned', 'copied'):
            out.append((s2, m.some(I.deref(s2, pay)) if good else m.NONE))
        elif meth == 'ok':
            out.append((s2, m.some(pay) if good else m.NONE))
        elif meth == 'ok_or':
            out.append((s2, m.ok(pay) if good else m.err(a[1])))
        elif meth == 'unwrap_or_default':
            if good:
                out.append((s2, pay))
            else:
                out.append((s2, ('s', '') if (dty or '').endswith('string::String') else m.sym('default', dty or '')))
        elif meth in ('map', 'and_then', 'map_err', 'unwrap_or_else', 'ok_or_else', 'or_else', 'map_or'):
            f = a[-1]
            onbad = meth in ('map_err', 'unwrap_or_else', 'ok_or_else', 'or_else')
            if good == onbad:          # the closure is not called
                if meth in ('map_err', 'or_else'):
                    out.append((s2, m.ok(pay)))
                elif meth == 'unwrap_or_else':
                    out.append((s2, pay))
                elif meth == 'ok_or_else':
                    out.append((s2, m.ok(pay)))
                elif meth == 'map_or':
                    out.append((s2, a[1]))
                else:
                    out.append((s2, bad))
            else:
                args = [] if (onbad and isopt) else [pay]
                for s3, v in call_closure(I, s2, f, args, fr, site, t):
                    if meth == 'map':
                        v = wrapg(v)
                    elif meth in ('map_err', 'ok_or_else'):
                        v = m.err(v)
                    out.append((s3, v))
    return out


@model('core::panicking::assert_failed', 'std::rt::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt',
       'std::rt::panic_fmt', 'core::panicking::panic_display', 'core::panicking::unreachable_display', 'std::process::exit',
       'std::process::abort', 'core::panicking::panic_explicit', 'core::panicking::assert_failed_inner')
def m_panic(I, st, a, fr, site, t, dty, g):
    I.oblige(fr, t, 'panic', False)
    I.panic(st, fr, t, 'panic!')
    return []


# ---- indirect calls -------------------------------------------------------------
@model('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call')
def m_callmut(I, st, a, fr, site, t, dty, g):
    m = M()
    args = I.deref(st, a[1])
    args = list(args[1]) if args[0] == 'T' else [args]
    return call_closure(I, st, a[0], args, fr, site, t)


# ---- vectors ----------------------------------------------------------------------
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vnew(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, ('V', m.I(0), (), None))]


@model('std::string::String::with_capacity')
def m_swc(I, st, a, fr, site, t, dty, g):
    return [(st, ('s', ''))]


def as_vec(I, st, v):
    """a vector value ('V', len, elems or None, tag)"""
    m = M()
    v = I.deref(st, v)
    if v[0] == 'V':
        return v
    if v[0] == 'R':
        return ('V', m.I(len(v[1])), v[1], None)
    return ('V', I.length(st, v), None, I.norm(st, v))


@model('std::vec::Vec::<T, A>::push')
def m_vpush(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    x = I.own(st, a[1]) if a[1][0] != 'it' else a[1]
    tgt = place(I, st, a[0])
    if v[2] is not None and len(v[2]) < 300:
        n = ('V', m.ladd(v[1], m.I(1)), v[2] + (x,), None)
    else:
        n = ('V', m.ladd(v[1], m.I(1)), None, ('y', 'snoc', v[3] if v[2] is None else ('R', v[2]), x))
    st.add(('push', I.norm(st, a[0]) if a[0][0] == 'y' else None, tgt[1:] if tgt[0] == 'ref' else tgt, x, I.P.short(t.get('sp')), fr.fn['path']))
    set_ref(I, st, a[0], n)
    return [(st, m.UNIT)]


@model('std::vec::Vec::<T, A>::append')
def m_vappend(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    w = as_vec(I, st, a[1])
    if v[2] is not None and w[2] is not None and len(v[2]) + len(w[2]) < 300:
        n = ('V', m.ladd(v[1], w[1]), v[2] + w[2], None)
    elif v[2] == ():
        n = w
    else:
        n = ('V', m.ladd(v[1], w[1]), None, ('y', 'append', I.norm(st, v), I.norm(st, w)))
    tgt = place(I, st, a[0])
    st.add(('append', None, tgt[1:] if tgt[0] == 'ref' else tgt, I.norm(st, w), I.P.short(t.get('sp')), fr.fn['path']))
    set_ref(I, st, a[0], n)
    set_ref(I, st, a[1], ('V', m.I(0), (), None))
    return [(st, m.UNIT)]


@model('std::vec::Vec::<T, A>::insert', 'std::vec::Vec::<T, A>::remove')
def m_vins(I, st, a, fr, site, t, dty, g):
    m = M()
    tgt = place(I, st, a[0])
    v = as_vec(I, st, a[0])
    i = st.nl(a[1])
    meth = g['path'].rsplit('::', 1)[1]
    bound = m.lsub(i, v[1]) if meth == 'insert' else m.ladd(m.lsub(i, v[1]), m.I(1))
    okay = st.ev(m.le0(bound))
    I.oblige(fr, t, 'vec-' + meth, okay is True, (I.norm(st, i), v[1]))
    if okay is not True:
        I.panic(st.fork(), fr, t, 'vec-' + meth)
        if not st.assume(m.le0(bound), True):
            return []
    nv = I.norm(st, v)
    if meth == 'insert':
        x = I.own(st, a[2])
        if v[2] is not None and m.isint(i):
            n = ('V', m.ladd(v[1], m.I(1)), v[2][:i[1]] + (x,) + v[2][i[1]:], None)
        else:
            n = ('V', m.ladd(v[1], m.I(1)), None, ('y', 'insert', nv, i, x))
        st.add(('insert', None, tgt[1:] if tgt[0] == 'ref' else tgt, (i, x), I.P.short(t.get('sp')), fr.fn['path']))
        set_ref(I, st, a[0], n)
        return [(st, m.UNIT)]
    if v[2] is not None and m.isint(i):
        x = v[2][i[1]]
        n = ('V', m.ladd(v[1], m.I(-1)), v[2][:i[1]] + v[2][i[1] + 1:], None)
    elif v[2] is None and v[3] and v[3][:2] == ('y', 'insert') and v[3][3] == i:
        x = v[3][4]
        b = v[3][2]
        n = ('V', m.ladd(v[1], m.I(-1)), b[1] if b[0] == 'R' else None, None if b[0] == 'R' else b)
    else:
        x = I.index(st, v, i)
        n = ('V', m.ladd(v[1], m.I(-1)), None, ('y', 'remove', nv, i))
    st.add(('remove', None, tgt[1:] if tgt[0] == 'ref' else tgt, i, I.P.short(t.get('sp')), fr.fn['path']))
    set_ref(I, st, a[0], n)
    return [(st, x)]


@model('std::vec::Vec::<T, A>::pop')
def m_vpop(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    p = m.le0(v[1])
    r = st.ev(p)
    out = []
    if r is not False:
        s2 = st.fork() if r is None else st
        if s2.assume(p, True):
            out.append((s2, m.NONE))
    if r is not True:
        s3 = st.fork()
        if s3.assume(p, False):
            if v[2] is not None:
                x, n = v[2][-1], ('V', m.ladd(v[1], m.I(-1)), v[2][:-1], None)
            else:
                x = I.index(s3, v, m.ladd(v[1], m.I(-1)))
                n = ('V', m.ladd(v[1], m.I(-1)), None, ('y', 'init', v[3]))
            set_ref(I, s3, a[0], n)
            out.append((s3, m.some(x)))
    return out


@model('std::vec::Vec::<T, A>::clear')
def m_vclear(I, st, a, fr, site, t, dty, g):
    m = M()
    set_ref(I, st, a[0], ('V', m.I(0), (), None))
    return [(st, m.UNIT)]


@model('std::string::String::clear')
def m_sclear(I, st, a, fr, site, t, dty, g):
    set_ref(I, st, a[0], ('s', ''))
    return [(st, M().UNIT)]


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len')
def m_vlen(I, st, a, fr, site, t, dty, g):
    return [(st, I.length(st, a[0]))]


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_vempty(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, m.from_pred(I.int_eq(I.length(st, a[0]), m.I(0))))]


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def m_sempty(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, m.from_pred(I.equal(st, a[0], ('s', ''))))]


def subslice(I, st, base, rng, gen, fr, t):
    """base[lo .. hi]"""
    m = M()
    b = I.norm(st, base)
    n = I.length(st, base)
    kind = (gen[1] if len(gen) > 1 else rng[1]).split('<')[0].rsplit('::', 1)[-1]
    if kind == 'RangeFull':
        return [(st, base)]
    if rng[0] == 'it' and rng[1] == 'range':
        lo, hi = rng[2], rng[3]
    elif rng[0] == 'A':
        x = [I.num(st, v) for v in rng[4]]
        if kind == 'RangeFrom':
            lo, hi = x[0], n
        elif kind == 'RangeTo':
            lo, hi = m.I(0), x[0]
        elif kind == 'RangeToInclusive':
            lo, hi = m.I(0), m.ladd(x[0], m.I(1))
        elif kind == 'Range':
            lo, hi = x[0], x[1]
        else:
            return None
    else:
        return None
    lo, hi = st.nl(lo), st.nl(hi)
    text = gen and gen[0] in ('str', 'std::string::String')

    def boundary(x):
        if x == m.I(0) or x == st.nl(n):
            return True
        if b[0] == 's' and m.isint(x):
            e = b[1].encode()
            return 0 <= x[1] < len(e) and e[x[1]] & 0xC0 != 0x80
        c, d = m.lin(x)
        if len(d) == 1 and list(d.values()) == [1]:
            y = list(d)[0]
            if y[:2] == ('y', 'vf') and y[2][:3] == ('y', 'str', 'find') and y[2][3][0] == b:
                w = y[2][3][1]
                size = len(chr(w[1]).encode()) if m.isint(w) else len(w[1].encode()) if w[0] == 's' else None
                return c == 0 or c == size
        return False
    if text:
        ok = boundary(lo) and boundary(hi) and (lo == m.I(0) or hi == st.nl(n) or st.ent_le(m.lsub(lo, hi)))
    else:
        ok = st.ent_le(m.lsub(lo, hi)) and st.ent_le(m.lsub(hi, n))
    I.oblige(fr, t, 'slice', ok, (b, lo, hi))
    if not ok:
        I.panic(st.fork(), fr, t, 'slice', (b, lo, hi))
    if b[0] == 's' and m.isint(lo) and m.isint(hi):
        return [(st, ('s', b[1].encode()[lo[1]:hi[1]].decode('utf-8', 'replace')))]
    if b[0] == 'R' and m.isint(lo) and m.isint(hi):
        return [(st, ('R', b[1][lo[1]:hi[1]]))]
    if lo == m.I(0) and hi == st.nl(n) and b[0] == 'y':
        return [(st, b)]
    return [(st, m.sym('sl', b, lo, hi))]


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(I, st, a, fr, site, t, dty, g):
    m = M()
    gen = g.get('gen') or []
    if 'HashMap' in (gen[0] if gen else ''):
        return None
    i = I.deref(st, a[1])
    if (len(gen) > 1 and 'Range' in gen[1]) or i[0] == 'A':
        return subslice(I, st, a[0], i, gen, fr, t)
    if not m.is_num(i):
        return None
    i = st.nl(i)
    n = I.length(st, a[0])
    p = m.le0(m.ladd(m.lsub(i, n), m.I(1)))
    r = st.ev(p)
    I.oblige(fr, t, 'index', r is True, (I.norm(st, i), I.norm(st, n)))
    if r is not True:
        I.panic(st.fork(), fr, t, 'index', (I.norm(st, i), I.norm(st, n)))
        if r is False or not st.assume(p, True):
            return []
    b = a[0]
    while b[0] == 'ref':
        v = I.rd(st, b[1], b[2])
        if v[0] == 'ref':
            b = v
            continue
        return [(st, ('ref', b[1], b[2] + (('x', i),)))]
    if b[0] == 'y' and g['decl'].endswith('index_mut'):
        return [(st, ('ref', ('S', b), (('x', i),)))]
    return [(st, I.index(st, b, i))]


@model('core::slice::<impl [T]>::get')
def m_get(I, st, a, fr, site, t, dty, g):
    m = M()
    i = I.deref(st, a[1])
    if not m.is_num(i):
        return None
    n = I.length(st, a[0])
    p = m.le0(m.ladd(m.lsub(i, n), m.I(1)))
    out = []
    s2 = st.fork()
    if s2.assume(p, True):
        out.append((s2, m.some(I.index(s2, a[0], i))))
    if st.assume(p, False):
        out.append((st, m.NONE))
    return out


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(I, st, a, fr, site, t, dty, g):
    m = M()
    n = I.length(st, a[0])
    i = m.I(0) if g['path'].endswith('first') else m.ladd(n, m.I(-1))
    out = []
    s2 = st.fork()
    p = m.le0(n)
    if s2.assume(p, False):
        out.append((s2, m.some(I.index(s2, a[0], i))))
    if st.assume(p, True):
        out.append((st, m.NONE))
    return out


@model('core::slice::<impl [T]>::contains')
def m_contains(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    x = I.norm(st, a[1])
    if v[2] is None:
        return [(st, m.sym('contains', I.norm(st, v), x, ty='bool'))]
    out = []
    for e in v[2]:
        p = I.equal(st, e, x)
        r = st.ev(p)
        if r is True:
            return out + [(st, m.TRUE)]
        if r is False:
            continue
        s2 = st.fork()
        if s2.assume(p, True):
            out.append((s2, m.TRUE))
        if not st.assume(p, False):
            return out
    return out + [(st, m.FALSE)]


@model('core::slice::<impl [T]>::reverse')
def m_reverse(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    if v[2] is not None:
        n = ('V', v[1], tuple(reversed(v[2])), None)
    else:
        n = ('V', v[1], None, ('y', 'reverse', v[3]))
    set_ref(I, st, a[0], n)
    return [(st, m.UNIT)]


@model('std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort',
       'core::slice::<impl [T]>::sort_unstable_by')
def m_sortby(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    c = I.norm(st, a[1]) if len(a) > 1 else m.UNIT
    n = ('V', v[1], None, ('y', 'sorted', I.norm(st, v), c[1] if c[0] in 'CF' else c))
    st.add(('call', 'sort_by', (I.norm(st, v), c), m.UNIT, I.P.short(t.get('sp')), fr.fn['path']))
    set_ref(I, st, a[0], n)
    return [(st, m.UNIT)]


@model('std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::dedup_by', 'std::vec::Vec::<T, A>::dedup_by_key')
def m_dedup(I, st, a, fr, site, t, dty, g):
    m = M()
    v = as_vec(I, st, a[0])
    c = I.norm(st, a[1]) if len(a) > 1 else m.UNIT
    n = ('y', 'dedup', I.norm(st, v), c[1] if c[0] in 'CF' else c)
    set_ref(I, st, a[0], ('V', m.sym('len', n, nonneg=True), None, n))
    return [(st, m.UNIT)]


@model('std::vec::Vec::<T, A>::retain')
def m_retain(I, st, a, fr, site, t, dty, g):
    out = std_enter(I, st, 'retain', [as_vec(I, st, a[0]), a[1]], fr, site)
    for s2, v in out:
        set_ref(I, s2, a[0], v)
    return [(s2, M().UNIT) for s2, v in out]


# ---- iterators -------------------------------------------------------------------
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_iter(I, st, a, fr, site, t, dty, g):
    return [(st, ('it', 'slice', a[0], M().I(0)))]


@model('std::iter::IntoIterator::into_iter')
def m_into(I, st, a, fr, site, t, dty, g):
    m = M()
    v = a[0]
    if v[0] == 'it':
        return [(st, v)]
    gen = (g.get('gen') or [''])[0]
    d = I.deref(st, v)
    if d[0] == 'it':
        return [(st, v)]
    if gen.startswith('std::ops::Range<') or gen.startswith('std::ops::RangeInclusive<') or d[0] == 'A' and 'Range' in d[1]:
        r = as_range(I, st, d, gen)
        if r is None:
            return None
        return [(st, r)]
    if 'Vec<' in gen or gen.startswith('&') or gen.startswith('['):
        return [(st, ('it', 'slice', v, m.I(0)))]
    return [(st, v)]


def as_range(I, st, d, gen):
    m = M()
    if d[0] == 'A' and len(d[4]) > 1:
        lo, hi = d[4][0], d[4][1]
    elif d[0] == 'it':
        return d
    else:
        return None
    if 'RangeInclusive' in gen or 'RangeInclusive' in d[1]:
        hi = m.ladd(hi, m.I(1))
    return ('it', 'range', lo, hi)


def ranged(I, st, x, g):
    """the iterator that a range is"""
    d = I.deref(st, x)
    if d[0] == 'A' and 'Range' in d[1]:
        return as_range(I, st, d, (g.get('gen') or [''])[0]) or x
    return x


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinc(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, ('it', 'range', I.num(st, a[0]), m.ladd(I.num(st, a[1]), m.I(1))))]


@model('core::str::<impl str>::chars')
def m_chars(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, ('it', 'chars', I.norm(st, a[0]), m.I(0)))]


@model('core::str::<impl str>::split')
def m_split(I, st, a, fr, site, t, dty, g):
    m = M()
    s, p = I.norm(st, a[0]), I.norm(st, a[1])
    if s[0] == 's' and p[0] == 's' and p[1]:
        return [(st, ('it', 'slice', ('R', tuple(('s', x) for x in s[1].split(p[1]))), m.I(0)))]
    if s[0] == 's' and m.isint(p):
        return [(st, ('it', 'slice', ('R', tuple(('s', x) for x in s[1].split(chr(p[1])))), m.I(0)))]
    v = m.sym('split', s, p)
    parts_at_least_one(st, v)
    return [(st, ('it', 'slice', v, m.I(0)))]


def parts_at_least_one(st, v):
    m = M()
    st.assume(m.le0(m.lsub(m.I(1), m.sym('len', v, nonneg=True))), True)


@model('core::str::<impl str>::splitn')
def m_splitn(I, st, a, fr, site, t, dty, g):
    m = M()
    s, n, p = I.norm(st, a[0]), I.norm(st, a[1]), I.norm(st, a[2])
    if s[0] == 's' and p[0] == 's' and p[1] and m.isint(n):
        return [(st, ('it', 'slice', ('R', tuple(('s', x) for x in s[1].split(p[1], n[1] - 1))), m.I(0)))]
    v = m.sym('splitn', s, n, p)
    parts_at_least_one(st, v)
    if m.isint(n):
        st.assume(m.le0(m.lsub(m.sym('len', v, nonneg=True), n)), True)
    return [(st, ('it', 'slice', v, m.I(0)))]


@model('core::str::<impl str>::split_whitespace')
def m_splitw(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, ('it', 'slice', m.sym('splitws', I.norm(st, a[0])), m.I(0)))]


@model('std::iter::Iterator::enumerate')
def m_enum(I, st, a, fr, site, t, dty, g):
    return [(st, ('it', 'enum', ranged(I, st, a[0], g), M().I(0)))]


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_cloned(I, st, a, fr, site, t, dty, g):
    return [(st, ('it', 'cloned', a[0]))]


def it_depth(it):
    n = 0
    while isinstance(it, tuple) and it and it[0] == 'it':
        it = it[2]
        n += 1
    return n


@model('std::iter::Iterator::take_while')
def m_takewhile(I, st, a, fr, site, t, dty, g):
    return [(st, ('it', 'take_while', ranged(I, st, a[0], g), a[1], M().FALSE))]


@model('std::iter::Iterator::zip', 'std::iter::Iterator::chain')
def m_zip(I, st, a, fr, site, t, dty, g):
    m = M()
    other = a[1]
    if I.deref(st, other)[0] != 'it':
        r = m_into(I, st, [other], fr, site, t, dty, dict(g, gen=(g.get('gen') or ['', ''])[1:]))
        if not r or r[0][1][0] != 'it':
            return None
        other = r[0][1]
    return [(st, ('it', g['decl'].rsplit('::', 1)[1], ranged(I, st, a[0], g), I.deref(st, other)))]


@model('std::iter::Iterator::take')
def m_take(I, st, a, fr, site, t, dty, g):
    it = I.deref(st, ranged(I, st, a[0], g))
    k = I.num(st, a[1])
    b = listed(I, st, it)
    if b is not None and not I.it_concrete(st, it):
        # the part of a list: as many as asked for, or all there are
        wrap, lst, pos = b
        m = M()
        n = I.length(st, lst)
        out = []
        for s2, fits in fork_pred(I, st, m.le0(m.lsub(m.ladd(pos, k), n)), True, False):
            if fits and not s2.ent_le(m.lsub(n, m.ladd(pos, k))):
                part = m.sym('sl', I.norm(s2, lst), s2.nl(pos), s2.nl(m.ladd(pos, k)))
                out.append((s2, wrap(('it', 'slice', ('V', s2.nl(k), None, part), m.I(0)))))
            else:
                out.append((s2, it))
        return out
    return [(st, ('it', 'take', it, a[1]))]


def listed(I, st, it):
    """(how the adaptors are put back, list, position) of an iterator that goes through a list or the characters of a text"""
    m = M()
    if it[0] != 'it':
        return None
    if it[1] in ('cloned', 'copied'):
        b = listed(I, st, it[2])
        return None if b is None else (lambda x: ('it', it[1], b[0](x)) + it[3:], b[1], b[2])
    if it[1] == 'slice':
        return (lambda x: x), it[2], it[3]
    if it[1] == 'chars' and it[2][0] == 'y' and I.chars_vec:
        x = m.sym('chars', it[2])
        return (lambda y: ('it', 'cloned', y)), ('V', m.sym('len', x, nonneg=True), None, x), it[3]
    return None


@model('std::iter::Iterator::map', 'std::iter::Iterator::filter', 'std::iter::Iterator::filter_map')
def m_map(I, st, a, fr, site, t, dty, g):
    return [(st, ('it', g['path'].rsplit('::', 1)[1], ranged(I, st, a[0], g), a[1]))]


@model('std::iter::Iterator::rev')
def m_rev(I, st, a, fr, site, t, dty, g):
    m = M()
    v = I.deref(st, ranged(I, st, a[0], g))
    if v[0] == 'it' and v[1] == 'range':
        return [(st, ('it', 'rrange', v[2], v[3]))]
    if v[0] == 'it' and v[1] == 'slice':
        c = as_vec(I, st, v[2])
        if c[2] is not None and v[3] == m.I(0):
            return [(st, ('it', 'slice', ('R', tuple(reversed(c[2]))), m.I(0)))]
        if v[3] == m.I(0):
            return [(st, ('it', 'slice', ('V', c[1], None, ('y', 'reverse', I.norm(st, c))), m.I(0)))]
    return None


def elem_ref(I, st, coll, i):
    """a reference to element i"""
    b = coll
    while b[0] == 'ref':
        v = I.rd(st, b[1], b[2])
        if v[0] == 'ref':
            b = v
            continue
        return ('ref', b[1], b[2] + (('x', i),))
    return I.index(st, b, i)


def std_enter(I, st, name, args, fr, site):
    """goes through the loop that stands for a function of the standard library"""
    return I.enter(I.P.fns['amxstd::' + name], args, st, fr, site)


def std_cell(I, st, fr, site, tag, v):
    """(cell, reference) of a place that holds a value while such a loop runs"""
    cell = (fr.id, 'tmp', site, tag)
    st.mem[cell] = v
    return cell, ('ref', cell, ())


def std_iter(I, st, r, name, rest, fr, site, byval=False):
    """runs a loop of stdmodel over the iterator r (a value or a reference to one)"""
    if byval or r[0] != 'ref':
        v = I.deref(st, r)
        if byval:
            return std_enter(I, st, name, [v] + rest, fr, site)
        cell, ref = std_cell(I, st, fr, site, 'it', v)
        out = std_enter(I, st, name, [ref] + rest, fr, site)
        for s2, _ in out:
            s2.mem.pop(cell, None)
        return out
    return std_enter(I, st, name, [r] + rest, fr, site)


SKIP = ('skip',)


def it_step(I, st, it, fr, site, t):
    """one element of the source: like it_next, but an element a filter rejects comes out as SKIP"""
    m = M()
    k = it[1]
    if k in ('filter', 'filter_map', 'map', 'enum', 'cloned') and it[2][0] == 'it':
        out = []
        for s2, i2, x in it_step(I, st, it[2], fr, site, t):
            nit = it[:2] + (i2,) + it[3:]
            if x is None or x is SKIP:
                out.append((s2, nit, x))
            elif k == 'cloned':
                out.append((s2, nit, I.norm(s2, x)))
            elif k == 'enum':
                out.append((s2, ('it', 'enum', i2, m.ladd(it[3], m.I(1))), ('T', (s2.nl(it[3]), x))))
            else:
                for s3, v in call_closure(I, s2, it[3], [x], fr, site, t):
                    if k == 'map':
                        out.append((s3, nit, v))
                    elif k == 'filter':
                        for s4, b in fork_pred(I, s3, m.to_pred(v), True, False):
                            out.append((s4, nit, x if b else SKIP))
                    else:
                        for s4, nm, pay in split_adt(I, s3, v, m.OPT):
                            out.append((s4, nit, pay if nm == 'Some' else SKIP))
        return out
    return it_next(I, st, it, fr, site, t)


def it_filters(it):
    while isinstance(it, tuple) and it and it[0] == 'it':
        if it[1] in ('filter', 'filter_map'):
            return True
        if it[1] not in ('map', 'enum', 'cloned'):
            return False
        it = it[2]
    return False


def it_next(I, st, it, fr, site, t):
    """[(state, iterator afterwards, item or None)]"""
    m = M()
    if it[0] == 'ref':
        it = I.deref(st, it)
    if it[0] != 'it':
        # an iterator we know nothing about: any item, or the end
        x = I.fresh(st, (fr.id, 'next', site), 'item')
        return [(st.fork(), it, x), (st, it, None)]
    k = it[1]
    if k == 'slice':
        n = I.length(st, it[2])
        p = m.le0(m.ladd(m.lsub(it[3], n), m.I(1)))
        r = st.ev(p)
        out = []
        if r is not False:
            s2 = st.fork() if r is None else st
            if r is True or s2.assume(p, True):
                out.append((s2, ('it', 'slice', it[2], m.ladd(it[3], m.I(1))), elem_ref(I, s2, it[2], s2.nl(it[3]))))
        if r is not True:
            if r is False or st.assume(p, False):
                out.append((st, it, None))
        return out
    if k == 'range':
        p = m.le0(m.ladd(m.lsub(it[2], it[3]), m.I(1)))
        r = st.ev(p)
        out = []
        if r is not False:
            s2 = st.fork() if r is None else st
            if r is True or s2.assume(p, True):
                out.append((s2, ('it', 'range', m.ladd(it[2], m.I(1)), it[3]), s2.nl(it[2])))
        if r is not True:
            if r is False or st.assume(p, False):
                out.append((st, it, None))
        return out
    if k == 'rrange':
        p = m.le0(m.ladd(m.lsub(it[2], it[3]), m.I(1)))
        out = []
        hi = m.ladd(it[3], m.I(-1))
        s2 = st.fork()
        if s2.assume(p, True):
            out.append((s2, ('it', 'rrange', it[2], hi), s2.nl(hi)))
        if st.assume(p, False):
            out.append((st, it, None))
        return out
    if k == 'chars':
        s = it[2]
        if s[0] == 's' and m.isint(st.nl(it[3])):
            i = st.nl(it[3])[1]
            if i < len(s[1]):
                return [(st, ('it', 'chars', s, m.I(i + 1)), m.I(ord(s[1][i])))]
            return [(st, it, None)]
        n = m.sym('len', m.sym('chars', s), nonneg=True)
        p = m.le0(m.ladd(m.lsub(it[3], n), m.I(1)))
        out = []
        s2 = st.fork()
        if s2.assume(p, True):
            out.append((s2, ('it', 'chars', s, m.ladd(it[3], m.I(1))), m.sym('elem', m.sym('chars', s), s2.nl(it[3]), ty='char')))
        if st.assume(p, False):
            out.append((st, it, None))
        return out
    if k == 'enum':
        out = []
        for s2, i2, x in it_next(I, st, it[2], fr, site, t):
            if x is None:
                out.append((s2, ('it', 'enum', i2, it[3]), None))
            else:
                out.append((s2, ('it', 'enum', i2, m.ladd(it[3], m.I(1))), ('T', (s2.nl(it[3]), x))))
        return out
    if k == 'cloned':
        return [(s2, ('it', 'cloned', i2), None if x is None else I.norm(s2, x)) for s2, i2, x in it_next(I, st, it[2], fr, site, t)]
    if k == 'map':
        out = []
        for s2, i2, x in it_next(I, st, it[2], fr, site, t):
            if x is None:
                out.append((s2, ('it', 'map', i2, it[3]), None))
            else:
                for s3, v in call_closure(I, s2, it[3], [x], fr, site, t):
                    out.append((s3, ('it', 'map', i2, it[3]), v))
        return out
    if k in ('filter', 'filter_map'):
        out = []
        if I.it_concrete(st, it):
            work = [(st, it)]
            while work:
                s, i = work.pop()
                for s2, i2, x in it_step(I, s, i, fr, site, t):
                    if x is SKIP:
                        work.append((s2, i2))
                    else:
                        out.append((s2, i2, x))
            return out
        cell, ref = std_cell(I, st, fr, site, 'it' + str(it_depth(it)), it[2])
        cel2, ref2 = std_cell(I, st, fr, site, 'fn' + str(it_depth(it)), it[3])
        for s2, v in std_enter(I, st, k + '_next', [ref, ref2], fr, (site, k, it_depth(it))):
            i2, f2 = s2.mem.pop(cell, it[2]), s2.mem.pop(cel2, it[3])
            for s3, nm, pay in split_adt(I, s2, v, m.OPT):
                out.append((s3, ('it', k, i2, f2), pay if nm == 'Some' else None))
        return out
    if k == 'take_while':
        out = []
        if it[4] == m.TRUE:
            return [(st, it, None)]
        for s2, i2, x in it_next(I, st, it[2], fr, site, t):
            if x is None:
                out.append((s2, ('it', k, i2, it[3], it[4]), None))
                continue
            for s3, v in call_closure(I, s2, it[3], [x], fr, site, t):
                for s4, b in fork_pred(I, s3, m.to_pred(v), True, False):
                    out.append((s4, ('it', k, i2, it[3], it[4] if b else m.TRUE), x if b else None))
        return out
    if k == 'zip':
        out = []
        for s2, i2, x in it_next(I, st, it[2], fr, site, t):
            if x is None:
                out.append((s2, ('it', k, i2, it[3]), None))
                continue
            for s3, i3, y in it_next(I, s2, it[3], fr, site, t):
                out.append((s3, ('it', k, i2, i3), None if y is None else ('T', (x, y))))
        return out
    if k == 'chain':
        out = []
        for s2, i2, x in it_next(I, st, it[2], fr, site, t):
            if x is not None:
                out.append((s2, ('it', k, i2, it[3]), x))
                continue
            for s3, i3, y in it_next(I, s2, it[3], fr, site, t):
                out.append((s3, ('it', k, i2, i3), y))
        return out
    if k == 'take':
        p = m.le0(m.lsub(m.I(1), it[3]))
        out = []
        for s1, b in fork_pred(I, st, p, True, False):
            if not b:
                out.append((s1, it, None))
                continue
            for s2, i2, x in it_next(I, s1, it[2], fr, site, t):
                out.append((s2, ('it', k, i2, m.lsub(it[3], m.I(1))), x))
        return out
    x = I.fresh(st, (fr.id, 'next', site), 'item')
    return [(st.fork(), it, x), (st, it, None)]


@model('std::iter::Iterator::next')
def m_next(I, st, a, fr, site, t, dty, g):
    m = M()
    r = a[0]
    v = I.deref(st, r)
    if v[0] == 'A' and 'Range' in v[1]:
        v = as_range(I, st, v, (g.get('gen') or [''])[0])
    if v is None or v[0] != 'it':
        return None
    # where the iterator itself lives
    while r[0] == 'ref':
        x = I.rd(st, r[1], r[2])
        if x[0] == 'ref':
            r = x
        else:
            break
    if it_filters(v) and site[0] == fr.id and site[1] in m.loop_info(fr.fn):
        # the call is the loop's head: a rejected element goes straight on with the next round
        res = it_step(I, st, v, fr, site, t)
    else:
        res = it_next(I, st, v, fr, site, t)
    if res is None:
        return None
    out = []
    for s2, i2, x in res:
        set_ref(I, s2, r, i2)
        if x is SKIP:
            out.append((s2, SKIP))
            continue
        out.append((s2, m.NONE if x is None else m.some(x)))
    return out


@model('std::iter::Iterator::for_each', 'std::iter::Iterator::fold', 'std::iter::Iterator::count', 'std::iter::Iterator::last')
def m_consume(I, st, a, fr, site, t, dty, g):
    meth = g['decl'].rsplit('::', 1)[1]
    it = I.deref(st, a[0])
    if meth == 'count' and it[0] == 'it' and not I.it_concrete(st, it):
        b = listed(I, st, it)
        if b is not None:
            m = M()
            d = m.lsub(I.length(st, b[1]), b[2])
            if st.ent_le(m.lsub(m.I(0), d)):
                return [(st, st.nl(d))]
    if it[0] != 'it' or (meth in ('count', 'last') and not I.it_concrete(st, it) and it[1] not in ('map', 'filter', 'filter_map')):
        return None
    return std_iter(I, st, it, meth, list(a[1:]), fr, site, byval=True)


@model('std::iter::Iterator::nth', 'std::iter::Iterator::skip')
def m_nth(I, st, a, fr, site, t, dty, g):
    m = M()
    it = I.deref(st, a[0])
    if g['decl'].endswith('skip') and not I.it_concrete(st, it):
        m = M()
        b = listed(I, st, it)
        if b is not None:
            wrap, lst, pos = b
            n = I.length(st, lst)
            out = []
            to = m.ladd(pos, I.num(st, a[1]))
            for s2, fits in fork_pred(I, st, m.le0(m.lsub(to, n)), True, False):
                out.append((s2, wrap(('it', 'slice', lst, s2.nl(to if fits else n)))))
            return out
    layers = []
    while it[0] == 'it' and it[1] in ('cloned', 'map') and it[2][0] == 'it':
        layers.append(it)
        it = it[2]
    if it[0] != 'it' or it[1] != 'slice' or any(l[1] == 'map' for l in layers):
        return None
    it2 = ('it', 'slice', it[2], st.nl(m.ladd(it[3], I.num(st, a[1]))))
    for l in reversed(layers):
        it2 = ('it', l[1], it2) + l[3:]
    if g['decl'].endswith('skip'):
        p = m.le0(m.lsub(it2[3], I.length(st, it[2])))
        return [(st, it2)] if st.ev(p) is True else None
    out = []
    for s2, i2, x in it_next(I, st, it2, fr, site, t):
        if a[0][0] == 'ref':
            set_ref(I, s2, a[0], i2)
        out.append((s2, m.NONE if x is None else m.some(x)))
    return out


@model('std::iter::Iterator::find_map')
def m_findmap(I, st, a, fr, site, t, dty, g):
    it = I.deref(st, a[0])
    if it[0] != 'it':
        return None
    return std_iter(I, st, a[0], 'find_map', [a[1]], fr, site)


@model('std::iter::Extend::extend')
def m_extend(I, st, a, fr, site, t, dty, g):
    m = M()
    if not (g.get('gen') or [''])[0].startswith('std::vec::Vec'):
        return None
    it = I.norm(st, a[1])
    w = None
    if it[0] in ('V', 'R') or it[:2] in (('y', 'call'), ('y', 'vf'), ('y', 'fld'), ('y', 'w')) and \
            any('Vec<' in z for z in (g.get('gen') or [])[1:]):
        w = it
    elif it[0] == 'it' and it[1] == 'slice' and it[3] == m.I(0):
        w = it[2]
    elif it[0] == 'it' and it[1] == 'cloned' and it[2][0] == 'it' and it[2][1] == 'slice' and it[2][3] == m.I(0):
        w = it[2][2]
    if w is not None:
        w = as_vec(I, st, w)
        if w[2] is None:
            cell, ref = std_cell(I, st, fr, site, 'ext', w)
            out = m_vappend(I, st, [a[0], ref], fr, site, t, dty, g)
            st.mem.pop(cell, None)
            return out
        for x in w[2]:
            m_vpush(I, st, [a[0], x], fr, site, t, dty, g)
        return [(st, m.UNIT)]
    if it[0] != 'it':
        return None
    return std_enter(I, st, 'extend', [a[0], I.deref(st, a[1])], fr, site)


def as_contains(I, st, a, meth, fr, site, t):
    """any item is the same node as x: the list contains x"""
    m = M()
    it = I.deref(st, a[0])
    if meth not in ('any', 'all') or it[1] != 'slice' or it[3] != m.I(0) or I.it_concrete(st, it):
        return None
    l = I.norm(st, as_vec(I, st, it[2]))
    if l[0] == 'V':
        l = l[3]
    if l is None or l[0] != 'y':
        return None
    el = m.sym('elem', l, m.sym('any item', nonneg=True))
    s2 = st.fork()
    n = len(I.outs)
    try:
        r = call_closure(I, s2, a[1], [el], fr, (site, 'any'), t)
    finally:
        del I.outs[n:]
    if len(r) != 1:
        return None
    p = m.to_pred(r[0][1])
    neg = meth == 'all'
    if neg:
        p = m.pnot(p)
    if p[0] != 'is' or p[1][:2] != ('y', 'ptreq'):
        return None
    x, y = p[1][2:4]
    if x[:2] != ('y', 'fld') or y[:2] != ('y', 'fld') or x[3:] != y[3:] or (x[2] == el) == (y[2] == el):
        return None
    x = x[2] if y[2] == el else y[2]
    v = m.sym('contains', l, x, ty='bool')
    return [(st, m.from_pred(m.pnot(m.to_pred(v))) if neg else v)]


@model('std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::position', 'std::iter::Iterator::find')
def m_any(I, st, a, fr, site, t, dty, g):
    m = M()
    meth = g['decl'].rsplit('::', 1)[1]
    it = I.deref(st, a[0])
    if it[0] == 'A' and 'Range' in it[1] and a[0][0] == 'ref':
        it = as_range(I, st, it, (g.get('gen') or [''])[0]) or it
        set_ref(I, st, a[0], it)
    if it[0] != 'it':
        return None
    r = as_contains(I, st, a, meth, fr, site, t)
    if r is not None:
        return r
    if not I.it_concrete(st, it):
        return std_iter(I, st, a[0], meth, [a[1]], fr, site)
    out = []
    work = [(st, it, 0)]
    while work:
        s, i, n = work.pop()
        if n > 400:
            return None
        if not I.it_concrete(s, i):
            # the elements put in front are done; the others are those of a list of any length
            if a[0][0] == 'ref':
                set_ref(I, s, a[0], i)
            for s2, v in std_iter(I, s, a[0] if a[0][0] == 'ref' else i, meth, [a[1]], fr, site):
                if meth == 'position' and n:
                    if v[0] != 'A':
                        return None
                    v = v if v[3] == 'None' else m.some(s2.nl(m.ladd(v[4][0], m.I(n))))
                out.append((s2, v))
            continue
        for s2, i2, x in it_next(I, s, i, fr, site, t):
            if x is None:
                out.append((s2, {'any': m.FALSE, 'all': m.TRUE}.get(meth, m.NONE)))
                continue
            for s3, v in call_closure(I, s2, a[1], [x], fr, site, t):
                for s4, b in fork_pred(I, s3, m.to_pred(v), True, False):
                    if b == (meth != 'all'):
                        out.append((s4, {'any': m.TRUE, 'all': m.FALSE, 'position': m.some(m.I(n)), 'find': m.some(x)}[meth]))
                    else:
                        work.append((s4, i2, n + 1))
    return out


@model('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat')
def m_join(I, st, a, fr, site, t, dty, g):
    if not (dty or '').startswith('std::string::String'):
        return None
    v = I.norm(st, a[0])
    if v[0] == 'R':
        ps = []
        for i, x in enumerate(v[1]):
            ps += (pieces(I.norm(st, a[1])) if i and len(a) > 1 else []) + pieces(I.norm(st, x))
        return [(st, cat(ps))]
    return std_enter(I, st, g['decl'].rsplit('::', 1)[1], list(a), fr, site)


def it_chars(it):
    while it[0] == 'it' and it[1] in ('filter', 'take_while', 'take', 'rev', 'cloned'):
        it = it[2]
    return it[0] == 'it' and it[1] == 'chars'


@model('std::iter::Iterator::collect')
def m_collect(I, st, a, fr, site, t, dty, g):
    m = M()
    gen = g.get('gen') or ['', '']
    it = I.deref(st, a[0])
    if it[0] != 'it':
        return None
    tgt = gen[1] if len(gen) > 1 else (dty or '')
    if not I.it_concrete(st, it):
        if tgt.startswith('std::vec::Vec') and it[1] == 'slice' and it[3] == m.I(0):
            return [(st, as_vec(I, st, it[2]))]
        if tgt.startswith('std::vec::Vec') and it[1] == 'chars' and it[3] == m.I(0) and I.chars_vec:
            x = m.sym('chars', it[2])
            return [(st, ('V', m.sym('len', x, nonneg=True), None, x))]
        item = gen[0]
        if tgt.startswith('std::vec::Vec'):
            return std_enter(I, st, 'collect', [it], fr, site)
        if tgt.startswith('std::string::String') and it[1] not in ('chars', 'slice', 'cloned'):
            return std_enter(I, st, 'collect_string' if it_chars(it) else 'concat_strings', [it], fr, site)
        if tgt.startswith('std::string::String') and re.search(r"\bchar\b|Chars<", gen[0]) and it[1] in ('slice', 'cloned'):
            return std_enter(I, st, 'collect_string', [it], fr, site)
        if tgt.startswith('std::result::Result<std::vec::Vec'):
            return std_enter(I, st, 'collect_result', [it], fr, site)
        if tgt.startswith('std::option::Option<std::vec::Vec'):
            return std_enter(I, st, 'collect_option', [it], fr, site)
        return [(st, m.sym('collect', I.norm(st, it), ty=tgt))]
    out = []
    work = [(st, it, ())]
    n = 0
    while work:
        s, i, acc = work.pop()
        n += 1
        if n > 3000:
            return None
        r = it_next(I, s, i, fr, site, t)
        if r is None:
            return None
        for s2, i2, x in r:
            if x is None:
                if 'HashMap' in tgt or 'HashSet' in tgt:
                    v = ('A', 'HashMap', 0, 'HashMap', (('R', acc),))
                elif tgt.startswith('std::string::String'):
                    ps = []
                    for e in acc:
                        ps.append(('ch', e) if 'char' in gen[0] or m.is_num(e) else ('v', e))
                    v = cat(ps)
                else:
                    v = ('V', m.I(len(acc)), acc, None)
                out.append((s2, v))
            else:
                work.append((s2, i2, acc + (I.norm(s2, x),)))
    return out


@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S>::get')
def m_hget(I, st, a, fr, site, t, dty, g):
    m = M()
    h = I.norm(st, a[0])
    k = I.norm(st, a[1])
    if h[0] != 'A' or h[1] != 'HashMap':
        return [(st, m.sym('hget', h, k))]
    out = []
    ent = {}
    for e in h[4][0][1]:
        ent[e[1][0]] = e[1][1]
    for key, val in ent.items():
        p = I.equal(st, key, k)
        r = st.ev(p)
        if r is True:
            return out + [(st, m.some(val))]
        if r is False:
            continue
        s2 = st.fork()
        if s2.assume(p, True):
            out.append((s2, m.some(val)))
        if not st.assume(p, False):
            return out
    return out + [(st, m.NONE)]


@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity')
def m_hnew(I, st, a, fr, site, t, dty, g):
    return [(st, ('A', 'HashMap', 0, 'HashMap', (('R', ()),)))]


@model('std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::HashMap::<K, V, S>::insert')
def m_hput(I, st, a, fr, site, t, dty, g):
    m = M()
    h = I.norm(st, a[0])
    if h[0] != 'A' or h[1] != 'HashMap' or len(h[4][0][1]) > 300:
        return None
    old = m_hget(I, st, [h, a[1]], fr, site, t, dty, g)
    k, v = I.norm(st, I.own(st, a[1])), I.own(st, a[2])
    for s, r in old:
        set_ref(I, s, a[0], ('A', 'HashMap', 0, 'HashMap', (('R', h[4][0][1] + (('T', (k, v)),)),)))
    return old


# ---- numbers -------------------------------------------------------------------------
def checked(op):
    def f(I, st, a, fr, site, t, dty, g):
        m = M()
        x = [I.norm(st, v) for v in a]
        if all(m.isint(v) for v in x):
            n = [v[1] for v in x]
            r = None
            if op == 'add':
                r = n[0] + n[1]
            elif op == 'sub':
                r = n[0] - n[1]
            elif op == 'mul':
                r = n[0] * n[1]
            elif op == 'neg':
                r = -n[0]
            elif op == 'abs':
                r = abs(n[0])
            if r is not None:
                return [(st, m.some(m.I(r)) if -2**63 <= r < 2**63 else m.NONE)]
        if op == 'add' and m.I(0) in x or op == 'sub' and x[1] == m.I(0):
            return [(st, m.some(x[0] if x[1] == m.I(0) else x[1]))]
        return [(st, m.sym('checked', op, tuple(x), ty='std::option::Option<i64>'))]
    return f


for _op in ('add', 'sub', 'mul', 'div', 'rem', 'neg', 'abs', 'pow'):
    MODELS['core::num::<impl i64>::checked_' + _op] = checked(_op)


def overflowing(op):
    def f(I, st, a, fr, site, t, dty, g):
        m = M()
        x = tuple(I.norm(st, v) for v in a)
        c = m.sym('checked', op, x, ty='std::option::Option<i64>')
        out = []
        s2 = st.fork()
        if s2.assume(('var', c, 'Some'), True):
            out.append((s2, ('T', (m.sym('vf', c, 'Some', 0), ('b', False)))))
        if st.assume(('var', c, 'Some'), False):
            out.append((st, ('T', (m.sym('wrapping_' + op, *x), ('b', True)))))
        return out
    return f


for _op in ('add', 'sub', 'mul', 'neg', 'div'):
    MODELS['core::num::<impl i64>::overflowing_' + _op] = overflowing(_op)


def fconst(t):
    """the number a constant stands for"""
    if t[0] == 'fl':
        try:
            return float(t[1])
        except (TypeError, ValueError):
            return None
    return None


FLOAT_TESTS = {'is_finite': math.isfinite, 'is_infinite': math.isinf, 'is_nan': math.isnan,
               'is_sign_negative': lambda x: math.copysign(1, x) < 0, 'is_sign_positive': lambda x: math.copysign(1, x) > 0}


def unary(name):
    def f(I, st, a, fr, site, t, dty, g):
        m = M()
        x = fconst(a[0]) if len(a) == 1 else None
        if x is not None and name in FLOAT_TESTS and not (math.isnan(x) and 'sign' in name):
            return [(st, ('b', FLOAT_TESTS[name](x)))]
        if name in ('saturating_add', 'saturating_sub') and I.exact_saturating:
            u, v = I.num(st, a[0]), I.num(st, a[1])
            return [(st, m.ladd(u, v) if name == 'saturating_add' else m.lsub(u, v))]
        return [(st, m.sym('num', name, tuple(I.norm(st, x) for x in a), ty=dty))]
    return f


for _n in ('abs', 'is_finite', 'is_infinite', 'is_nan', 'is_sign_negative', 'is_sign_positive', 'signum', 'ceil', 'floor', 'round', 'trunc', 'fract'):
    MODELS['core::f64::<impl f64>::' + _n] = unary(_n)
    MODELS['std::f64::<impl f64>::' + _n] = unary(_n)
for _n in ('saturating_add', 'saturating_sub', 'wrapping_rem', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_div', 'abs', 'signum'):
    MODELS['core::num::<impl i64>::' + _n] = unary(_n)
MODELS['std::ops::Rem::rem'] = unary('rem')
MODELS['std::ops::Neg::neg'] = unary('neg')


@model('std::char::from_u32', 'std::char::methods::<impl char>::from_u32')
def m_fromu32(I, st, a, fr, site, t, dty, g):
    m = M()
    v = I.norm(st, a[0])
    if m.isint(v):
        n = v[1]
        return [(st, m.some(m.I(n)) if n < 0xD800 or 0xE000 <= n < 0x110000 else m.NONE)]
    return [(st, m.sym('from_u32', v, ty='std::option::Option<char>'))]


@model('core::num::<impl u32>::from_str_radix', 'core::num::<impl i64>::from_str_radix')
def m_radix(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, m.sym('from_str_radix', I.norm(st, a[0]), I.norm(st, a[1]), ty='std::result::Result<u32>'))]


@model('std::str::FromStr::from_str', 'core::str::<impl str>::parse')
def m_fromstr(I, st, a, fr, site, t, dty, g):
    m = M()
    gen = (g.get('gen') or [''])[0]
    return [(st, m.sym('parse', gen, I.norm(st, a[0]), ty='std::result::Result<%s>' % gen))]


# ---- string queries ----------------------------------------------------------------
def strq(name, fn=None):
    def f(I, st, a, fr, site, t, dty, g):
        m = M()
        x = [I.norm(st, v) for v in a]
        if fn is not None and all(v[0] == 's' for v in x):
            r = fn(*[v[1] for v in x])
            if r is not None:
                return [(st, ('b', r) if isinstance(r, bool) else ('s', r) if isinstance(r, str) else r)]
        elif fn is not None and len(x) == 2 and x[0][0] == 's' and m.isint(x[1]):
            r = fn(x[0][1], chr(x[1][1]))
            if r is not None:
                return [(st, ('b', r) if isinstance(r, bool) else ('s', r) if isinstance(r, str) else r)]
        if name == 'repeat' and len(x) == 2 and m.isint(x[1]) and (x[1][1] == 0 or (x[0][0] == 's' and x[1][1] < 64)):
            return [(st, ('s', x[0][1] * x[1][1] if x[0][0] == 's' else ''))]
        return [(st, m.sym('str', name, tuple(x), ty=dty))]
    return f


def _at(i, a):
    m = M()
    return m.NONE if i < 0 else m.some(m.I(len(a[:i].encode())))


def _pair(p):
    m = M()
    return m.some(('T', (('s', p[0]), ('s', p[2])))) if p[1] else m.NONE


def _only(one, f):
    """where the pattern is one character"""
    return lambda a, b: f(a, b) if len(b) == 1 else None


for _n, _f in (('contains', lambda a, b: b in a), ('starts_with', lambda a, b: a.startswith(b)),
               ('ends_with', lambda a, b: a.endswith(b)), ('trim', lambda a: a.strip(' \t\r\n')), ('trim_left', None),
               ('trim_right_matches', _only(1, lambda a, b: a.rstrip(b))), ('trim_end_matches', _only(1, lambda a, b: a.rstrip(b))),
               ('trim_left_matches', _only(1, lambda a, b: a.lstrip(b))), ('trim_start_matches', _only(1, lambda a, b: a.lstrip(b))),
               ('find', lambda a, b: _at(a.find(b), a)), ('rfind', lambda a, b: _at(a.rfind(b), a)),
               ('split_once', lambda a, b: _pair(a.partition(b))),
               ('rsplit_once', lambda a, b: _pair(a.rpartition(b))),
               ('strip_suffix', lambda a, b: M().some(('s', a[:len(a) - len(b)])) if a.endswith(b) else M().NONE),
               ('eq_ignore_ascii_case', lambda a, b: a.lower() == b.lower() if a.isascii() and b.isascii() else None)):
    MODELS['core::str::<impl str>::' + _n] = strq(_n, _f)
for _n, _f in (('repeat', None), ('replace', lambda a, b, c: a.replace(b, c)), ('to_lowercase', None), ('to_uppercase', None)):
    MODELS['std::str::<impl str>::' + _n] = strq(_n, _f)


@model('core::str::<impl str>::strip_prefix')
def m_strip(I, st, a, fr, site, t, dty, g):
    m = M()
    s, p = I.norm(st, a[0]), I.norm(st, a[1])
    if m.isint(p):
        p = ('s', chr(p[1]))
    if s[0] == 's' and p[0] == 's':
        return [(st, m.some(('s', s[1][len(p[1]):])) if s[1].startswith(p[1]) else m.NONE)]
    return [(st, m.sym('strip_prefix', s, p, ty='std::option::Option<&str>'))]


# ---- reference counting, cells ----------------------------------------------------------
@model('std::rc::Weak::<T, A>::upgrade')
def m_upgrade(I, st, a, fr, site, t, dty, g):
    m = M()
    w = I.norm(st, a[0])
    if w[:2] == ('y', 'weak') and w[2][:2] == ('y', 'hp'):
        return [(st, m.some(('ref', ('H',) + w[2][2:], ())))]
    return [(st, m.sym('upgrade', w, ty='std::option::Option'))]


@model('std::rc::Rc::<T, A>::downgrade')
def m_downgrade(I, st, a, fr, site, t, dty, g):
    m = M()
    return [(st, m.sym('weak', ptrname(rcptr(I, st, a[0]))))]


@model('std::cell::Cell::<T>::get')
def m_cget(I, st, a, fr, site, t, dty, g):
    return [(st, I.deref(st, a[0]))]


@model('std::cell::Cell::<T>::set')
def m_cset(I, st, a, fr, site, t, dty, g):
    m = M()
    tgt = place(I, st, a[0])
    st.add(('cellset', I.norm(st, a[0]) if a[0][0] == 'y' else tgt[1:], I.norm(st, a[1]), I.P.short(t.get('sp')), fr.fn['path']))
    set_ref(I, st, a[0], a[1])
    return [(st, m.UNIT)]


@model('std::mem::drop', 'core::mem::drop')
def m_drop(I, st, a, fr, site, t, dty, g):
    return [(st, M().UNIT)]


@model('std::char::methods::<impl char>::encode_utf16')
def m_utf16(I, st, a, fr, site, t, dty, g):
    """one unit for a character of the basic plane, two surrogates that together are the character for any other"""
    m = M()
    ch = I.num(st, a[0])
    old = I.deref(st, a[1])
    old = I.norm(st, old)
    if old[0] != 'R' or len(old[1]) < 2:
        return None
    out = []
    s2 = st.fork()
    if s2.assume(m.le0(m.lsub(ch, m.I(0xFFFF)))):
        set_ref(I, s2, a[1], ('R', (ch,) + tuple(old[1][1:])))
        out.append((s2, m.sym('utf16', ch)))
    if st.assume(m.le0(m.lsub(m.I(0x10000), ch))):
        hi = m.sym('utf16hi', ch, nonneg=True)
        lo = m.ladd(m.lsub(ch, m.I(0x10000 - 0xDC00)), m.lmul(m.lsub(hi, m.I(0xD800)), -0x400))
        for l in (m.lsub(m.I(0xD800), hi), m.lsub(hi, m.I(0xDBFF)), m.lsub(m.I(0xDC00), lo), m.lsub(lo, m.I(0xDFFF)),
                  m.lsub(ch, m.I(0x10FFFF))):
            st.add_le(l)
        set_ref(I, st, a[1], ('R', (hi, lo) + tuple(old[1][2:])))
        out.append((st, m.sym('utf16', ch)))
    return out
