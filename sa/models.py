"""Transfer functions for the library functions the analysed crate calls (collections, iterators, integers,
options, cells of std that are implemented with raw pointers)."""
import re
from .terms import *
from .interp_base import *

USER = ('bvh_anim', 'bvh_roots')
SLICE_MAX = 2 ** 63 - 1
MEM = 2 ** 61


def npath(p):
    """canonical spelling of a library path"""
    return re.sub(r'\b(core|alloc)::', 'std::', p)


ENTER = re.compile(r'^(<(std::(option|result|ops|cmp|convert|clone|default|borrow|num|str|string|char|array)|&|\(|\[)'
                   r'|<[TUI] as std::(convert|borrow|iter::IntoIterator)'
                   r'|std::(option|result|ops|cmp|convert|clone|default|borrow|array)::'
                   r'|std::mem::(take|swap)|std::tuple|std::bool|std::hint)')


def view(ip, st, v):
    """(obj, path, start, len) of the sequence behind a reference (or None)"""
    v = st.f.norm(v)
    if v.k == 'sref':
        return v.a
    if v.k == 'ref':
        x = ip.read(st, v.a[0], v.a[1])
        path = v.a[1]
        for _ in range(3):
            if x.k == 'sym':
                x = ip.W.expand(x)
            if x.k == 'agg' and isinstance(x.a[0], int) and ip.W.adt(x.a[0]) in ('std::string::String', 'bstr::BString'):
                path = path + (('f', 0, 0),)
                x = x.a[2][0][1][0]
            elif x.k in ('sref', 'ref'):
                return view(ip, st, x)
            else:
                break
        if x.k == 'seq':
            return (v.a[0], path, ZERO, x.a[1])
    return None


def content(ip, st, vw):
    v = ip.read(st, vw[0], vw[1])
    if v.k != 'seq':
        return None
    return ip.seq_slice(st, v, vw[2], vw[3])


def seqval(ip, st, v):
    """the sequence behind a reference, or the sequence value itself"""
    if v.k == 'seq':
        return v
    if v.k == 'agg' and isinstance(v.a[0], int) and ip.W.adt(v.a[0]) == 'std::string::String':
        return seqval(ip, st, v.a[2][0][1][0])
    if v.k == 'sym':
        return seqval(ip, st, ip.W.expand(v)) if ip.W.expand(v).k != 'sym' else None
    vw = view(ip, st, v)
    return content(ip, st, vw) if vw else None


def setseq(ip, st, vw, s):
    """replace the whole owned sequence behind a view; what is stored fits in memory"""
    ip.write(st, vw[0], vw[1], s)
    held(ip, st, s)


def held(ip, st, s):
    """a collection that was grown element by element, or by elements that exist elsewhere, has found room in memory:
    at most MEM bytes.  (Running out of memory is not decided; asking for room for an unbounded number is.)"""
    if s.k == 'seq' and cval(s.a[1]) is None:
        c = ge0(sub(I(MEM // max(1, esize(ip.W, s.a[2]))), s.a[1]))
        if st.f.ent(c) is not True:
            st.f.assume(c)


def some(ip, dty, v):
    return ip.W.mkenum(dty, 1, (v,))


def none(ip, dty):
    return ip.W.mkenum(dty, 0, ())


def ok(ip, dty, v):
    return ip.W.mkenum(dty, 0, (v,))


def err(ip, dty, v):
    return ip.W.mkenum(dty, 1, (v,))


def opt_payload_ty(ip, dty):
    return ip.W.T[dty]['v'][1]['f'][0][1]


def fork(ip, st, c):
    """(state where c, state where not c), either may be None"""
    a = ip.assuming(st, c)
    b = ip.assuming(st, bnot(c))
    return a, b


def need(ip, st, fx, line, what, c):
    """the call panics unless c"""
    ip.panic_ob(st, fx, line, what, c)
    st.f.assume(c)


def unref(ip, st, v):
    return ip.deref(st, v) if v.k in ('ref', 'sref') else v


def esize(W, ty, d=0):
    t = W.T[ty]
    k = t['k']
    if k in ('int', 'uint'):
        return t['b'] // 8
    if k == 'float':
        return 4 if t['n'] == 'F32' else 8
    if k == 'bool':
        return 1
    return 64


# ------------------------------------------------------------------ ranges as indices
def rng(ip, st, idx, ln):
    """(start, end) of an index range, or None"""
    W = ip.W
    if idx.k in ('sym',):
        idx = W.expand(idx)
    if idx.k != 'agg' and idx.k != 'zst':
        return None
    if idx.k == 'zst':
        return (ZERO, ln) if W.adt(idx.a[0]) == 'std::ops::RangeFull' else None
    d = W.adt(idx.a[0]) if isinstance(idx.a[0], int) else None
    fs = idx.a[2][0][1] if idx.a[2] else ()
    if d == 'std::ops::Range':
        return fs[0], fs[1]
    if d == 'std::ops::RangeTo':
        return ZERO, fs[0]
    if d == 'std::ops::RangeFrom':
        return fs[0], ln
    if d == 'std::ops::RangeFull':
        return ZERO, ln
    if d == 'std::ops::RangeInclusive':
        return fs[0], add(fs[1], ONE)
    if d == 'std::ops::RangeToInclusive':
        return ZERO, add(fs[0], ONE)
    return None


def subview(vw, a, b):
    return SRef(vw[0], vw[1], add(vw[2], a), sub(b, a))


def elemref(vw, k):
    return Ref(vw[0], vw[1] + (('i', add(vw[2], k)),))


def m_index(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    k = st.f.norm(args[1])
    if k.k == 'lin':
        need(ip, st, fx, line, 'index', ge0(sub(sub(vw[3], k), ONE)))
        return elemref(vw, k)
    r = rng(ip, st, k, vw[3])
    if r is None:
        return None
    need(ip, st, fx, line, 'slice range', ge0(sub(r[1], r[0])))
    need(ip, st, fx, line, 'slice range', ge0(sub(vw[3], r[1])))
    return subview(vw, r[0], r[1])


def m_get(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    k = st.f.norm(args[1])
    if k.k == 'lin':
        c = ge0(sub(sub(vw[3], k), ONE))
        v = elemref(vw, k)
    else:
        r = rng(ip, st, k, vw[3])
        if r is None:
            return None
        c = band(ge0(sub(r[1], r[0])), ge0(sub(vw[3], r[1])))
        v = subview(vw, r[0], r[1])
    return forkopt(ip, st, c, dty, v)


def forkopt(ip, st, c, dty, v):
    a, b = fork2(ip, st, c)
    return [(x, some(ip, dty, v)) for x in a] + [(x, none(ip, dty)) for x in b]


def fork2(ip, st, c):
    """like fork, but a conjunction's negation is split"""
    r = st.f.ent(c)
    if r is True:
        return [st], []
    if r is False:
        return [], [st]
    return ip.cases(st, c), ip.cases(st, bnot(c))


def m_len(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    return vw[3] if vw else None


def m_is_empty(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    return eq0(vw[3]) if vw else None


def m_slice(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    return SRef(*vw) if vw else None


def m_ident(ip, st, fx, f, args, site, dty, line):
    return args[0]


def m_new_seq(ip, st, fx, f, args, site, dty, line):
    e = ip.W.seq_elem(dty)
    if e is None:
        if ip.W.adt(dty) == 'std::string::String':
            return Struct(dty, (SeqLit((), ip.W.U8),))
        return None
    return SeqLit((), e)


def m_with_capacity(ip, st, fx, f, args, site, dty, line):
    r = m_new_seq(ip, st, fx, f, args, site, dty, line)
    if r is None:
        return None
    e = ip.W.seq_elem(dty) if r.k == 'seq' else ip.W.U8
    need(ip, st, fx, line, 'capacity overflow', ge0(sub(I(SLICE_MAX // esize(ip.W, e)), args[0])))
    return r


def m_reserve(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    need(ip, st, fx, line, 'capacity overflow',
         ge0(sub(I(SLICE_MAX // esize(ip.W, s.a[2])), add(args[1], vw[3]))))
    return ip.W.unit()


def m_try_reserve(ip, st, fx, f, args, site, dty, line):
    return ip.fresh(('tr', site), dty)


def m_push(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    x = args[1]
    h = ip.watch.get('push')
    if h:
        h(ip, st, fx, f, vw, s, x, line)
    setseq(ip, st, vw, ip.seq_cat(s, SeqLit((x,), s.a[2])))
    return ip.W.unit()


def m_pop(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    a, b = fork(ip, st, ge0(sub(vw[3], ONE)))
    out = []
    if a is not None:
        s = ip.read(a, vw[0], vw[1])
        k = sub(vw[3], ONE)
        x = ip.seq_get(a, s, k)
        setseq(ip, a, vw, ip.seq_slice(a, s, ZERO, k))
        out.append((a, some(ip, dty, x)))
    if b is not None:
        out.append((b, none(ip, dty)))
    return out


def m_insert(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    need(ip, st, fx, line, 'insert index', ge0(sub(vw[3], args[1])))
    s = ip.read(st, vw[0], vw[1])
    setseq(ip, st, vw, ip.seq_splice(st, s, args[1], args[1], SeqLit((args[2],), s.a[2])))
    return ip.W.unit()


def m_remove(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    need(ip, st, fx, line, 'remove index', ge0(sub(sub(vw[3], args[1]), ONE)))
    s = ip.read(st, vw[0], vw[1])
    x = ip.seq_get(st, s, args[1])
    setseq(ip, st, vw, ip.seq_splice(st, s, args[1], add(args[1], ONE), SeqLit((), s.a[2])))
    return x


def m_clear(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    setseq(ip, st, vw, SeqLit((), s.a[2]))
    return ip.W.unit()


def m_truncate(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    a, b = fork(ip, st, ge0(sub(sub(vw[3], args[1]), ONE)))
    out = []
    if a is not None:
        s = ip.read(a, vw[0], vw[1])
        setseq(ip, a, vw, ip.seq_slice(a, s, ZERO, args[1]))
        out.append((a, ip.W.unit()))
    if b is not None:
        out.append((b, ip.W.unit()))
    return out


def m_set_len(ip, st, fx, f, args, site, dty, line):
    return None


def m_unit(ip, st, fx, f, args, site, dty, line):
    return ip.W.unit()


def m_capacity(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    c = lin_atom(('s', ('cap', site)), 0, SLICE_MAX)
    if vw:
        st.f.assume(ge0(sub(c, vw[3])))
    return c


def m_extend_slice(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    x = seqval(ip, st, args[1])
    if vw is None or x is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    setseq(ip, st, vw, ip.seq_cat(s, x))
    return ip.W.unit()


def m_vec_write(ip, st, fx, f, args, site, dty, line):
    """io::Write for a vector: takes everything, never fails"""
    n = f['path'].rsplit('::', 1)[1]
    if n == 'flush':
        return ok(ip, dty, ip.W.unit())
    x = seqval(ip, st, args[1])
    if x is None or m_extend_slice(ip, st, fx, f, args, site, dty, line) is None:
        return None
    return ok(ip, dty, ip.W.unit() if n == 'write_all' else x.a[1])


def m_to_vec(ip, st, fx, f, args, site, dty, line):
    x = seqval(ip, st, args[0])
    if x is None:
        return None
    if dty is not None and ip.W.adt(dty) == 'std::string::String':
        return Struct(dty, (x,))
    return x


def m_clone_deref(ip, st, fx, f, args, site, dty, line):
    v = ip.deref(st, args[0])
    return v if v is not TOP else None


def m_first(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    return forkopt(ip, st, ge0(sub(vw[3], ONE)), dty, elemref(vw, ZERO))


def m_last(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    return forkopt(ip, st, ge0(sub(vw[3], ONE)), dty, elemref(vw, sub(vw[3], ONE)))


def m_split_at(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    need(ip, st, fx, line, 'split_at', ge0(sub(vw[3], args[1])))
    return Struct(dty, (subview(vw, ZERO, args[1]), subview(vw, args[1], vw[3])))


def m_split_at_unchecked(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    return Struct(dty, (subview(vw, ZERO, args[1]), subview(vw, args[1], vw[3])))


def m_split_first(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    tt = opt_payload_ty(ip, dty)
    last = 'last' in f['path']
    if last:
        v = Struct(tt, (elemref(vw, sub(vw[3], ONE)), subview(vw, ZERO, sub(vw[3], ONE))))
    else:
        v = Struct(tt, (elemref(vw, ZERO), subview(vw, ONE, vw[3])))
    return forkopt(ip, st, ge0(sub(vw[3], ONE)), dty, v)


def m_swap(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    i, j = args[1], args[2]
    need(ip, st, fx, line, 'swap index', ge0(sub(sub(vw[3], i), ONE)))
    need(ip, st, fx, line, 'swap index', ge0(sub(sub(vw[3], j), ONE)))
    s = ip.read(st, vw[0], vw[1])
    if s.k != 'seq':
        return None
    a, b = add(vw[2], i), add(vw[2], j)
    x, y = ip.seq_get(st, s, a), ip.seq_get(st, s, b)
    s = ip.seq_set(st, s, a, y)
    s = ip.seq_set(st, s, b, x)
    ip.write(st, vw[0], vw[1], s)
    return ip.W.unit()


def m_copy_from_slice(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    x = seqval(ip, st, args[1])
    if vw is None or x is None:
        return None
    need(ip, st, fx, line, 'copy_from_slice lengths', eq0(sub(vw[3], x.a[1])))
    s = ip.read(st, vw[0], vw[1])
    ip.write(st, vw[0], vw[1], ip.seq_splice(st, s, vw[2], add(vw[2], vw[3]), x))
    return ip.W.unit()


def m_copy_within(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    r = rng(ip, st, args[1], vw[3])
    if r is None:
        return None
    n = sub(r[1], r[0])
    need(ip, st, fx, line, 'copy_within', ge0(n))
    need(ip, st, fx, line, 'copy_within', ge0(sub(vw[3], r[1])))
    need(ip, st, fx, line, 'copy_within', ge0(sub(sub(vw[3], n), args[2])))
    s = ip.read(st, vw[0], vw[1])
    x = ip.seq_slice(st, s, add(vw[2], r[0]), n)
    d = add(vw[2], args[2])
    ip.write(st, vw[0], vw[1], ip.seq_splice(st, s, d, add(d, n), x))
    return ip.W.unit()


def m_rotate(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    n = args[1]
    need(ip, st, fx, line, 'rotate', ge0(sub(vw[3], n)))
    s = ip.read(st, vw[0], vw[1])
    k = n if 'rotate_left' in f['path'] else sub(vw[3], n)
    a = ip.seq_slice(st, s, vw[2], k)
    b = ip.seq_slice(st, s, add(vw[2], k), sub(vw[3], k))
    ip.write(st, vw[0], vw[1], ip.seq_splice(st, s, vw[2], add(vw[2], vw[3]), ip.seq_cat(b, a)))
    return ip.W.unit()


def m_fill(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    ip.write(st, vw[0], vw[1], ip.seq_splice(st, s, vw[2], add(vw[2], vw[3]), ip.mkseq((mk('rep', args[1], vw[3]),), s.a[2])))
    return ip.W.unit()


def m_append(ip, st, fx, f, args, site, dty, line):
    a, b = view(ip, st, args[0]), view(ip, st, args[1])
    if a is None or b is None:
        return None
    s, x = ip.read(st, a[0], a[1]), ip.read(st, b[0], b[1])
    setseq(ip, st, a, ip.seq_cat(s, x))
    setseq(ip, st, b, SeqLit((), x.a[2]))
    return ip.W.unit()


def m_split_off(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    need(ip, st, fx, line, 'split_off', ge0(sub(vw[3], args[1])))
    s = ip.read(st, vw[0], vw[1])
    setseq(ip, st, vw, ip.seq_slice(st, s, ZERO, args[1]))
    return ip.seq_slice(st, s, args[1], sub(vw[3], args[1]))


def m_resize(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    out = []
    n = args[1]
    a, b = fork(ip, st, ge0(sub(sub(vw[3], n), ONE)))
    if a is not None:
        s = ip.read(a, vw[0], vw[1])
        setseq(ip, a, vw, ip.seq_slice(a, s, ZERO, n))
        out.append((a, ip.W.unit()))
    if b is not None:
        s = ip.read(b, vw[0], vw[1])
        ip.panic_ob(b, fx, line, 'capacity overflow', ge0(sub(I(SLICE_MAX // esize(ip.W, s.a[2])), n)))
        k = sub(n, vw[3])
        if 'resize_with' in f['path']:
            v = ip.W.symval(('rw', site), s.a[2])
            rs = ip.call_closure(b, fx, args[2], [], site, s.a[2], line)
            if len(rs) == 1:
                b, v = rs[0]
        else:
            v = args[2]
        setseq(ip, b, vw, ip.seq_cat(s, ip.mkseq((mk('rep', v, k),), s.a[2])))
        out.append((b, ip.W.unit()))
    return out


def m_from_elem(ip, st, fx, f, args, site, dty, line):
    need(ip, st, fx, line, 'capacity overflow',
         ge0(sub(I(SLICE_MAX // esize(ip.W, ip.W.seq_elem(dty))), args[1])))
    return ip.mkseq((mk('rep', args[0], args[1]),), ip.W.seq_elem(dty))


def m_drain(ip, st, fx, f, args, site, dty, line):
    """removal happens when the iterator is dropped; every use in reach drops it, so it is applied at once"""
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    r = rng(ip, st, args[1], vw[3])
    if r is None:
        return None
    need(ip, st, fx, line, 'drain range', ge0(sub(r[1], r[0])))
    need(ip, st, fx, line, 'drain range', ge0(sub(vw[3], r[1])))
    s = ip.read(st, vw[0], vw[1])
    x = ip.seq_slice(st, s, r[0], sub(r[1], r[0]))
    setseq(ip, st, vw, ip.seq_splice(st, s, r[0], r[1], SeqLit((), s.a[2])))
    return Struct(dty, (x,))


def m_splice(ip, st, fx, f, args, site, dty, line):
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    r = rng(ip, st, args[1], vw[3])
    if r is None:
        return None
    need(ip, st, fx, line, 'splice range', ge0(sub(r[1], r[0])))
    need(ip, st, fx, line, 'splice range', ge0(sub(vw[3], r[1])))
    out = []
    ety = ip.read(st, vw[0], vw[1]).a[2]
    for s2, x in collect_seq(ip, st, fx, args[2], ety, site, line):
        s = ip.read(s2, vw[0], vw[1])
        y = ip.seq_slice(s2, s, r[0], sub(r[1], r[0]))
        setseq(ip, s2, vw, ip.seq_splice(s2, s, r[0], r[1], x))
        out.append((s2, Struct(dty, (y,))))
    return out


def m_retain(ip, st, fx, f, args, site, dty, line):
    """elements kept are those for which the predicate holds.  The predicate is abstracted per element by running
    it in a loop; the removed positions are reported exactly when they form an interval the facts determine."""
    vw = view(ip, st, args[0])
    if vw is None:
        return None
    s = ip.read(st, vw[0], vw[1])
    n = vw[3]
    it = OBJ('t', site, 'ret')
    clo = OBJ('t', site, 'retf')
    st.mem[it] = ZERO
    st.mem[clo] = args[1] if args[1].k not in ('ref',) else args[1]
    kept, gone = [], []
    W = ip.W

    def step(x):
        i = ip.load(x, it)
        go, stop = fork(ip, x, ge0(sub(sub(n, i), ONE)))
        ex = [(stop, None)] if stop is not None else []
        bk = []
        if go is not None:
            c = go.mem[clo]
            recv = c if c.k == 'ref' else Ref(clo)
            for y, v in ip.call_closure(go, fx, recv, [elemref(vw, i)], site + ('p',), W.BOOL, line):
                if not is_bool(v):
                    v = batom(('ret', site, i))
                for val, z in [(q, z) for q in (True, False) for z in ip.cases(y, v if q else bnot(v))]:
                    (kept if val else gone).append((z.copy(), i))
                    z.mem[it] = add(i, ONE)
                    bk.append(z)
        return ex, bk
    def clear():
        del kept[:]
        del gone[:]
    ex = ip.pyloop((site, 'retain'), [st], lambda x: step(x), fx)
    # facts about the positions: candidate bounds are terms over the state before the loop
    lo, hi = retain_interval(ip, st, kept, gone, n)
    out = []
    for x, _ in ex:
        x.mem.pop(it, None)
        x.mem.pop(clo, None)
        if not gone:
            out.append((x, W.unit()))
            continue
        if lo is not None:
            a, b = fork(ip, x, ge0(sub(n, lo)))
            for y in (a, b):
                if y is None:
                    continue
                l2 = lo if y is a else n
                c, d = fork(ip, y, ge0(sub(n, hi)))
                for z in (c, d):
                    if z is None:
                        continue
                    h2 = hi if z is c else n
                    if z.f.ent_ge(sub(h2, l2)):
                        setseq(ip, z, vw, ip.seq_splice(z, s, l2, h2, SeqLit((), s.a[2])))
                        out.append((z, W.unit()))
                    else:
                        e, g = fork(ip, z, ge0(sub(h2, l2)))
                        if e is not None:
                            setseq(ip, e, vw, ip.seq_splice(e, s, l2, h2, SeqLit((), s.a[2])))
                            out.append((e, W.unit()))
                        if g is not None:
                            out.append((g, W.unit()))
        else:
            L = lin_atom(('len', ('retain', site)), 0, SLICE_MAX)
            x.f.assume(ge0(sub(n, L)))
            setseq(ip, x, vw, SeqOp(('retain', site), s.a[2], L))
            out.append((x, W.unit()))
    return out


def retain_interval(ip, st, kept, gone, n):
    """(lo, hi) such that an element is removed iff lo <= position < hi, or (None, None)"""
    if not gone:
        return None, None
    cands = [ZERO, n]
    for z, i in gone + kept:
        iv = [a for a, _ in i.a[1]]
        for g in list(z.f.ge):
            for a in iv:
                d = dict(g.a[1])
                c = d.get(a)
                if c in (1, -1):
                    # c*i' + rest >= 0
                    rest = sub(g, of_atom(a, c))
                    t = scale(rest, -c)           # i' >= t   or  i' <= t
                    off = sub(i, of_atom(a))
                    t = add(t, off)
                    for q in (t, add(t, ONE)):
                        if not any(x in atoms_of(q) for x in iv) and q not in cands:
                            cands.append(q)
        for a, v in z.f.sub.items():
            if a in iv:
                q = add(v, sub(i, of_atom(a)))
                for w in (q, add(q, ONE)):
                    if w not in cands:
                        cands.append(w)
    for lo in cands:
        if not all(z.f.ent_ge(sub(i, lo)) for z, i in gone):
            continue
        for hi in cands:
            if not all(z.f.ent_ge(sub(sub(hi, i), ONE)) for z, i in gone):
                continue
            if all(z.f.ent_ge(sub(sub(lo, i), ONE)) or z.f.ent_ge(sub(i, hi)) for z, i in kept):
                return lo, hi
    return None, None


def bseq(ip, st, a, b):
    r = ip.seq_eq(st, a, b)
    if r is not None:
        return B(r)
    n = cval(st.f.norm(a.a[1]))
    if n is None:
        n = cval(st.f.norm(b.a[1]))
    if n is not None and n <= 40:
        cs = [eq0(sub(a.a[1], b.a[1]))]
        for i in range(n):
            x, y = ip.seq_get(st, a, I(i)), ip.seq_get(st, b, I(i))
            if x.k == 'lin' and y.k == 'lin':
                cs.append(eq0(sub(x, y)))
            elif x is not y:
                cs.append(ip.cmp(st, 'Eq', x, y, None))
        return band(*cs)
    x, y = st.f.norm(a), st.f.norm(b)
    if x.uid > y.uid:
        x, y = y, x
    return batom(('seqeq', x, y))


def m_seq_eq(ip, st, fx, f, args, site, dty, line):
    a, b = args
    for _ in range(2):
        if a.k == 'ref' and ip.deref(st, a).k in ('ref', 'sref'):
            a = ip.deref(st, a)
        if b.k == 'ref' and ip.deref(st, b).k in ('ref', 'sref'):
            b = ip.deref(st, b)
    x, y = seqval(ip, st, a), seqval(ip, st, b)
    if x is None or y is None:
        return None
    r = bseq(ip, st, x, y)
    return bnot(r) if f['path'].endswith('::ne') else r


def m_eq_nocase(ip, st, fx, f, args, site, dty, line):
    x, y = seqval(ip, st, args[0]), seqval(ip, st, args[1])
    if x is None or y is None:
        return None
    r = ip.seq_eq(st, x, y)
    return B(True) if r is True else batom(('eqnocase', x, y))


def m_starts_with(ip, st, fx, f, args, site, dty, line):
    x, y = seqval(ip, st, args[0]), seqval(ip, st, args[1])
    if x is None or y is None:
        return None
    n = cval(y.a[1])
    if n is None:
        return batom(('sw', x, y))
    cs = [ge0(sub(x.a[1], y.a[1]))]
    for i in range(n):
        p = I(i) if 'starts' in f['path'] else add(sub(x.a[1], y.a[1]), I(i))
        cs.append(eq0(sub(ip.seq_get(st, x, p), ip.seq_get(st, y, I(i)))))
    return band(*cs)


def m_join(ip, st, fx, f, args, site, dty, line):
    x = seqval(ip, st, args[0])
    if x is None:
        return None
    n = cval(st.f.norm(x.a[1]))
    e = ip.W.seq_elem(dty) if ip.W.adt(dty) != 'std::string::String' else ip.W.U8
    sep = seqval(ip, st, args[1]) if len(args) > 1 and args[1].k in ('ref', 'sref') else None
    if len(args) > 1 and sep is None:
        sep = SeqLit((args[1],), e)
    if n is None or n > 32:
        if sep is None:
            sep = SeqLit((), e)
        x, sep = st.f.norm(x), st.f.norm(sep)
        key = ('join', x, sep)
        if x.k != 'seq' or any(s.k == 'summ' and s.a[0] is TOP for s in x.a[0]):
            return None
        acc = ip.mkseq((mk('txt', key, lin_atom(('tlen', key), 0, 2 ** 60)),), e)
        return Struct(dty, (acc,)) if ip.W.adt(dty) == 'std::string::String' else acc
    acc = SeqLit((), e)
    for i in range(n):
        p = ip.seq_get(st, x, I(i))
        q = seqval(ip, st, p)
        if q is None:
            return None
        if i and sep is not None:
            acc = ip.seq_cat(acc, sep)
        acc = ip.seq_cat(acc, q)
    if ip.W.adt(dty) == 'std::string::String':
        return Struct(dty, (acc,))
    return acc


def m_repeat_seq(ip, st, fx, f, args, site, dty, line):
    """[T]::repeat / str::repeat"""
    x = seqval(ip, st, args[0])
    if x is None:
        return None
    n = args[1]
    one = cval(st.f.norm(x.a[1]))
    u = None
    if one == 1:
        u = ip.mkseq((mk('rep', ip.seq_get(st, x, ZERO), n),), x.a[2])
        ip.panic_ob(st, fx, line, 'capacity overflow', ge0(sub(I(SLICE_MAX), n)))
    elif cval(n) is not None and cval(n) < 16:
        u = SeqLit((), x.a[2])
        for _ in range(cval(n)):
            u = ip.seq_cat(u, x)
    else:
        L = mul(x.a[1], n)
        ip.panic_ob(st, fx, line, 'capacity overflow', ge0(sub(I(SLICE_MAX), L)))
        u = ip.mkseq((mk('txt', ('repeat', x, n), L),), x.a[2])
    if dty is not None and ip.W.adt(dty) == 'std::string::String':
        return Struct(dty, (u,))
    return u


# ------------------------------------------------------------------ integers
def ity(ip, dty):
    r = ip.trange(dty)
    return r


def m_checked(ip, st, fx, f, args, site, dty, line):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}.get(f['path'].rsplit('checked_', 1)[1])
    if op is None:
        return None
    t = opt_payload_ty(ip, dty)
    rg = ip.trange(t)
    x, y = args
    if x.k != 'lin' or y.k != 'lin' or rg is None:
        return None
    if op in ('Div', 'Rem'):
        a, b = fork(ip, st, eq0(y))
        out = []
        if a is not None:
            out.append((a, none(ip, dty)))
        if b is not None:
            out.append((b, some(ip, dty, ip.binop(b, fx, op, x, y, t, site))))
        return out
    r = ip.arith(st, op, x, y)
    out = []
    c = band(ge0(sub(r, I(rg[0]))), ge0(sub(I(rg[1]), r)))
    a, bs = fork2(ip, st, c)
    return [(s, some(ip, dty, r)) for s in a] + [(s, none(ip, dty)) for s in bs]


SATURATED = OBJ('g', 'saturated')     # kept apart where a check asks for it


def m_saturating(ip, st, fx, f, args, site, dty, line):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(f['path'].rsplit('saturating_', 1)[1])
    rg = ip.trange(dty)
    x, y = args
    if op is None or x.k != 'lin' or y.k != 'lin' or rg is None:
        return None
    r = ip.arith(st, op, x, y)
    lo, s = fork(ip, st, ge0(sub(I(rg[0] - 1), r)))
    out = []
    if lo is not None:
        out.append((lo, I(rg[0])))
    if s is not None:
        hi, m = fork(ip, s, ge0(sub(r, I(rg[1] + 1))))
        if hi is not None:
            if SATURATED in hi.mem:
                hi.mem[SATURATED] = TRUE
            out.append((hi, I(rg[1])))
        if m is not None:
            out.append((m, r))
    return out


def m_wrapping(ip, st, fx, f, args, site, dty, line):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(f['path'].rsplit('wrapping_', 1)[1])
    if op is None:
        return None
    return ip.binop(st, fx, op, args[0], args[1], dty, site)


def m_minmax(ip, st, fx, f, args, site, dty, line):
    x, y = args
    if x.k != 'lin' or y.k != 'lin':
        return None
    mn = f['path'].endswith('min')
    a, b = fork(ip, st, ge0(sub(y, x)))
    out = []
    if a is not None:
        out.append((a, x if mn else y))
    if b is not None:
        out.append((b, y if mn else x))
    return out


def m_clamp(ip, st, fx, f, args, site, dty, line):
    x, lo, hi = args
    if x.k != 'lin':
        return None
    need(ip, st, fx, line, 'clamp', ge0(sub(hi, lo)))
    out = []
    a, s = fork(ip, st, ge0(sub(lo, x)))
    if a is not None:
        out.append((a, lo))
    if s is not None:
        b, c = fork(ip, s, ge0(sub(x, hi)))
        if b is not None:
            out.append((b, hi))
        if c is not None:
            out.append((c, x))
    return out


def m_nz_new(ip, st, fx, f, args, site, dty, line):
    a, b = fork(ip, st, ne0(args[0]))
    out = []
    if a is not None:
        out.append((a, some(ip, dty, args[0])))
    if b is not None:
        out.append((b, none(ip, dty)))
    return out


def m_int_eq(ip, st, fx, f, args, site, dty, line):
    x, y = unref(ip, st, args[0]), unref(ip, st, args[1])
    x, y = unref(ip, st, x), unref(ip, st, y)
    if x.k not in ('lin', 'fl') and not is_bool(x) or y.k not in ('lin', 'fl') and not is_bool(y):
        return None
    r = ip.cmp(st, 'Eq', x, y, site)
    return bnot(r) if f['path'].endswith('::ne') else r


# ------------------------------------------------------------------ cells
def m_replace(ip, st, fx, f, args, site, dty, line):
    old = ip.deref(st, args[0])
    if old is TOP or not ip.store(st, args[0], args[1]):
        return None
    return old


def m_swapmem(ip, st, fx, f, args, site, dty, line):
    a, b = ip.deref(st, args[0]), ip.deref(st, args[1])
    if a is TOP or b is TOP:
        return None
    ip.store(st, args[0], b)
    ip.store(st, args[1], a)
    return ip.W.unit()


def m_take(ip, st, fx, f, args, site, dty, line):
    old = ip.deref(st, args[0])
    if old.k == 'seq':
        ip.store(st, args[0], SeqLit((), old.a[2]))
        return old
    return None


def m_default(ip, st, fx, f, args, site, dty, line):
    t = ip.W.T[dty]
    if ip.W.seq_elem(dty) is not None:
        return SeqLit((), ip.W.seq_elem(dty))
    if t['k'] in ('int', 'uint'):
        return ZERO
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'float':
        return fl(('c', '0'))
    return None


def m_panic(ip, st, fx, f, args, site, dty, line):
    ip.panic_ob(st, fx, line, 'panic', FALSE)
    raise Dead()


def m_contains_range(ip, st, fx, f, args, site, dty, line):
    r = unref(ip, st, args[0])
    if r.k == 'sym':
        r = ip.W.expand(r)
    x = unref(ip, st, args[1])
    q = rng(ip, st, r, I(U64MAX))
    if q is None or x.k != 'lin':
        return None
    return band(ge0(sub(x, q[0])), ge0(sub(sub(q[1], x), ONE)))


def m_contains(ip, st, fx, f, args, site, dty, line):
    x = seqval(ip, st, args[0])
    if x is None:
        return None
    return batom(('contains', x, unref(ip, st, args[1])))


from .iters import *     # noqa: E402  (iterator models use the helpers above)
from . import iters as _it


class Models:
    def __init__(self, W):
        self.W = W
        self.cache = {}
        self.tab = {}
        self.rx = []
        self._fill()

    def add(self, pat, m):
        if not any(c in pat for c in '^$\\('):
            self.tab[pat] = m
        else:
            self.rx.append((re.compile(pat), m))

    def lookup(self, f):
        k = f['path']
        if k in self.cache:
            return self.cache[k]
        r = None
        if f['crate'] not in USER or k.startswith('opaque') or '::opaque_' in k:
            p = npath(k)
            r = self.tab.get(p)
            if r is None:
                for rx, m in self.rx:
                    if rx.search(p):
                        r = m
                        break
        self.cache[k] = r
        return r

    def enter(self, f):
        return ENTER.match(npath(f['path'])) is not None

    def _fill(self):
        A = self.add
        V = r'^(std::vec::Vec::<.*>|std::slice::<impl \[T\]>|smallvec::SmallVec::<.*>|std::string::String|std::str::<impl str>|std::array::<impl \[T; N\]>|bstr::BStr)::'
        for names, m in (
                ('new', m_new_seq), ('with_capacity', m_with_capacity), ('len', m_len), ('is_empty', m_is_empty),
                ('as_slice|as_mut_slice|as_bytes|as_str|as_ref|as_mut|as_bytes_mut', m_slice),
                ('push', m_push), ('pop', m_pop), ('insert', m_insert), ('remove', m_remove), ('clear', m_clear),
                ('truncate', m_truncate), ('reserve|reserve_exact', m_reserve), ('try_reserve|try_reserve_exact', m_try_reserve),
                ('shrink_to_fit|shrink_to', m_unit), ('capacity', m_capacity),
                ('extend_from_slice|push_str', m_extend_slice), ('to_vec|to_owned|into_vec|into_boxed_slice', m_to_vec),
                ('get|get_mut', m_get), ('get_unchecked|get_unchecked_mut', m_index),
                ('first|first_mut', m_first), ('last|last_mut', m_last),
                ('split_at|split_at_mut', m_split_at), ('split_at_unchecked|split_at_mut_unchecked', m_split_at_unchecked),
                ('split_first|split_last|split_first_mut|split_last_mut', m_split_first),
                ('swap', m_swap), ('copy_from_slice|clone_from_slice', m_copy_from_slice), ('copy_within', m_copy_within),
                ('rotate_left|rotate_right', m_rotate), ('fill', m_fill), ('append', m_append), ('split_off', m_split_off),
                ('resize|resize_with', m_resize), ('drain', m_drain), ('splice', m_splice), ('retain', m_retain),
                ('join|concat', m_join), ('repeat', m_repeat_seq), ('starts_with|ends_with', m_starts_with),
                ('contains', m_contains),
                ('into_bytes', lambda ip, st, fx, f, a, site, dty, line: seqval(ip, st, a[0])),
                ('iter|iter_mut', _it.m_slice_iter), ('chunks_exact|chunks_exact_mut', _it.m_chunks_exact),
                ('into_iter', _it.m_into_iter)):
            A(V + '(%s)$' % names, m)
        A('std::vec::from_elem', m_from_elem)
        A(r'<impl (\[u8\]|str)>::eq_ignore_ascii_case$', m_eq_nocase)
        COLL = r'(std::vec::Vec<.*>|smallvec::SmallVec<.*>|std::string::String|str|\[T\]|\[.*\]|bstr::BStr)'
        A(r'^<%s as std::ops::(Deref|DerefMut)>::deref(_mut)?$' % COLL, m_slice)
        A(r'::<impl std::ops::(Deref|DerefMut) for bstr::BStr>::deref(_mut)?$', m_slice)
        A(r'^<%s as std::convert::(AsRef|AsMut)<.*>>::as_(ref|mut)$' % COLL, m_slice)
        A(r'<impl std::convert::AsRef<\[u8\]> for str>::as_ref$', m_slice)
        A(r'^<%s as std::borrow::(Borrow|BorrowMut)<.*>>::borrow(_mut)?$' % COLL, m_slice)
        A(r'^<\[u8\] as bstr::ByteSlice>::as_bytes$', m_slice)
        A(r'^<%s as std::ops::(Index|IndexMut)<.*>>::index(_mut)?$' % COLL, m_index)
        A(r'<impl std::ops::(Index|IndexMut)<.*> for .*>::index(_mut)?$', m_index)
        A(r'^<%s as std::clone::Clone>::clone$' % COLL, m_clone_deref)
        A(r'^<(std::time::Duration|f32|f64|usize|bool|char) as std::clone::Clone>::clone$', m_clone_deref)
        A(r'<impl std::clone::Clone for (f32|f64|usize|u8|u16|u32|u64|i32|i64|bool|char|&T)>::clone$', m_clone_deref)
        A(r'^<%s as std::default::Default>::default$' % COLL, m_default)
        A(r'<impl std::default::Default for .*>::default$', m_default)
        A(r'^<(f32|f64|bool|char|[ui](8|16|32|64|size|128)) as std::default::Default>::default$', m_default)
        A(r'<impl std::io::Write for std::vec::Vec<u8(, A)?>>::(write|write_all|flush)$', m_vec_write)
        A(r'^<.* as std::cmp::PartialEq(<.*>)?>::(eq|ne)$', m_eq_any)
        A(r'<impl std::cmp::PartialEq(<.*>)? for .*>::(eq|ne)$', m_eq_any)
        A(r'^std::cmp::PartialEq::ne$', m_ne_default)
        A(r'^<(std::time::Duration|usize|u8|u16|u32|u64|i32|i64) as std::cmp::(PartialOrd|Ord|PartialEq)(<.*>)?>::(partial_cmp|cmp|lt|le|gt|ge|eq|ne)$', m_order)
        A(r'^std::cmp::impls::<impl std::cmp::(PartialOrd|Ord)(<.*>)? for \w+>::(partial_cmp|cmp|lt|le|gt|ge)$', m_order)
        A(r'SlicePartialEq.*::equal$', m_seq_eq)
        A(r'^<%s as std::iter::Extend<.*>>::extend$' % COLL, _it.m_extend)
        NUM = r'^std::num::<impl [ui](8|16|32|64|size|128)>::'
        A(NUM + 'checked_(add|sub|mul|div|rem)$', m_checked)
        A(NUM + 'saturating_(add|sub|mul)$', m_saturating)
        A(NUM + 'wrapping_(add|sub|mul)$', m_wrapping)
        A(r'^std::cmp::(min|max)$', m_minmax)
        A(r'^(std::cmp::Ord::|<(usize|u8|u16|u32|u64|i32|i64) as std::cmp::Ord>::|std::cmp::impls::<impl std::cmp::Ord for \w+>::)(min|max)$', m_minmax)
        A(r'(std::cmp::Ord::|std::cmp::impls::<impl std::cmp::Ord for \w+>::)clamp$', m_clamp)
        A(r'^std::num::NonZero::<.*>::new$', m_nz_new)
        A(r'^std::num::NonZero::<.*>::(get|new_unchecked)$', m_ident)
        A('std::mem::replace', m_replace)
        A('std::mem::swap', m_swapmem)
        A('std::mem::take', m_take)
        A(r'^std::mem::(drop|forget)$', m_unit)
        A('<T as std::convert::From<T>>::from', m_ident)
        A('<I as std::iter::IntoIterator>::into_iter', m_ident)
        A('std::hint::must_use', m_ident)
        A('std::hint::black_box', m_ident)
        A(r'^std::ops::Range(Inclusive|From|To|ToInclusive)?::<.*>::contains$', m_contains_range)
        A(r'^std::(panicking|rt)::.*', m_panic)
        A(r'^std::(option|result)::(unwrap_failed|expect_failed)$', m_panic)
        A(r'^std::slice::index::slice_.*fail', m_panic)
        A(r'^std::(process::(exit|abort)|intrinsics::abort)$', m_panic)
        A(r'^std::intrinsics::(assume|cold_path)$', m_unit)
        _it.fill(A)
        from . import textio
        textio.fill(A)


def m_eq_any(ip, st, fx, f, args, site, dty, line):
    r = m_seq_eq(ip, st, fx, f, args, site, dty, line)
    if r is not None:
        return r
    r = m_int_eq(ip, st, fx, f, args, site, dty, line)
    if r is not None:
        return r
    return fieldless_eq(ip, st, f, args)


def fieldless_eq(ip, st, f, args):
    """equality of two values of a library enum without fields"""
    ds = []
    for i, a in enumerate(args[:2]):
        v = a
        for _ in range(3):
            if v.k in ('ref', 'sref'):
                v = unref(ip, st, v)
        v = st.f.norm(v)
        if v.k == 'sym':
            t = ip.W.T[v.a[1]]
            if t['k'] != 'enum' or any(x['f'] for x in t['v']):
                return None
            v = ip.W.expand(v)
        if v.k != 'agg' or any(fs for _, fs in v.a[2]):
            return None
        ds.append(v.a[1])
    r = eq0(sub(*ds))
    return bnot(r) if f['path'].endswith('::ne') else r


def quantity(ip, st, v):
    """the number an ordered value stands for, or None"""
    v = unref(ip, st, v) if v.k in ('ref', 'sref') else v
    for _ in range(3):
        if v.k == 'ref':
            v = unref(ip, st, v)
    if v.k == 'lin':
        return v
    if v.k == 'sym' and (ip.W.adt(v.a[1]) or '').endswith('time::Duration'):
        i = v.a[0]
        if isinstance(i, Obj) and i.k == 'el' and i.a[0] == 'secs' and cval(i.a[1]) is not None:
            return I(cval(i.a[1]) * 10 ** 9)
        return lin_atom(('nanos', v), 0, 2 ** 94)
    return None


def m_order(ip, st, fx, f, args, site, dty, line):
    n = f['path'].rsplit('::', 1)[1]
    x, y = quantity(ip, st, args[0]), quantity(ip, st, args[1])
    if x is None or y is None:
        return None
    d = sub(x, y)
    if n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return {'lt': ge0(add(neg(d), I(-1))), 'le': ge0(neg(d)), 'gt': ge0(add(d, I(-1))), 'ge': ge0(d), 'eq': eq0(d),
                'ne': bnot(eq0(d))}[n]
    W = ip.W
    oty = W.T[dty]['v'][1]['f'][0][1] if n == 'partial_cmp' else dty
    out = []
    for c, want in ((ge0(add(neg(d), I(-1))), 'Less'), (eq0(d), 'Equal'), (ge0(add(d, I(-1))), 'Greater')):
        s = ip.assuming(st, c)
        if s is None:
            continue
        vi = [v['n'].split('::')[-1] for v in W.T[oty]['v']].index(want)
        o = W.mkenum(oty, vi, ())
        out.append((s, some(ip, dty, o) if n == 'partial_cmp' else o))
    return out


def m_ne_default(ip, st, fx, f, args, site, dty, line):
    """PartialEq::ne default: run the type's own eq and negate"""
    r = m_eq_any(ip, st, fx, f, args, site, dty, line)
    if r is not None:
        return r
    return None
