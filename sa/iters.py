"""Iterator transfer functions: adapters are structural values, consumers are loops solved to a fixpoint."""
import re
from .terms import *
from .interp_base import *


def _m():
    from . import models
    return models


def m_slice_iter(ip, st, fx, f, args, site, dty, line):
    vw = _m().view(ip, st, args[0])
    return SRef(*vw) if vw else None


def m_chunks_exact(ip, st, fx, f, args, site, dty, line):
    M = _m()
    vw = M.view(ip, st, args[0])
    if vw is None:
        return None
    n = st.f.norm(args[1])
    M.need(ip, st, fx, line, 'chunk size', ge0(sub(n, ONE)))
    W = ip.W
    q = ip.intdiv(st, vw[3], n)
    full = mul(q, n)
    d = {'v': M.subview(vw, ZERO, full), 'rem': M.subview(vw, full, vw[3]), 'chunk_size': n}
    t = W.T[dty]
    return Struct(dty, [d.get(nm, W.unit()) for nm, _ in t['v'][0]['f']])


def m_into_iter(ip, st, fx, f, args, site, dty, line):
    M = _m()
    v = st.f.norm(args[0])
    if v.k == 'sref':
        return v
    if v.k == 'ref':
        x = ip.deref(st, v)
        if x.k == 'sym':
            x = ip.W.expand(x)
        if x.k == 'seq':
            return SRef(*M.view(ip, st, v))
        if x.k in ('agg',) and isinstance(x.a[0], int) and ip.W.adt(x.a[0]) == 'std::option::Option':
            return None
        if dty is not None and ip.W.T[dty]['k'] == 'ref':
            return v      # &mut I as an iterator
        return None
    if v.k == 'seq':
        if dty is not None and ip.W.T[dty]['k'] == 'struct':
            return Struct(dty, (v,))
        return v
    if v.k == 'agg' and dty is not None and isinstance(v.a[0], int) and ip.W.adt(v.a[0]) == 'std::option::Option':
        return Struct(dty, (v,))
    if v.k in ('agg', 'sym') and dty is not None:
        t = v.a[0] if v.k == 'agg' else v.a[1]
        if t == dty:
            return v
    return None


# ------------------------------------------------------------------ one step of any iterator
def tyname(ip, v):
    if v.k == 'agg' and isinstance(v.a[0], int):
        return ip.W.adt(v.a[0]) or ip.W.T[v.a[0]]['k']
    if v.k == 'sym':
        return ip.W.adt(v.a[1]) or ip.W.T[v.a[1]]['k']
    return v.k


def next_item(ip, st, fx, it, site, line, back=False):
    """advance the iterator stored behind the reference `it` -> [(state, item or None)]; None when not modelled"""
    v = st.f.norm(ip.deref(st, it))
    M = _m()
    if v.k == 'sym':
        v = ip.W.expand(v)
    if v.k == 'sref':
        o, p, s, n = v.a
        a, b = M.fork(ip, st, ge0(sub(n, ONE)))
        out = []
        if a is not None:
            if back:
                ip.store2(a, it, SRef(o, p, s, sub(n, ONE)))
                out.append((a, Ref(o, p + (('i', add(s, sub(n, ONE))),))))
            else:
                ip.store2(a, it, SRef(o, p, add(s, ONE), sub(n, ONE)))
                out.append((a, Ref(o, p + (('i', s),))))
        if b is not None:
            out.append((b, None))
        return out
    if v.k == 'ref':
        return next_item(ip, st, fx, v, site, line, back)
    if v.k != 'agg' or not isinstance(v.a[0], int):
        return None
    ty = v.a[0]
    d = ip.W.adt(ty) or ''
    fs = v.a[2][0][1] if v.a[2] else ()
    b = it.a

    def sub_(j):
        return Ref(b[0], b[1] + (('f', 0, j),))

    def put(s, j, x):
        ip.write(s, b[0], b[1] + (('f', 0, j),), x)
    W = ip.W
    if d in ('std::iter::Copied', 'std::iter::Cloned'):
        rs = next_item(ip, st, fx, sub_(0), site, line, back)
        if rs is None:
            return None
        return [(s, None if x is None else ip.deref(s, x)) for s, x in rs]
    if d == 'std::iter::Map':
        rs = next_item(ip, st, fx, sub_(0), site + ('m',), line, back)
        if rs is None:
            return None
        out = []
        rt = closure_ret(ip, fs[1])
        for s, x in rs:
            if x is None:
                out.append((s, None))
            else:
                out.extend(ip.call_closure(s, fx, sub_(1), [x], site + ('mc',), rt, line))
        return out
    if d == 'std::iter::Enumerate' and not back:
        rs = next_item(ip, st, fx, sub_(0), site + ('e',), line, back)
        if rs is None:
            return None
        out = []
        for s, x in rs:
            if x is None:
                out.append((s, None))
            else:
                k = ip.read(s, b[0], b[1] + (('f', 0, 1),))
                put(s, 1, add(k, ONE))
                out.append((s, Struct(tuple_ty(ip), (k, x))))
        return out
    if d == 'std::iter::Enumerate' and back:
        n = iter_len(ip, st, sub_(0))
        if n is None:
            return None
        k = fs[1]
        rs = next_item(ip, st, fx, sub_(0), site + ('e',), line, back)
        if rs is None:
            return None
        return [(s, None if x is None else Struct(tuple_ty(ip), (add(k, sub(n, ONE)), x))) for s, x in rs]
    if d == 'std::iter::Rev':
        return next_item(ip, st, fx, sub_(0), site + ('r',), line, not back)
    if d == 'std::iter::Zip' and not back:
        rs = next_item(ip, st, fx, sub_(0), site + ('z0',), line)
        if rs is None:
            return None
        out = []
        for s, x in rs:
            if x is None:
                out.append((s, None))
                continue
            q = next_item(ip, s, fx, sub_(1), site + ('z1',), line)
            if q is None:
                return None
            for s2, y in q:
                out.append((s2, None if y is None else Struct(tuple_ty(ip), (x, y))))
        return out
    if d == 'std::iter::Take' and not back:
        n = fs[1]
        go, stop = M.fork(ip, st, ge0(sub(n, ONE)))
        out = []
        if stop is not None:
            out.append((stop, None))
        if go is not None:
            put(go, 1, sub(n, ONE))
            q = next_item(ip, go, fx, sub_(0), site + ('t',), line)
            if q is None:
                return None
            out.extend(q)
        return out
    if d == 'std::iter::Skip' and not back:
        n = fs[1]
        go, no = M.fork(ip, st, ge0(sub(n, ONE)))
        out = []
        if no is not None:
            q = next_item(ip, no, fx, sub_(0), site + ('s',), line)
            if q is None:
                return None
            out.extend(q)
        if go is not None:
            put(go, 1, ZERO)
            q = nth_item(ip, go, fx, sub_(0), n, site + ('sn',), line)
            if q is None:
                return None
            out.extend(q)
        return out
    if d == 'std::iter::Chain' and not back:
        return chain_next(ip, st, fx, it, v, site, line)
    if d in ('std::iter::Filter', 'std::iter::FilterMap', 'std::iter::SkipWhile') and not back:
        o = OBJ('t', site, 'fit')
        rs = find_loop(ip, st, fx, sub_(0), site, line, pred=None if d == 'std::iter::FilterMap' else sub_(1),
                       fmap=sub_(1) if d == 'std::iter::FilterMap' else None)
        return rs
    if d == 'std::iter::TakeWhile' and not back:
        q = next_item(ip, st, fx, sub_(0), site + ('tw',), line)
        if q is None:
            return None
        out = []
        for s, x in q:
            if x is None:
                out.append((s, None))
                continue
            o = OBJ('t', site, 'twx')
            s.mem[o] = x
            for s2, c in ip.call_closure(s, fx, sub_(1), [Ref(o)], site + ('twc',), W.BOOL, line):
                y, n = M.fork(ip, s2, c if is_bool(c) else batom(('tw', site)))
                if y is not None:
                    out.append((y, y.mem.get(o)))
                if n is not None:
                    out.append((n, None))
        return out
    if d == 'std::iter::Repeat':
        return [(st, fs[0])]
    if d == 'std::iter::RepeatN':
        return None
    if d == 'std::iter::Once' or d == 'std::option::IntoIter':
        x = fs[0]
        return opt_take(ip, st, b, (('f', 0, 0),), x)
    if d == 'std::iter::Empty':
        return [(st, None)]
    if d == 'std::iter::Peekable':
        return None
    if d == 'std::iter::Fuse':
        return None
    if d in ('std::vec::IntoIter', 'std::vec::Drain', 'smallvec::IntoIter', 'smallvec::Drain', 'std::array::IntoIter'):
        s = fs[0] if fs else None
        if s is None or s.k != 'seq':
            return None
        n = s.a[1]
        a, e = M.fork(ip, st, ge0(sub(n, ONE)))
        out = []
        if a is not None:
            if back:
                x = ip.seq_get(a, s, sub(n, ONE))
                put(a, 0, ip.seq_slice(a, s, ZERO, sub(n, ONE)))
            else:
                x = ip.seq_get(a, s, ZERO)
                put(a, 0, ip.seq_slice(a, s, ONE, sub(n, ONE)))
            out.append((a, x))
        if e is not None:
            out.append((e, None))
        return out
    if d == 'std::ops::Range':
        x, y = fs
        if x.k != 'lin':
            return None
        a, e = M.fork(ip, st, ge0(sub(sub(y, x), ONE)))
        out = []
        if a is not None:
            if back:
                put(a, 1, sub(y, ONE))
                out.append((a, sub(y, ONE)))
            else:
                put(a, 0, add(x, ONE))
                out.append((a, x))
        if e is not None:
            out.append((e, None))
        return out
    if d == 'std::ops::RangeInclusive' and not back:
        x, y, ex = fs
        if x.k != 'lin':
            return None
        c = band(bnot(ex), ge0(sub(y, x)))
        ys, ns = M.fork2(ip, st, c)
        out = [(s, None) for s in ns]
        for s in ys:
            lt, eq = M.fork(ip, s, ge0(sub(sub(y, x), ONE)))
            if lt is not None:
                put(lt, 0, add(x, ONE))
                out.append((lt, x))
            if eq is not None:
                put(eq, 2, TRUE)
                out.append((eq, x))
        return out
    if d == 'std::ops::RangeFrom' and not back:
        put(st, 0, add(fs[0], ONE))
        return [(st, fs[0])]
    if d in ('std::slice::ChunksExact', 'std::slice::ChunksExactMut'):
        fi = {n: j for j, (n, _) in enumerate(W.T[ty]['v'][0]['f'])}
        sv = st.f.norm(fs[fi['v']])
        n = st.f.norm(fs[fi['chunk_size']])
        if sv.k != 'sref':
            return None
        o, p, s0, ln = sv.a
        a, e = M.fork(ip, st, ge0(sub(ln, n)))
        out = []
        if a is not None:
            r = sub(ln, n)
            if back:
                put(a, fi['v'], SRef(o, p, s0, r))
                out.append((a, SRef(o, p, add(s0, r), n)))
            else:
                put(a, fi['v'], SRef(o, p, add(s0, n), r))
                out.append((a, SRef(o, p, s0, n)))
        if e is not None:
            out.append((e, None))
        return out
    from . import textio
    r = textio.next_text(ip, st, fx, it, v, d, site, line, back)
    if r is not None:
        return r
    # user-defined iterators
    key = user_next(ip, ty, back)
    if key is not None:
        f = ip.W.F[key]
        dty = f['locals'][0]
        out = []
        for s, x in ip.invoke(st, fx, Fn(key), [it], site + ('un',), dty, line):
            out.extend(split_opt(ip, s, x))
        return out
    return None


def opt_take(ip, st, b, rel, x):
    if x.k == 'sym':
        x = ip.W.expand(x)
    if x.k != 'agg':
        return None
    out = []
    ty = x.a[0]
    for s, p in split_opt(ip, st, x):
        if p is not None:
            ip.write(s, b[0], b[1] + rel, ip.W.mkenum(ty, 0, ()))
        out.append((s, p))
    return out


def split_opt(ip, st, x):
    """[(state, payload or None)] for an Option value"""
    if x.k == 'sym':
        x = ip.W.expand(x)
    if x.k != 'agg':
        return [(st.copy(), TOP), (st, None)]
    M = _m()
    d = x.a[1]
    pay = None
    for vi, fs in x.a[2]:
        if vi == 1 and fs:
            pay = fs[0]
    a, b = M.fork(ip, st, eq0(sub(d, ONE)))
    out = []
    if a is not None and pay is not None:
        out.append((a, pay))
    if b is not None:
        out.append((b, None))
    return out


def user_next(ip, ty, back):
    m = getattr(ip, '_unext', None)
    if m is None:
        m = {}
        for k, f in ip.W.F.items():
            p = f['path']
            if 'blocks' in f and f['crate'] in ('bvh_anim', 'bvh_roots') and \
                    re.search(r' as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?$', p):
                t = ip.W.T[f['locals'][1]]
                if t['k'] == 'ref':
                    m[(t['e'], p.endswith('_back'))] = k
        ip._unext = m
    return m.get((ty, back))


def tuple_ty(ip):
    """type id standing for an (a, b) pair built by a model"""
    r = getattr(ip, '_pairty', None)
    if r is None:
        r = ip.W.find_ty(lambda t: t['k'] == 'tuple' and len(t['f']) == 2)
        ip._pairty = r
    return r


def closure_ret(ip, c):
    if c.k == 'agg' and isinstance(c.a[0], int):
        k = ip.closure_body(c.a[0])
        if k is not None:
            return ip.W.F[k]['locals'][0]
    if c.k == 'fn':
        f = ip.W.F.get(c.a[0])
        if f is not None and 'locals' in f:
            return f['locals'][0]
    return None


def iter_len(ip, st, it):
    v = st.f.norm(ip.deref(st, it))
    if v.k == 'sym':
        v = ip.W.expand(v)
    if v.k == 'sref':
        return v.a[3]
    if v.k == 'ref':
        return iter_len(ip, st, v)
    if v.k != 'agg' or not isinstance(v.a[0], int):
        return None
    d = ip.W.adt(v.a[0])
    b = it.a
    fs = v.a[2][0][1] if v.a[2] else ()

    def sub_(j):
        return Ref(b[0], b[1] + (('f', 0, j),))
    if d in ('std::iter::Copied', 'std::iter::Cloned', 'std::iter::Map', 'std::iter::Enumerate', 'std::iter::Rev'):
        return iter_len(ip, st, sub_(0))
    if d in ('std::vec::IntoIter', 'std::vec::Drain', 'std::array::IntoIter') and fs and fs[0].k == 'seq':
        return fs[0].a[1]
    if d in ('std::slice::ChunksExact', 'std::slice::ChunksExactMut'):
        fi = {n: j for j, (n, _) in enumerate(ip.W.T[v.a[0]]['v'][0]['f'])}
        sv = st.f.norm(fs[fi['v']])
        if sv.k == 'sref':
            return ip.intdiv(st, sv.a[3], st.f.norm(fs[fi['chunk_size']]))
    if d == 'std::ops::Range' and fs[0].k == 'lin':
        n = sub(fs[1], fs[0])
        if st.f.ent_ge(n):
            return n
    return None


def chain_next(ip, st, fx, it, v, site, line):
    b = it.a
    out = []
    fs = v.a[2][0][1]
    for s, p in split_opt(ip, st, fs[0]):
        if p is None:
            out.extend(chain_second(ip, s, fx, it, site, line) or [])
            continue
        pth = (('f', 0, 0), ('f', 1, 0))
        q = next_item(ip, s, fx, Ref(b[0], b[1] + pth), site + ('c0',), line)
        if q is None:
            return None
        for s2, x in q:
            if x is not None:
                out.append((s2, x))
            else:
                ip.write(s2, b[0], b[1] + (('f', 0, 0),), ip.W.mkenum(fs[0].a[0], 0, ()))
                r = chain_second(ip, s2, fx, it, site, line)
                if r is None:
                    return None
                out.extend(r)
    return out


def chain_second(ip, st, fx, it, site, line):
    b = it.a
    y = ip.read(st, b[0], b[1] + (('f', 0, 1),))
    out = []
    for s, p in split_opt(ip, st, y):
        if p is None:
            out.append((s, None))
            continue
        q = next_item(ip, s, fx, Ref(b[0], b[1] + (('f', 0, 1), ('f', 1, 0))), site + ('c1',), line)
        if q is None:
            return None
        out.extend(q)
    return out


def nth_item(ip, st, fx, it, n, site, line, back=False):
    """skip n items, then take one"""
    M = _m()
    v = st.f.norm(ip.deref(st, it))
    if v.k == 'sref':
        o, p, s, ln = v.a
        a, b = M.fork(ip, st, ge0(sub(sub(ln, n), ONE)))
        out = []
        if a is not None:
            if back:
                ip.store2(a, it, SRef(o, p, s, sub(sub(ln, n), ONE)))
                out.append((a, Ref(o, p + (('i', add(s, sub(sub(ln, n), ONE))),))))
            else:
                ip.store2(a, it, SRef(o, p, add(s, add(n, ONE)), sub(sub(ln, n), ONE)))
                out.append((a, Ref(o, p + (('i', add(s, n)),))))
        if b is not None:
            ip.store2(b, it, SRef(o, p, add(s, ln), ZERO))
            out.append((b, None))
        return out
    c = cval(st.f.norm(n))
    if c == 0:
        return next_item(ip, st, fx, it, site, line, back)
    k = OBJ('t', site, 'nth')
    st.mem[k] = n
    fail = [False]

    def step(s):
        m = ip.load(s, k)
        more, done = M.fork(ip, s, ge0(sub(m, ONE)))
        ex, bk = [], []
        for z, last in ((more, False), (done, True)):
            if z is None:
                continue
            q = next_item(ip, z, fx, it, site, line, back)
            if q is None:
                fail[0] = True
                return [], []
            for s2, x in q:
                if last or x is None:
                    ex.append((s2, x))
                else:
                    s2.mem[k] = sub(m, ONE)
                    bk.append(s2)
        return ex, bk
    ex = ip.pyloop((site, 'nth'), [st], step, fx)
    if fail[0]:
        return None
    for s, _ in ex:
        s.mem.pop(k, None)
    return ex


def find_loop(ip, st, fx, it, site, line, pred=None, fmap=None, neg=False, byval=False, back=False, want='item'):
    """first item satisfying pred -> [(state, item|None)]"""
    M = _m()
    W = ip.W
    o = OBJ('t', site, 'fx')
    fail = [False]

    def step(s):
        q = next_item(ip, s, fx, it, site + ('fn',), line, back)
        if q is None:
            fail[0] = True
            return [], []
        ex, bk = [], []
        for s2, x in q:
            if x is None:
                ex.append((s2, None))
                continue
            if fmap is not None:
                rt = closure_ret(ip, unr(ip, s2, fmap))
                for s3, r in ip.call_closure(s2, fx, fmap, [x], site + ('fc',), rt, line):
                    for s4, p in split_opt(ip, s3, r):
                        if p is None:
                            bk.append(s4)
                        else:
                            ex.append((s4, p))
                continue
            s2.mem[o] = x
            for s3, c in ip.call_closure(s2, fx, pred, [x if byval else Ref(o)], site + ('fc',), W.BOOL, line):
                if not is_bool(c):
                    c = batom(('find', site))
                if neg:
                    c = bnot(c)
                ys, ns = M.fork2(ip, s3, c)
                for y in ys:
                    ex.append((y, y.mem.pop(o, x)))
                for n in ns:
                    n.mem.pop(o, None)
                    bk.append(n)
        return ex, bk
    ex = ip.pyloop((site, 'find'), [st], step, fx)
    if fail[0]:
        return None
    return ex


def unr(ip, st, v):
    return ip.deref(st, v) if v.k in ('ref', 'sref') else v


def run_each(ip, st, fx, it, site, line, act):
    """act(state, item) -> [state] for every item; -> [state] after exhaustion (None when not modelled)"""
    fail = [False]

    def step(s):
        q = next_item(ip, s, fx, it, site + ('n',), line)
        if q is None:
            fail[0] = True
            return [], []
        ex, bk = [], []
        for s2, x in q:
            if x is None:
                ex.append((s2, None))
            else:
                bk.extend(act(s2, x))
        return ex, bk
    ex = ip.pyloop((site, 'each'), [st], step, fx)
    if fail[0]:
        return None
    return [s for s, _ in ex]


def bulk(ip, st, it):
    """whole content of an iterator that just walks a sequence: (seq or None)"""
    M = _m()
    v = st.f.norm(it)
    if v.k == 'agg' and isinstance(v.a[0], int):
        d = ip.W.adt(v.a[0])
        fs = v.a[2][0][1] if v.a[2] else ()
        if d in ('std::iter::Copied', 'std::iter::Cloned') and fs and st.f.norm(fs[0]).k == 'sref':
            return M.content(ip, st, st.f.norm(fs[0]).a)
        if d in ('std::vec::IntoIter', 'std::vec::Drain', 'std::array::IntoIter', 'smallvec::IntoIter') and fs and fs[0].k == 'seq':
            return fs[0]
        if d == 'std::iter::Take' and fs:
            if fs[0].k == 'agg' and ip.W.adt(fs[0].a[0]) == 'std::iter::Repeat':
                x = fs[0].a[2][0][1][0]
                return ip.mkseq((mk('rep', x, fs[1]),), -1)
            b = bulk(ip, st, fs[0])
            if b is not None:
                if st.f.ent_ge(sub(b.a[1], fs[1])):
                    return ip.seq_slice(st, b, ZERO, fs[1])
                if st.f.ent_ge(sub(fs[1], b.a[1])):
                    return b
        if d == 'std::iter::Chain' and fs:
            out = None
            for x in fs[:2]:
                if x.k != 'agg' or cval(x.a[1]) is None:
                    return None
                if cval(x.a[1]) == 1:
                    p = bulk(ip, st, x.a[2][0][1][0])
                    if p is None:
                        return None
                    out = p if out is None else ip.seq_cat(out, p)
            return out
    if v.k == 'seq':
        return v
    return None


def collect_seq(ip, st, fx, itv, ety, site, line):
    """[(state, seq)] with every item of the iterator value"""
    if itv.k == 'ref' and ip.deref(st, itv).k == 'seq':
        itv = SRef(*_m().view(ip, st, itv))
    v = st.f.norm(itv)
    if v.k == 'sref' and ip.W.T[ety]['k'] not in ('ref', 'ptr'):
        b = _m().content(ip, st, v.a)      # Extend<&T>: items are copied
    else:
        b = bulk(ip, st, v)
    if b is not None:
        return [(st, mk('seq', b.a[0], b.a[1], ety))]
    it = OBJ('t', site, 'it')
    acc = OBJ('t', site, 'acc')
    if itv.k == 'ref' and itv.a[0].a[0] != 't':
        itr = itv
        st.mem[it] = ZERO
    else:
        st.mem[it] = itv
        itr = Ref(it)
    st.mem[acc] = SeqLit((), ety)
    byref = ip.W.T[ety]['k'] not in ('ref', 'ptr')

    def act(s, x):
        if byref and x.k == 'ref' and ip.W.T[ety]['k'] in ('float', 'int', 'uint'):
            x = ip.deref(s, x)
        s.mem[acc] = ip.seq_cat(s.mem[acc], SeqLit((x,), ety))
        return [s]
    ss = run_each(ip, st, fx, itr, site, line, act)
    if ss is None:
        x = SeqOp(('collect', site), ety, lin_atom(('len', ('collect', site)), 0, 2 ** 63 - 1))
        st.mem.pop(it, None)
        st.mem.pop(acc, None)
        ip.unknown_calls['<collect>'] = 1
        return [(st, x)]
    out = []
    for s in ss:
        a = s.mem.pop(acc)
        s.mem.pop(it, None)
        out.append((s, a))
    return out


def m_extend(ip, st, fx, f, args, site, dty, line):
    M = _m()
    vw = M.view(ip, st, args[0])
    if vw is None:
        return None
    s0 = ip.read(st, vw[0], vw[1])
    out = []
    for s, x in collect_seq(ip, st, fx, args[1], s0.a[2], site, line):
        vw2 = M.view(ip, s, args[0])
        M.setseq(ip, s, vw2, ip.seq_cat(ip.read(s, vw2[0], vw2[1]), x))
        out.append((s, ip.W.unit()))
    return out


def m_collect(ip, st, fx, f, args, site, dty, line):
    W = ip.W
    e = W.seq_elem(dty)
    if e is not None:
        return collect_seq(ip, st, fx, args[0], e, site, line)
    d = W.adt(dty)
    if d == 'std::string::String':
        return [(s, Struct(dty, (x,))) for s, x in collect_seq(ip, st, fx, args[0], W.U8, site, line)]
    if d in ('std::result::Result', 'std::option::Option'):
        okv = 0 if d.endswith('Result') else 1
        inner = W.T[dty]['v'][okv]['f'][0][1]
        e = W.seq_elem(inner)
        if e is None:
            return None
        M = _m()
        it, acc = OBJ('t', site, 'it'), OBJ('t', site, 'acc')
        st.mem[it] = args[0]
        st.mem[acc] = SeqLit((), e)
        fail = [False]

        def step(s):
            q = next_item(ip, s, fx, Ref(it), site + ('n',), line)
            if q is None:
                fail[0] = True
                return [], []
            ex, bk = [], []
            for s2, x in q:
                if x is None:
                    ex.append((s2, ('ok',)))
                    continue
                if x.k == 'sym':
                    x = W.expand(x)
                if x.k != 'agg':
                    fail[0] = True
                    return [], []
                a, b = M.fork(ip, s2, eq0(sub(x.a[1], I(okv))))
                for z, good in ((a, True), (b, False)):
                    if z is None:
                        continue
                    p = [fs for vi, fs in x.a[2] if vi == (okv if good else 1 - okv)]
                    if good:
                        z.mem[acc] = ip.seq_cat(z.mem[acc], SeqLit((p[0][0],), e))
                        bk.append(z)
                    else:
                        ex.append((z, ('err', p[0] if p else ())))
            return ex, bk
        ex = ip.pyloop((site, 'collect'), [st], step, fx)
        if fail[0]:
            return None
        out = []
        for s, p in ex:
            a = s.mem.pop(acc)
            s.mem.pop(it, None)
            if p[0] == 'ok':
                out.append((s, W.mkenum(dty, okv, (a,))))
            else:
                out.append((s, W.mkenum(dty, 1 - okv, p[1])))
        return out
    return None


# ------------------------------------------------------------------ method models
def _opt(ip, rs, dty):
    if rs is None:
        return None
    M = _m()
    return [(s, M.none(ip, dty) if x is None else M.some(ip, dty, retuple(ip, x, dty))) for s, x in rs]


def retuple(ip, x, dty):
    """give pairs built by a model the real tuple type of the result"""
    if x.k == 'agg' and x.a[0] == tuple_ty(ip):
        t = ip.W.T[dty]['v'][1]['f'][0][1]
        if ip.W.T[t]['k'] == 'tuple':
            return Struct(t, x.a[2][0][1])
    return x


def itval(ip, st, site, v):
    """reference to an iterator given by value or by reference"""
    if v.k == 'ref':
        return v
    o = OBJ('t', site, 'itv')
    st.mem[o] = v
    return Ref(o)


def m_next(ip, st, fx, f, args, site, dty, line):
    return _opt(ip, next_item(ip, st, fx, args[0], site, line, f['path'].endswith('next_back')), dty)


def m_nth(ip, st, fx, f, args, site, dty, line):
    return _opt(ip, nth_item(ip, st, fx, args[0], args[1], site, line, f['path'].endswith('nth_back')), dty)


def m_find(ip, st, fx, f, args, site, dty, line):
    itr = itval(ip, st, site, args[0])
    name = f['path'].rsplit('::', 1)[1]
    clo = OBJ('t', site, 'fclo')
    c = args[1]
    if c.k != 'ref':
        st.mem[clo] = c
        c = Ref(clo)
    if name in ('find', 'rfind'):
        return _opt(ip, find_loop(ip, st, fx, itr, site, line, pred=c, back=name == 'rfind'), dty)
    if name == 'find_map':
        return _opt(ip, find_loop(ip, st, fx, itr, site, line, fmap=c), dty)
    if name in ('any', 'all'):
        rs = find_loop(ip, st, fx, itr, site, line, pred=c, byval=True, neg=name == 'all')
        if rs is None:
            return None
        return [(s, B((x is not None) == (name == 'any'))) for s, x in rs]
    if name == 'position':
        k = OBJ('t', site, 'pos')
        st.mem[k] = ZERO
        W = ip.W
        M = _m()
        fail = [False]

        def step(s):
            q = next_item(ip, s, fx, itr, site + ('fn',), line)
            if q is None:
                fail[0] = True
                return [], []
            ex, bk = [], []
            for s2, x in q:
                if x is None:
                    ex.append((s2, None))
                    continue
                for s3, b in ip.call_closure(s2, fx, c, [x], site + ('fc',), W.BOOL, line):
                    ys, ns = M.fork2(ip, s3, b if is_bool(b) else batom(('find', site)))
                    for y in ys:
                        ex.append((y, y.mem[k]))
                    for n in ns:
                        n.mem[k] = add(n.mem[k], ONE)
                        bk.append(n)
            return ex, bk
        ex = ip.pyloop((site, 'pos'), [st], step, fx)
        if fail[0]:
            return None
        return _opt(ip, ex, dty)
    return None


def m_foreach(ip, st, fx, f, args, site, dty, line):
    W = ip.W
    itr = itval(ip, st, site, args[0])
    clo = OBJ('t', site, 'fclo')
    st.mem[clo] = args[1]

    def act(s, x):
        return [a for a, _ in ip.call_closure(s, fx, Ref(clo), [x], site + ('fc',), W.UNIT, line)]
    ss = run_each(ip, st, fx, itr, site, line, act)
    return None if ss is None else [(s, W.unit()) for s in ss]


def m_fold(ip, st, fx, f, args, site, dty, line):
    itr = itval(ip, st, site, args[0])
    clo, acc = OBJ('t', site, 'fclo'), OBJ('t', site, 'facc')
    st.mem[acc] = args[1]
    st.mem[clo] = args[2]

    def act(s, x):
        out = []
        for a, v in ip.call_closure(s, fx, Ref(clo), [s.mem[acc], x], site + ('fc',), dty, line):
            a.mem[acc] = v
            out.append(a)
        return out
    ss = run_each(ip, st, fx, itr, site, line, act)
    return None if ss is None else [(s, s.mem.pop(acc)) for s in ss]


def m_sumcount(ip, st, fx, f, args, site, dty, line):
    itr = itval(ip, st, site, args[0])
    name = f['path'].rsplit('::', 1)[1]
    acc = OBJ('t', site, 'facc')
    if name == 'count':
        n = iter_len(ip, st, itr)
        if n is not None:
            return n
    if name in ('sum', 'product') and ip.W.T[dty]['k'] not in ('int', 'uint'):
        return None
    if name == 'product':
        return None
    st.mem[acc] = ZERO
    rg = ip.trange(dty)

    def act(s, x):
        x = unr(ip, s, x) if name == 'sum' else ONE
        r = add(s.mem[acc], x) if x.k == 'lin' else TOP
        if r is TOP:
            r = lin_atom(('sum', site), rg[0], rg[1])
        elif name == 'sum':
            ip.panic_ob(s, fx, line, 'overflow Add', ge0(sub(I(rg[1]), r)))
            s.f.assume(ge0(sub(I(rg[1]), r)))
        s.mem[acc] = r
        return [s]
    ss = run_each(ip, st, fx, itr, site, line, act)
    return None if ss is None else [(s, s.mem.pop(acc)) for s in ss]


def m_last_item(ip, st, fx, f, args, site, dty, line):
    itr = itval(ip, st, site, args[0])
    rs = next_item(ip, st.copy(), fx, itr, site, line, True)
    if rs is not None:
        return _opt(ip, next_item(ip, st, fx, itr, site, line, True), dty)
    return None


def m_adapter(fields):
    def m(ip, st, fx, f, args, site, dty, line):
        fs = fields(ip, st, args, dty)
        if fs is None:
            return None
        return Struct(dty, fs)
    return m


def m_zip(ip, st, fx, f, args, site, dty, line):
    t = ip.W.T[dty]
    b = args[1]
    # IntoIterator of the second argument
    if b.k == 'ref':
        x = ip.deref(st, b)
        if x.k == 'seq':
            b = SRef(*_m().view(ip, st, b))
    elif b.k == 'seq':
        b = Struct(t['v'][0]['f'][1][1], (b,))
    return Struct(dty, (args[0], b))


def m_chain(ip, st, fx, f, args, site, dty, line):
    t = ip.W.T[dty]['v'][0]['f']
    b = args[1]
    if b.k == 'ref' and ip.deref(st, b).k == 'seq':
        b = SRef(*_m().view(ip, st, b))
    return Struct(dty, (ip.W.mkenum(t[0][1], 1, (args[0],)), ip.W.mkenum(t[1][1], 1, (b,))))


def m_size_hint(ip, st, fx, f, args, site, dty, line):
    n = iter_len(ip, st, args[0])
    if n is None:
        return None
    t = ip.W.T[dty]['f'][1]
    return Struct(dty, (n, ip.W.mkenum(t, 1, (n,))))


def m_iterlen(ip, st, fx, f, args, site, dty, line):
    return iter_len(ip, st, args[0])


def m_as_slice(ip, st, fx, f, args, site, dty, line):
    v = st.f.norm(ip.deref(st, args[0])) if args[0].k == 'ref' else args[0]
    return v if v.k == 'sref' else None


def fill(A):
    IT = r'^(std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)::|<.* as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::|.*<impl std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator) for .*>::)'
    A(IT + r'next(_back)?$', m_next)
    A(IT + r'nth(_back)?$', m_nth)
    A(IT + r'(find|rfind|find_map|any|all|position)$', m_find)
    A(IT + r'for_each$', m_foreach)
    A(IT + r'fold$', m_fold)
    A(IT + r'(sum|count|product)$', m_sumcount)
    A(IT + r'last$', m_last_item)
    A(IT + r'(map|filter|take|skip|take_while|skip_while|filter_map)$', m_adapter(lambda ip, st, a, d: (a[0], a[1])))
    A(IT + r'enumerate$', m_adapter(lambda ip, st, a, d: (a[0], ZERO)))
    A(IT + r'(copied|cloned|rev)$', m_adapter(lambda ip, st, a, d: (a[0],)))
    A(IT + r'by_ref$', lambda ip, st, fx, f, a, s, d, l: a[0])
    A(IT + r'zip$', m_zip)
    A(IT + r'chain$', m_chain)
    A(IT + r'collect$', m_collect)
    A(IT + r'size_hint$', m_size_hint)
    A(IT + r'len$', m_iterlen)
    A(r'^<.* as std::iter::IntoIterator>::into_iter$', m_into_iter)
    A(r'<impl std::iter::IntoIterator for .*>::into_iter$', m_into_iter)
    A(r'^std::iter::(repeat|once)$', lambda ip, st, fx, f, a, s, d, l: once_or_repeat(ip, f, a, d))
    A(r'^std::slice::(Iter|IterMut)::<.*>::(as_slice|into_slice)$', m_as_slice)


def once_or_repeat(ip, f, a, d):
    if f['path'].endswith('repeat'):
        return Struct(d, (a[0],))
    return None
