"""Frame iteration and frame element access."""
from .common import *


def walker(ctx, rep, tag, base):
    """hooks deciding what a walk over an iterator observes.  base(ip) -> (motion values, channels, first frame,
    number of frames) as they were at the start"""
    def h_front(ip, st, fx, f, args, line):
        mv, C, lo, F = base(ip)
        front, back, fr = args
        ip.oblige('spec', st, fx, line, 'a frame is yielded only while one is left', ge0(sub(sub(sub(F, lo), add(front, back)), ONE)))
        same(ip, st, fx, line, fr, mv, C, add(lo, front), 'the next frame in order')

    def h_back(ip, st, fx, f, args, line):
        mv, C, lo, F = base(ip)
        front, back, fr = args
        ip.oblige('spec', st, fx, line, 'a frame is yielded only while one is left', ge0(sub(sub(sub(F, lo), add(front, back)), ONE)))
        same(ip, st, fx, line, fr, mv, C, sub(sub(F, back), ONE), 'the last frame not yet yielded')

    def h_end(ip, st, fx, f, args, line):
        mv, C, lo, F = base(ip)
        ip.oblige('spec', st, fx, line, 'ends only after the last frame', ge0(sub(add(args[0], args[1]), sub(F, lo))))

    def h_len(ip, st, fx, f, args, line):
        mv, C, lo, F = base(ip)
        front, back, n, hint = args
        left = sub(sub(F, lo), add(front, back))
        ip.oblige('spec', st, fx, line, 'len is the number of frames left', eq0(sub(n, left)) if n.k == 'lin' else False)
        a = b = None
        if hint.k == 'agg':
            a, o = hint.a[2][0][1]
            vn, fs = ctx.variant(st, o)
            b = fs[0] if vn == 'Some' else None
        ok = a is not None and b is not None and a.k == 'lin' and b.k == 'lin' and \
            st.f.ent(eq0(sub(a, left))) is True and st.f.ent(eq0(sub(b, left))) is True
        ip.oblige('spec', st, fx, line, 'size_hint is the number of frames left', ok)

    def same(ip, st, fx, line, fr, mv, C, k, what):
        x = seqval(ip, st, fr)
        ok = None
        if x is not None:
            exp = ip.seq_slice(st, st.f.norm(mv), st.f.norm(mul(k, C)), st.f.norm(C))
            ok = ip.seq_eq(st, x, exp)
        ip.oblige('spec', st, fx, line, 'yields ' + what, ok)
    return {'bvh_roots::see_front': h_front, 'bvh_roots::see_back': h_back, 'bvh_roots::see_end': h_end,
            'bvh_roots::see_len': h_len}


def check_spec(rep, run, case):
    """the obligations raised at the observation points"""
    g = {}
    for o in run.log:
        if o.kind == 'spec':
            e = g.setdefault(o.what, [0, True, None])
            e[0] += 1
            if o.ok is not True:
                e[1], e[2] = False, o
    for w, (n, good, o) in sorted(g.items()):
        rep.count('observations', n)
        rep.ob('%s|%s|%s' % (run.name, case, w), good, '' if good else 'not so at %s' % o.line, () if good else run.limits())
    return g


def walk_root(ctx, rep, root, zero, setup, base):
    case = 'no channels' if zero else 'channels'
    box = {}

    def setup2(c, ip, st, args):
        setup(c, ip, st, args)
        box['b'] = base(c, ip, st, args)
    r = ctx.analyse(root, setup2, hooks=walker(ctx, rep, root, lambda ip: box['b']))
    g = check_spec(rep, r, case)
    check_panics(rep, r)
    return g


def bvh_base(c, ip, st, args):
    b = args[0]
    return c.fld(st, ip, b, 'motion_values'), c.fld(st, ip, b, 'num_channels'), ZERO, nframes('bvh')


def cur_base(c, ip, st, args):
    b = c.fld(st, ip, args[0], 'bvh')
    i = c.fld(st, ip, args[0], 'index')
    return c.fld(st, ip, b, 'motion_values'), c.fld(st, ip, b, 'num_channels'), i, nframes('cur')


def f01(ctx, rep):
    """A loop that takes an arbitrary number of steps from either end of a frame iterator (shared or mutable) is
    analysed with symbolic data, frame count and channel count.  At each step, inductively over all earlier steps,
    the frame yielded is the next (or last) one not yet yielded, it has exactly one value per channel, None comes
    only when none is left, and len and size_hint are the number left; nth skips exactly n frames."""
    for zero, setup in ((False, BVH_POS), (True, BVH_ZERO)):
        for root in ('root_walk_frames', 'root_walk_frames_mut', 'root_skip_frames', 'root_skip_frames_mut'):
            g = walk_root(ctx, rep, root, zero, setup, bvh_base)
            need = 5 if 'walk' in root and not zero else 1
            rep.ob('%s|%s|all kinds of step reached' % (root, zero), len(g) >= need, 'only %s' % sorted(g))
    rep.floor('observations', 20)


OWNS = ['len', 'is_empty', 'as_slice', 'as_ref', 'borrow']


def frame_seq(ctx, ip, st, v):
    return ctx.fld(st, ip, v, 0)


def is_elem(ip, st, v, s, k):
    """v refers to element k of the slice s"""
    if v.k != 'ref' or s.k != 'sref' or not v.a[1]:
        return False
    e = v.a[1][-1]
    return e[0] == 'i' and v.a[0] is s.a[0] and ip.path_eq(st, v.a[1][:-1], s.a[1]) is not False and \
        st.f.ent(eq0(sub(e[1], add(s.a[2], k)))) is True


def f02(ctx, rep):
    """Every frame accessor is analysed for an arbitrary frame and an arbitrary position or channel: a read returns
    a reference to exactly that element, exactly when it exists; indexing panics only when it does not; setting
    replaces exactly that element and returns the old value, or fails and leaves all as it was."""
    W = ctx.W
    for own in ('frame', 'framemut'):
        for acc in ('as_slice', 'as_ref', 'borrow') + (('as_mut_slice', 'as_mut', 'borrow_mut') if own == 'framemut' else ()):
            r = ctx.analyse('root_%s_%s' % (own, acc))
            s0 = frame_seq(ctx, r.ip, r.st0, r.args[0])
            for st, v in r.rets:
                rep.count('access paths')
                rep.ob('%s|%s|is the whole frame' % (own, acc), r.ip.val_eq(st, st.f.norm(v), s0), show(v)[:200], r.limits())
            check_panics(rep, r)
        for acc in ('len', 'is_empty'):
            r = ctx.analyse('root_%s_%s' % (own, acc))
            s0 = frame_seq(ctx, r.ip, r.st0, r.args[0])
            for st, v in r.rets:
                rep.count('access paths')
                if acc == 'len':
                    g = v.k == 'lin' and st.f.ent(eq0(sub(v, s0.a[3]))) is True
                else:
                    v = st.f.norm(v)
                    g = is_bool(v) and all(z is None or z.f.ent(eq0(s0.a[3])) is w for z, w in ((r.ip.assuming(st, v), True), (r.ip.assuming(st, bnot(v)), False)))
                rep.ob('%s|%s|number of values' % (own, acc), g, show(v)[:200], r.limits())
            check_panics(rep, r)
        for kind in ('usize', 'channel', 'channel_ref'):
            for acc in ('get', 'index') + (('get_mut', 'index_mut', 'set') if own == 'framemut' else ()):
                name = '%s_%s_%s' % (own, acc, kind)
                r = ctx.analyse('root_' + name)
                ip = r.ip
                s0 = frame_seq(ctx, ip, r.st0, r.args[0])
                k = r.args[1] if kind == 'usize' else ctx.fld(r.st0, ip, r.args[1], 'motion_index')
                inr = ge0(sub(sub(s0.a[3], k), ONE)) if s0.k == 'sref' and k.k == 'lin' else None
                lim = r.limits()
                if inr is None:
                    rep.ob(name + '|shape known', False, show(s0), lim)
                    continue
                before = content(ip, r.st0, s0.a)
                seen = set()
                for st, v in r.rets:
                    rep.count('access paths')
                    after = content(ip, st, s0.a)
                    if acc != 'set':
                        rep.ob(name + '|reading changes nothing', ip.seq_eq(st, after, before), '', lim)
                    if acc.startswith('index'):
                        rep.ob(name + '|that element', is_elem(ip, st, v, s0, k) and st.f.ent(inr) is True, show(v)[:200], lim)
                        seen.add('Some')
                        continue
                    vn, fs = ctx.variant(st, v)
                    seen.add(vn)
                    if vn == 'Some':
                        rep.ob(name + '|that element', is_elem(ip, st, fs[0], s0, k) and st.f.ent(inr) is True, show(v)[:200], lim)
                    elif vn == 'None':
                        rep.ob(name + '|nothing only when out of range', st.f.ent(inr) is False, '', lim)
                    elif vn == 'Ok':
                        exp = ip.seq_set(st, before, k, r.args[2])
                        rep.ob(name + '|only in range', st.f.ent(inr), '', lim)
                        rep.ob(name + '|only that element becomes the new value', ip.seq_eq(st, after, exp), show(after)[:300], lim)
                        rep.ob(name + '|returns the old value', ip.val_eq(st, fs[0], ip.seq_get(st, before, k)), show(fs[0])[:200], lim)
                    elif vn == 'Err':
                        rep.ob(name + '|fails only when out of range', st.f.ent(inr) is False, '', lim)
                        rep.ob(name + '|failure changes nothing', ip.seq_eq(st, after, before), '', lim)
                    else:
                        rep.ob(name + '|result known', False, show(v)[:200], lim)
                want = {'get': {'Some', 'None'}, 'get_mut': {'Some', 'None'}, 'set': {'Ok', 'Err'}}.get(acc, {'Some'})
                rep.ob(name + '|all outcomes', seen >= want, str(seen), lim)
                check_panics(rep, r, allow=lambda run, o: acc.startswith('index') and o.what in ('index', 'bounds'))
    for name in ('frame_from_mut_ref', 'frame_from_mut'):
        r = ctx.analyse('root_' + name)
        s0 = frame_seq(ctx, r.ip, r.st0, r.args[0])
        for st, v in r.rets:
            rep.count('access paths')
            rep.ob(name + '|same values', r.ip.val_eq(st, frame_seq(ctx, r.ip, st, v), s0), show(v)[:200], r.limits())
        check_panics(rep, r)
    rep.floor('access paths', 30)


PROPS = {'F01': f01, 'F02': f02}
