"""Frame cursor: editing keeps whole frames, the cursor in range, and every other frame as it was."""
from .common import *
from ..models import fork, some, none
from .frames import walk_root, cur_base

MOVES = ['move_next', 'move_prev', 'move_first', 'move_last']
EDITS = ['insert', 'insert_vec', 'insert_frame', 'insert_many', 'remove', 'remove_all', 'shrink']
PEEKS = ['peek_next', 'peek_prev', 'peek_next_mut', 'peek_prev_mut', 'surrounding']


# A sequence of frames of any length, yielding any frames: good ones (one value per channel) are consecutive parts of
# an unknown input, and a frame of another length, or the end, may come at any point.
DRAWN = OBJ('g', 'drawn')       # good frames drawn before the first bad one
ENDED = OBJ('g', 'ended')       # 0 running, 1 the sequence has ended, 2 a bad frame has been drawn
INPUT = OBJ('so', ('inp',))
BADFR = OBJ('so', ('badf',))
BADLEN = lin_atom(('len', ('badf',)), 0, FMAX)


def m_next_frame(box):
    def m(ip, st, fx, f, args, site, dty, line):
        C = box['C']
        k, e = ip.load(st, DRAWN), ip.load(st, ENDED)
        out = []
        a, b = fork(ip, st, eq0(e))
        if a is not None:
            g = a.copy()
            g.mem[DRAWN] = add(k, ONE)
            out.append((g, some(ip, dty, SRef(INPUT, (), mul(k, C), C))))
            g = a.copy()
            g.mem[ENDED] = I(2)
            out.append((g, some(ip, dty, SRef(BADFR, (), ZERO, BADLEN))))
            a.mem[ENDED] = ONE
            out.append((a, none(ip, dty)))
        if b is not None:       # whatever is drawn after that is arbitrary
            out.append((b, ip.fresh(('more', site), dty)))
        return out
    return m


MANY_BOX = {}
MANY = {'bvh_roots::opaque_next': m_next_frame(MANY_BOX)}


def many_setup(zero):
    base = CUR_ZERO if zero else CUR_POS

    def setup(ctx, ip, st, args):
        W = ip.W
        base(ctx, ip, st, args)
        C = ctx.fld(st, ip, args[0], 'bvh', 'num_channels')
        mv = ctx.fld(st, ip, args[0], 'bvh', 'motion_values')
        MANY_BOX['C'] = C
        st.mem[DRAWN] = ZERO
        st.mem[ENDED] = ZERO
        ety = mv.a[2]
        for o, n in ((INPUT, 'inp'), (BADFR, 'badf')):
            st.mem[o] = SeqOp(('el', n), ety, BADLEN if n == 'badf' else lin_atom(('len', n), 0, FMAX))
        st.f.assume(ne0(sub(BADLEN, C)))
    return setup


MANY_POS, MANY_ZERO = many_setup(False), many_setup(True)


def runs(ctx, name):
    for zero, setup in ((False, CUR_POS), (True, CUR_ZERO)):
        if name == 'insert_many':
            r = ctx.analyse('root_cur_insert_many', MANY_ZERO if zero else MANY_POS, special=MANY)
        else:
            r = ctx.analyse('root_cur_' + name, setup)
        yield ('no channels' if zero else 'channels'), zero, r


def k01(ctx, rep):
    """Every cursor operation, from any state with whole frames and the cursor in range, leaves whole frames, the
    same number of channels and the cursor in range; moves go exactly one frame and stop at the ends.  Each public
    cursor method's MIR is interpreted abstractly with symbolic data, index and channel count; each return path
    has to entail the invariant."""
    for name in MOVES + EDITS + PEEKS:
        for case, zero, r in runs(ctx, name):
            lim = r.limits()
            rep.ob('%s|%s|analysed' % (name, case), r.giveup is None, str(r.giveup), lim)
            c0 = Cur(ctx, r, r.st0)
            F = nframes('cur')
            for st, v in r.rets:
                rep.count('cursor return paths')
                c = Cur(ctx, r, st)
                k = '%s|%s|' % (name, case)
                rep.ob(k + 'channel count unchanged', eqv(st, c.C, c0.C), 'num_channels changes', lim)
                n = whole(st, c.mv, c.C)
                rep.ob(k + 'whole frames', n is not None, 'motion value count %s is not a multiple of %s' % (show(st.f.norm(c.mv.a[1]) if c.mv.k == 'seq' else c.mv), show(st.f.norm(c.C))), lim)
                if n is not None:
                    rep.ob(k + 'cursor in range', c.i.k == 'lin' and st.f.ent_ge(sub(n, c.i)), 'index %s may exceed %s frames' % (show(c.i), show(n)), lim)
                if name in MOVES:
                    rep.ob(k + 'moving does not edit', c.mv is c0.mv or r.ip.seq_eq(st, c.mv, st.f.norm(c0.mv)), 'data changed', lim)
                    i0 = c0.i
                    f = st.f
                    if name == 'move_next':
                        g = (eqv(st, c.i, add(i0, ONE)) is True and f.ent_ge(sub(F, add(i0, ONE)))) or \
                            (eqv(st, c.i, F) is True and f.ent_ge(sub(add(i0, ONE), F)))
                    elif name == 'move_prev':
                        g = (eqv(st, c.i, sub(i0, ONE)) is True) or (eqv(st, c.i, ZERO) is True and f.ent_ge(neg(i0)))
                    elif name == 'move_first':
                        g = eqv(st, c.i, ZERO)
                    else:
                        g = eqv(st, c.i, F)
                    rep.ob(k + 'lands where documented', g is True, 'index becomes %s' % show(c.i), lim)
            check_panics(rep, r)
    # a fresh cursor starts at the first frame
    for case, setup in (('channels', BVH_POS), ('no channels', BVH_ZERO)):
        for root in ('root_bvh_frame_cursor', 'root_cur_from'):
            r = ctx.analyse(root, setup)
            for st, v in r.rets:
                rep.count('cursor return paths')
                rep.ob('%s|%s|starts at 0' % (root, case), eqv(st, ctx.fld(st, r.ip, v, 'index'), ZERO), '', r.limits())
            check_panics(rep, r)
    rep.floor('cursor return paths', 30)


def is_ok(ctx, st, v):
    return ctx.variant(st, v)[0] == 'Ok'


def k02(ctx, rep):
    """Inserting a frame: succeeds exactly when the frame has one value per channel; then the data is the frames
    before the cursor, the new frame, the frames from the cursor on, in order, and the cursor is after the new
    frame.  Otherwise an error reports the lengths and nothing changes."""
    for name in ('insert', 'insert_vec', 'insert_frame'):
        for case, zero, r in runs(ctx, name):
            lim = r.limits()
            ip = r.ip
            c0 = Cur(ctx, r, r.st0)
            for st, v in r.rets:
                rep.count('insert return paths')
                c = Cur(ctx, r, st)
                k = '%s|%s|' % (name, case)
                fr = frame_arg(ctx, ip, r, name)
                vn, fs = ctx.variant(st, v)
                if vn == 'Ok':
                    rep.count('accepted paths')
                    rep.ob(k + 'accepted only with one value per channel', eqv(st, fr.a[1], c0.C), '', lim)
                    p = st.f.norm(mul(c0.i, c0.C))
                    exp = ip.seq_splice(st, st.f.norm(c0.mv), p, p, mk('seq', fr.a[0], fr.a[1], c0.mv.a[2]))
                    rep.ob(k + 'data is before ++ frame ++ after', ip.seq_eq(st, c.mv, exp), 'got %s' % show(st.f.norm(c.mv))[:600], lim)
                    rep.ob(k + 'cursor after the frame', zero or eqv(st, c.i, add(c0.i, ONE)), 'index becomes %s' % show(c.i), lim)
                elif vn == 'Err':
                    rep.count('rejected paths')
                    rep.ob(k + 'rejected only with another length', st.f.ent(ne0(sub(fr.a[1], c0.C))), '', lim)
                    rep.ob(k + 'rejection changes nothing', ip.seq_eq(st, c.mv, st.f.norm(c0.mv)) is True and eqv(st, c.i, c0.i) is True, '', lim)
                    e = fs[0]
                    rep.ob(k + 'error reports the lengths', err_lengths(ctx, ip, st, e, c0.C, fr.a[1]), show(e)[:200], lim)
                else:
                    rep.ob(k + 'result known', False, show(v)[:200], lim)
            check_panics(rep, r)
    rep.floor('accepted paths', 3)
    rep.floor('rejected paths', 3)


def err_lengths(ctx, ip, st, e, want, got):
    """does the error value carry exactly the expected and the actual length?"""
    vals = []

    def walk(x):
        if x.k == 'sym':
            x = ctx.W.expand(x)
        if x.k == 'lin':
            vals.append(x)
        elif x.k == 'agg':
            d = cval(st.f.norm(x.a[1]))
            for vi, fs in x.a[2]:
                if not ip.is_enum(x.a[0]) or ctx.W.variant_of(x.a[0], d) == vi:
                    for y in fs:
                        walk(y)
    walk(e)
    return len(vals) == 2 and eqv(st, vals[0], want) is True and eqv(st, vals[1], got) is True


def frame_arg(ctx, ip, r, name):
    a = r.args[1]
    st = r.st0
    if name == 'insert_frame':
        a = ctx.fld(st, ip, a, 0)
    return seqval(ip, st, a)


def k03(ctx, rep):
    """Removing: succeeds exactly when there is a frame after the cursor; then that frame alone is gone and the
    cursor stays.  Otherwise an error is returned and nothing changes.  Removing all frames leaves no data and the
    cursor at the start."""
    F = nframes('cur')
    for case, zero, r in runs(ctx, 'remove'):
        lim = r.limits()
        ip = r.ip
        c0 = Cur(ctx, r, r.st0)
        for st, v in r.rets:
            rep.count('remove return paths')
            c = Cur(ctx, r, st)
            k = 'remove|%s|' % case
            vn, fs = ctx.variant(st, v)
            if vn == 'Ok':
                rep.count('accepted paths')
                rep.ob(k + 'accepted only before the end', st.f.ent_ge(sub(sub(F, c0.i), ONE)), 'Ok although no frame follows the cursor', lim)
                a = mul(c0.i, c0.C)
                b = mul(add(c0.i, ONE), c0.C)
                exp = ip.seq_splice(st, st.f.norm(c0.mv), st.f.norm(a), st.f.norm(b), SeqLit((), c0.mv.a[2]))
                rep.ob(k + 'exactly the frame after the cursor is gone', ip.seq_eq(st, c.mv, exp), 'got %s' % show(st.f.norm(c.mv))[:600], lim)
                rep.ob(k + 'cursor stays', eqv(st, c.i, c0.i), '', lim)
            elif vn == 'Err':
                rep.count('rejected paths')
                rep.ob(k + 'rejected only at the end', st.f.ent_ge(sub(c0.i, F)), '', lim)
                rep.ob(k + 'rejection changes nothing', ip.seq_eq(st, c.mv, st.f.norm(c0.mv)) is True and eqv(st, c.i, c0.i) is True, '', lim)
            else:
                rep.ob(k + 'result known', False, show(v)[:200], lim)
        check_panics(rep, r)
    for case, zero, r in runs(ctx, 'remove_all'):
        for st, v in r.rets:
            c = Cur(ctx, r, st)
            rep.ob('remove_all|%s|no data' % case, c.mv.k == 'seq' and eqv(st, c.mv.a[1], ZERO), '', r.limits())
            rep.ob('remove_all|%s|cursor at start' % case, eqv(st, c.i, ZERO), '', r.limits())
        check_panics(rep, r)
    for case, zero, r in runs(ctx, 'shrink'):
        c0 = Cur(ctx, r, r.st0)
        for st, v in r.rets:
            c = Cur(ctx, r, st)
            rep.ob('shrink|%s|keeps data' % case, r.ip.seq_eq(st, c.mv, st.f.norm(c0.mv)) is True and eqv(st, c.i, c0.i) is True, '', r.limits())
    rep.floor('accepted paths', 1)
    rep.floor('rejected paths', 2)


def k04(ctx, rep):
    """Inserting a sequence of frames: whatever the sequence yields and claims about its length, the frames before the
    first one of a wrong length (all, if there is none) end up contiguously at the cursor in order, with the cursor
    after them; success exactly when the sequence ended without a bad frame, else an error with the lengths."""
    for case, zero, r in runs(ctx, 'insert_many'):
        lim = r.limits()
        ip = r.ip
        c0 = Cur(ctx, r, r.st0)
        for st, v in r.rets:
            rep.count('insert return paths')
            c = Cur(ctx, r, st)
            k = 'insert_many|%s|' % case
            n, e = ip.load(st, DRAWN), ip.load(st, ENDED)
            L = st.f.norm(mul(n, c0.C))
            p = st.f.norm(mul(c0.i, c0.C))
            new = ip.mkseq((mk('sub', mk('op', ('el', 'inp'), c0.mv.a[2]), ZERO, L),), c0.mv.a[2])
            exp = ip.seq_splice(st, st.f.norm(c0.mv), p, p, new)
            rep.ob(k + 'data is before ++ drawn frames ++ after', ip.seq_eq(st, c.mv, exp), 'got %s' % show(st.f.norm(c.mv))[:600], lim)
            rep.ob(k + 'cursor after the drawn frames', zero or eqv(st, c.i, add(c0.i, n)), 'index becomes %s' % show(c.i), lim)
            vn, fs = ctx.variant(st, v)
            if vn == 'Ok':
                rep.count('accepted paths')
                rep.ob(k + 'succeeds only when the sequence has ended', eqv(st, e, ONE), '', lim)
            elif vn == 'Err':
                rep.count('rejected paths')
                rep.ob(k + 'fails only on a frame of the wrong length', eqv(st, e, I(2)), '', lim)
                rep.ob(k + 'error reports the lengths', err_lengths(ctx, ip, st, fs[0], c0.C, BADLEN), show(fs[0])[:200], lim)
            else:
                rep.ob(k + 'result known', False, show(v)[:200], lim)
        check_panics(rep, r)
    rep.floor('accepted paths', 2)
    rep.floor('rejected paths', 2)


def frame_at(ctx, rep, k, r, st, v, lo, F, C, c0, lim):
    """v: Option<Frame>; Some exactly when 0 <= lo < F, and then the values of frame lo"""
    ip = r.ip
    vn, fs = ctx.variant(st, v)
    if vn == 'Some':
        rep.count('frames seen')
        s = ctx.fld(st, ip, fs[0], 0)
        good = s.k == 'sref' and st.f.ent_ge(lo) and st.f.ent_ge(sub(sub(F, lo), ONE))
        rep.ob(k + 'present only in range', good is True, '', lim)
        x = seqval(ip, st, s)
        exp = ip.seq_slice(st, st.f.norm(c0.mv), st.f.norm(mul(lo, C)), st.f.norm(C))
        rep.ob(k + 'is that frame', x is not None and ip.seq_eq(st, x, exp), 'got %s' % show(s)[:300], lim)
    elif vn == 'None':
        g = st.f.ent_ge(add(neg(lo), I(-1))) or st.f.ent_ge(sub(lo, F))
        rep.ob(k + 'absent only out of range', g is True, 'None although the frame exists', lim)
    else:
        rep.ob(k + 'result known', False, show(v)[:200], lim)


def k05(ctx, rep):
    """Reading at the cursor: the next frame is frame number index, the previous one index-1, present exactly when
    they exist, identical through the shared and mutable variants and through the pair of both; iteration from a
    cursor starts at the frame after it; nothing is modified."""
    F = nframes('cur')
    for name in PEEKS:
        for case, zero, r in runs(ctx, name):
            lim = r.limits()
            c0 = Cur(ctx, r, r.st0)
            for st, v in r.rets:
                rep.count('peek return paths')
                k = '%s|%s|' % (name, case)
                c = Cur(ctx, r, st)
                rep.ob(k + 'reading changes nothing', r.ip.seq_eq(st, c.mv, st.f.norm(c0.mv)) is True and eqv(st, c.i, c0.i) is True, '', lim)
                if name == 'surrounding':
                    p, n = v.a[2][0][1]
                    frame_at(ctx, rep, k + 'previous ', r, st, p, sub(c0.i, ONE), F, c0.C, c0, lim)
                    frame_at(ctx, rep, k + 'next ', r, st, n, c0.i, F, c0.C, c0, lim)
                else:
                    frame_at(ctx, rep, k, r, st, v, c0.i if 'next' in name else sub(c0.i, ONE), F, c0.C, c0, lim)
            check_panics(rep, r)
    for zero, setup in ((False, CUR_POS), (True, CUR_ZERO)):
        for root in ('into', 'into_mut', 'from', 'from_mut'):
            g = walk_root(ctx, rep, 'root_walk_cur_' + root, zero, setup, cur_base)
            rep.count('into-iterator walks')
            rep.ob('%s|%s|all kinds of step reached' % (root, zero), len(g) >= (1 if zero else 5), 'only %s' % sorted(g))
    rep.floor('peek return paths', 12)
    rep.floor('frames seen', 6)


PROPS = {'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04, 'K05': k05}
