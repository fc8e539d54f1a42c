"""Values that have to be handed through unchanged, and finite correspondences: channel names, axes, options, object
accessors and errors."""
from .common import *
from ..textio import lit_bytes, const_bytes, konst

KINDS = (('Rotation', 'rotation'), ('Position', 'position'))
NAMES = {k + a: a + t for k, t in KINDS for a in 'XYZ'}     # ChannelType variant -> file keyword


def variants(W, ty):
    return [v['n'].split('::')[-1] for v in W.T[ty]['v']]


def deref_ty(W, ty):
    while W.T[ty]['k'] == 'ref':
        ty = W.T[ty]['e']
    return ty


def pick(ip, st, v, vi):
    """restrict an unknown enum value (behind references) to one variant; -> its fields"""
    while v.k == 'ref':
        v = ip.deref(st, v)
    e = ip.W.expand(v)
    st.f.assume(eq0(sub(e.a[1], I(ip.W.sdisc(e.a[0], vi)))))
    for i, fs in e.a[2]:
        if i == vi:
            return e.a[0], fs
    return e.a[0], ()


def arg_ty(ctx, root, i=0):
    b = ctx.W.body(ctx.W.roots[root])
    return deref_ty(ctx.W, b.locals[i + 1])


def per_variant(ctx, root, arg=0, path=()):
    """one run for every variant of the enum in argument `arg` (a field of it)"""
    W = ctx.W
    ty = arg_ty(ctx, root, arg)
    for n in path:
        ty = deref_ty(W, [t for m, t in W.T[ty]['v'][0]['f'] if m == n][0])
    for vi, name in enumerate(variants(W, ty)):
        box = {}

        def setup(c, ip, st, args, vi=vi, box=box):
            v = args[arg]
            if path:
                v = c.fld(st, ip, v, *path)
            box['ty'], box['f'] = pick(ip, st, v, vi)
        r = ctx.analyse(root, setup, cache=False)
        names = [n for n, _ in W.T[ty]['v'][vi]['f']]
        yield name, dict(zip(names, box['f'])), r


def text(ip, st, v):
    s = seqval(ip, st, v)
    return const_bytes(st.f.norm(s)) if s is not None else None


def written(r, st, arg=1):
    """the text a Display implementation handed to its formatter"""
    v = r.args[arg]
    s = seqval(r.ip, st, v)
    return st.f.norm(s) if s is not None and s.k == 'seq' else None


def same(st, a, b):
    """structurally the same value"""
    if a is None or b is None or a is TOP or b is TOP:
        return False
    return st.f.norm(a) is st.f.norm(b) or (a.k == 'lin' and b.k == 'lin' and eqv(st, a, b) is True)


def target(ip, st, v):
    """value behind a reference (or the value itself)"""
    n = 0
    while v.k == 'ref' and n < 5:
        v = ip.deref(st, v)
        n += 1
    return st.f.norm(v) if v is not TOP else v


def t01(ctx, rep):
    """Reading: for each of the six names, with the argument fixed to it, every return path yields the kind of that
    name; with an arbitrary argument, every path that yields a kind entails that the argument is its name, and errors
    carry the argument.  Writing: for each kind the name, its class and its axis."""
    W = ctx.W
    roots = ('root_ct_from_bytes', 'root_ct_try_bytes', 'root_ct_try_str', 'root_ct_fromstr')
    ty = arg_ty(ctx, 'root_ct_as_str')
    rep.ob('kinds', sorted(variants(W, ty)) == sorted(NAMES), str(variants(W, ty)))
    for root in roots:
        for kind, nm in sorted(NAMES.items()):
            r = ctx.analyse(root, lambda c, ip, st, args, nm=nm: [konst(ip, lit_bytes(ip, nm.encode()))], cache=False)
            lim = r.limits()
            for st, v in r.rets:
                rep.count('names read')
                vn, fs = ctx.variant(st, v)
                got = ctx.variant(st, fs[0])[0] if vn == 'Ok' else vn
                rep.ob('%s|%s|read as its kind' % (root, nm), got == kind, 'gives %s' % got, lim)
            check_panics(rep, r)
        r = ctx.analyse(root)
        lim = r.limits()
        for st, v in r.rets:
            rep.count('read paths')
            s = seqval(r.ip, st, r.args[0])
            vn, fs = ctx.variant(st, v)
            if vn == 'Ok':
                got = ctx.variant(st, fs[0])[0]
                good = got in NAMES and r.ip.seq_eq(st, st.f.norm(s), lit_bytes(r.ip, NAMES[got].encode()))
                rep.ob('%s|%s|only its name is read as it' % (root, got), good, show(st.f.norm(s))[:200], lim)
            elif vn == 'Err':
                e = ctx.fld(st, r.ip, fs[0], 0)
                rep.ob('%s|error keeps the text' % root, e.k == 'seq' and r.ip.seq_eq(st, e, st.f.norm(s)), show(e)[:200], lim)
            else:
                rep.ob('%s|result known' % root, False, show(v)[:200], lim)
    for what, f in (('as_str', lambda r, st, v, n: text(r.ip, st, v) == NAMES[n].encode()),
                    ('display', lambda r, st, v, n: const_bytes(written(r, st) or mk('seq', (TOP,))) == NAMES[n].encode()),
                    ('is_rotation', lambda r, st, v, n: st.f.norm(v) is B('rotation' in NAMES[n])),
                    ('is_position', lambda r, st, v, n: st.f.norm(v) is B('position' in NAMES[n])),
                    ('axis', lambda r, st, v, n: ctx.variant(st, v)[0] == NAMES[n][0])):
        for n, fs, r in per_variant(ctx, 'root_ct_' + what):
            for st, v in r.rets:
                rep.count('kinds written')
                rep.ob('%s|%s' % (what, n), n in NAMES and f(r, st, v, n), 'gives %s' % show(v)[:200], r.limits())
            check_panics(rep, r)
    for root, fld in (('root_ch_type', 'channel_type'), ('root_ch_motion_index', 'motion_index')):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('channel accessors')
            rep.ob(root, same(st, v, ctx.fld(st, r.ip, r.args[0], fld)), show(v)[:200], r.limits())
    rep.floor('names read', 24)
    rep.floor('read paths', 28)
    rep.floor('kinds written', 30)


def t02(ctx, rep):
    """For each axis: the vector it returns (three constants) and the text it prints."""
    for n, fs, r in per_variant(ctx, 'root_axis_vector'):
        for st, v in r.rets:
            rep.count('vectors')
            s = content_of(r.ip, st, v)
            got = None
            if s is not None:
                try:
                    got = [float(r.ip.seq_get(st, s, I(i)).a[0][1]) for i in range(3)]
                except Exception:
                    got = None
            rep.ob('vector|' + n, got == [1.0 if a == n else 0.0 for a in 'XYZ'], 'gives %s' % show(v)[:200], r.limits())
        check_panics(rep, r)
    for n, fs, r in per_variant(ctx, 'root_axis_display'):
        for st, v in r.rets:
            rep.count('printed')
            rep.ob('display|' + n, const_bytes(written(r, st) or mk('seq', (TOP,))) == n.lower().encode(), '', r.limits())
        check_panics(rep, r)
    rep.floor('vectors', 3)
    rep.floor('printed', 3)


def content_of(ip, st, v):
    if v.k == 'seq':
        return v
    if v.k == 'agg':      # a point or vector struct
        fs = v.a[2][0][1]
        if len(fs) == 1:
            return content_of(ip, st, fs[0])
        return SeqLit(tuple(fs), None)
    return seqval(ip, st, v)


def w05(ctx, rep):
    """Each setter's result is compared field by field with its arguments; constructors and line terminators against
    their documented constants."""
    W = ctx.W
    SET = {'root_wo_indent': 'indent', 'root_wo_term': 'line_terminator', 'root_wo_offset': 'offset_significant_figures',
           'root_wo_frametime': 'frame_time_significant_figures', 'root_wo_motion': 'motion_values_significant_figures',
           'root_wo_offset_n': 'offset_significant_figures', 'root_wo_frametime_n': 'frame_time_significant_figures',
           'root_wo_motion_n': 'motion_values_significant_figures'}
    wo = arg_ty(ctx, 'root_wo_indent')
    fields = [n for n, _ in W.T[wo]['v'][0]['f']]
    for root, own in SET.items():
        r = ctx.analyse(root)
        rep.ob('%s|the option exists' % root, own in fields, str(fields))
        for st, v in r.rets:
            for n in fields:
                rep.count('option fields')
                got = ctx.fld(st, r.ip, v, n)
                if n != own:
                    rep.ob('%s|keeps %s' % (root, n), same(st, got, ctx.fld(st, r.ip, r.args[0], n)), 'becomes %s' % show(got)[:200], r.limits())
                elif root.endswith('_n'):
                    vn, fs = ctx.variant(st, got)
                    rep.ob('%s|sets %s' % (root, n), vn == 'Some' and same(st, fs[0], r.args[1]), 'becomes %s' % show(got)[:200], r.limits())
                else:
                    rep.ob('%s|sets %s' % (root, n), same_enum(ctx, st, got, r.args[1]), 'becomes %s' % show(got)[:200], r.limits())
        check_panics(rep, r)
    for root in ('root_wo_new', 'root_wo_default'):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('defaults')
            rep.ob(root + '|tabs', ctx.variant(st, ctx.fld(st, r.ip, v, 'indent'))[0] == 'Tabs', '', r.limits())
            rep.ob(root + '|native line end', ctx.variant(st, ctx.fld(st, r.ip, v, 'line_terminator'))[0] == 'Unix', '', r.limits())
            for n in fields:
                if n.endswith('significant_figures'):
                    rep.ob('%s|%s' % (root, n), ctx.variant(st, ctx.fld(st, r.ip, v, n))[0] == 'None', '', r.limits())
    for root, want in (('root_indent_default', 'Tabs'), ('root_lt_native', 'Unix'), ('root_lt_default', 'Unix')):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('defaults')
            rep.ob(root, ctx.variant(st, v)[0] == want, show(v)[:100], r.limits())
    r = ctx.analyse('root_indent_spaces')
    for st, v in r.rets:
        rep.count('spaces')
        vn, fs = ctx.variant(st, v)
        n = r.args[0]
        if vn == 'Spaces':
            k = fs[0]
            while k.k == 'agg':
                k = k.a[2][0][1][0]
            rep.ob('spaces|that many', k.k == 'lin' and eqv(st, k, n) is True, show(fs[0])[:200], r.limits())
        else:
            rep.ob('spaces|none only for zero', vn == 'NoIndentation' and eqv(st, n, ZERO) is True, str(vn), r.limits())
    check_panics(rep, r)
    ENDS = {'Unix': b'\n', 'Windows': b'\r\n'}
    for what in ('as_str', 'as_bytes', 'as_escaped_str', 'as_escaped_bytes', 'display'):
        for n, fs, r in per_variant(ctx, 'root_lt_' + what):
            for st, v in r.rets:
                rep.count('line ends')
                got = text(r.ip, st, v) if what != 'display' else const_bytes(written(r, st) or mk('seq', (TOP,)))
                want = ENDS.get(n)
                if 'escaped' in what:
                    want = want and want.replace(b'\r', b'\\r').replace(b'\n', b'\\n')
                # printing may show either form
                rep.ob('%s|%s' % (what, n), got == want or (what == 'display' and want is not None and
                                                            got == want.replace(b'\r', b'\\r').replace(b'\n', b'\\n')), repr(got), r.limits())
            check_panics(rep, r)
    rep.floor('option fields', 40)
    rep.floor('line ends', 10)
    rep.floor('spaces', 2)


def same_enum(ctx, st, a, b):
    if same(st, a, b):
        return True
    if b.k == 'sym':
        b = ctx.W.expand(b)
    if a.k == 'sym':
        a = ctx.W.expand(a)
    if a.k != 'agg' or b.k != 'agg' or a.a[0] != b.a[0]:
        return False
    if eqv(st, a.a[1], b.a[1]) is not True:
        return False
    d = cval(st.f.norm(a.a[1]))
    fa, fb = dict(a.a[2]), dict(b.a[2])
    for i in fb:
        if d is not None and i != ctx.W.variant_of(a.a[0], d):
            continue
        if len(fa.get(i, ())) != len(fb[i]) or not all(same(st, x, y) for x, y in zip(fa[i], fb[i])):
            return False
    return True


def unchanged(ctx, r, st, ref, *names, but=()):
    """the object behind ref is as it was at the start, except for the fields in but"""
    v1, v0 = target(r.ip, st, ref), target(r.ip, r.st0, ref)
    if v1 is TOP or v0 is TOP:
        return False
    if v1 is v0:
        return True
    a, b = ctx.W.expand(v1), ctx.W.expand(v0)
    if a.k != 'agg' or b.k != 'agg':
        return False
    fs = [n for n, _ in ctx.W.T[a.a[0]]['v'][0]['f']]
    for n, x, y in zip(fs, a.a[2][0][1], b.a[2][0][1]):
        if n in but:
            continue
        if same(st, x, y):
            continue
        if x.k == 'seq' and y.k == 'seq' and r.ip.seq_eq(st, st.f.norm(x), st.f.norm(y)) is True:
            continue
        return False
    return True


def b01(ctx, rep):
    """Each accessor's value is compared with the stored fields; the number of frames with the number of whole frames
    the data holds; every accessor leaves the object unchanged and each mutator changes its own field only."""
    for zero, setup in ((False, BVH_POS), (True, BVH_ZERO)):
        case = 'no channels' if zero else 'channels'
        for root in ('root_bvh_num_frames', 'root_bvh_frames_len'):
            r = ctx.analyse(root, setup)
            for st, v in r.rets:
                rep.count('frame counts')
                rep.ob('%s|%s|number of frames' % (root, case), v.k == 'lin' and eqv(st, v, nframes('bvh')), 'gives %s' % show(v)[:200], r.limits())
                rep.ob('%s|%s|changes nothing' % (root, case), unchanged(ctx, r, st, r.args[0]), '', r.limits())
            check_panics(rep, r)
    for root, fld in (('root_bvh_num_channels', 'num_channels'), ('root_bvh_frame_time', 'frame_time')):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('accessors')
            rep.ob('%s|is the stored value' % root, same(st, target(r.ip, st, v), ctx.fld(r.st0, r.ip, r.args[0], fld)), show(v)[:200], r.limits())
            rep.ob('%s|changes nothing' % root, unchanged(ctx, r, st, r.args[0]), '', r.limits())
        check_panics(rep, r)
    r = ctx.analyse('root_bvh_set_frame_time')
    for st, v in r.rets:
        rep.count('mutators')
        rep.ob('set_frame_time|sets it', same(st, ctx.fld(st, r.ip, r.args[0], 'frame_time'), r.args[1]), '', r.limits())
        rep.ob('set_frame_time|nothing else', unchanged(ctx, r, st, r.args[0], but=(fname(ctx, r, 'frame_time'),)), '', r.limits())
    check_panics(rep, r)
    r = ctx.analyse('root_bvh_extract_frames')
    for st, v in r.rets:
        rep.count('mutators')
        old = ctx.fld(r.st0, r.ip, r.args[0], 'motion_values')
        new = ctx.fld(st, r.ip, r.args[0], 'motion_values')
        rep.ob('extract_frames|returns all values', v.k == 'seq' and r.ip.seq_eq(st, st.f.norm(v), st.f.norm(old)), show(v)[:200], r.limits())
        rep.ob('extract_frames|none left', new.k == 'seq' and eqv(st, new.a[1], ZERO), show(new)[:200], r.limits())
        rep.ob('extract_frames|nothing else', unchanged(ctx, r, st, r.args[0], but=(fname(ctx, r, 'motion_values'),)), '', r.limits())
    check_panics(rep, r)
    for root in ('root_bvh_new', 'root_bvh_default'):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('empty objects')
            for n in ('joints', 'motion_values'):
                x = ctx.fld(st, r.ip, v, n)
                rep.ob('%s|no %s' % (root, n), x.k == 'seq' and eqv(st, x.a[1], ZERO), show(x)[:100], r.limits())
            rep.ob(root + '|no channels', eqv(st, ctx.fld(st, r.ip, v, 'num_channels'), ZERO), '', r.limits())
        check_panics(rep, r)
    r = ctx.analyse('root_bvh_clone')
    for st, v in r.rets:
        rep.count('clones')
        for n in ('joints', 'motion_values', 'num_channels', 'frame_time'):
            a, b = ctx.fld(st, r.ip, v, n), ctx.fld(r.st0, r.ip, r.args[0], n)
            rep.ob('clone|same ' + n, same(st, a, b) or (a.k == 'seq' and r.ip.seq_eq(st, a, b)), show(a)[:200], r.limits())
        rep.ob('clone|source unchanged', unchanged(ctx, r, st, r.args[0]), '', r.limits())
    rep.floor('frame counts', 4)
    rep.floor('accessors', 2)
    rep.floor('mutators', 2)
    rep.floor('empty objects', 2)


def fname(ctx, r, name):
    ty = arg_ty(ctx, r.name)
    j = ctx.field(ty, name)
    return ctx.W.T[ty]['v'][0]['f'][j][0] if j is not None else None


def nums(seq):
    """the numbers printed in a text, with the literal text before each"""
    out = []
    lit = b''
    for g in seq.a[0]:
        if g.k == 'lit':
            lit += bytes(cval(x) if cval(x) is not None else 63 for x in g.a[0])
        else:
            out.append((lit, g.a[0]))
            lit = b''
    out.append((lit, None))
    return out


def printed(seq, x):
    """literal text before the place where number x is printed in full, or None"""
    for lit, k in nums(seq):
        if k and k[0] == 'num' and k[1] == 'display' and k[3] is x and k[4] == (None, None, None):
            return lit
    return None


def mentions(seq, idk):
    """does the text show something of the value with this identity?"""
    return any(k is not None and inside(k, idk) for _, k in nums(seq))


def inside(x, idk):
    if x == idk:
        return True
    if isinstance(x, tuple):
        return any(inside(y, idk) for y in x)
    if isinstance(x, Obj):
        return x is idk or inside(x.a, idk)
    return False


def e01(ctx, rep):
    """Accessors: per variant, the line accessor returns the variant's own line field exactly when it has one.
    Conversions and sources give the wrapped value.  Messages: per variant, formatting reaches no panic and the text
    handed to the formatter contains the decimal of the line (and of the stored counts) it holds."""
    W = ctx.W

    def line_of(root, path=()):
        for n, fs, r in per_variant(ctx, root, 0, path):
            for st, v in r.rets:
                rep.count('line accessors')
                vn, x = ctx.variant(st, v)
                if 'line' in fs:
                    rep.ob('%s|%s|gives its line' % (root, n), vn == 'Some' and same(st, x[0], fs['line']), 'gives %s' % show(v)[:200], r.limits())
                else:
                    rep.ob('%s|%s|has none' % (root, n), vn == 'None', 'gives %s' % show(v)[:200], r.limits())
            check_panics(rep, r)
    line_of('root_lje_line')
    line_of('root_lme_line')
    # the line of a load error is that of the error inside it
    for n, fs, r in per_variant(ctx, 'root_le_line', 0, ('kind',)):
        inner = list(fs.values())[0]
        ity = inner.a[1]
        for vi, name in enumerate(variants(W, ity)):
            box = {}

            def setup(c, ip, st, args, n=n, vi=vi, box=box):
                k = c.fld(st, ip, args[0], 'kind')
                ty, f0 = pick(ip, st, k, variants(W, k.a[1] if k.k == 'sym' else k.a[0]).index(n))
                box['f'] = pick(ip, st, f0[0], vi)[1]
            r = ctx.analyse('root_le_line', setup, cache=False)
            fs2 = dict(zip([m for m, _ in W.T[ity]['v'][vi]['f']], box['f']))
            for st, v in r.rets:
                rep.count('line accessors')
                vn, x = ctx.variant(st, v)
                good = (vn == 'Some' and same(st, x[0], fs2['line'])) if 'line' in fs2 else vn == 'None'
                rep.ob('line|%s %s' % (n, name), good, 'gives %s' % show(v)[:200], r.limits())
    for root, want in (('root_le_kind', None), ('root_le_into_kind', None)):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('inner errors')
            rep.ob(root, same(st, target(r.ip, st, v), ctx.fld(r.st0, r.ip, r.args[0], 'kind')), show(v)[:200], r.limits())
    for root, want in (('root_lje_from_io', 'Io'), ('root_lme_from_io', 'Io')):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('conversions')
            vn, fs = ctx.variant(st, v)
            rep.ob(root, vn == want and same(st, fs[0], r.args[0]), show(v)[:200], r.limits())
    for root, want in (('root_le_from_joints', 'Joints'), ('root_le_from_motion', 'Motion')):
        r = ctx.analyse(root)
        for st, v in r.rets:
            rep.count('conversions')
            vn, fs = ctx.variant(st, ctx.fld(st, r.ip, v, 'kind'))
            rep.ob(root, vn == want and same(st, fs[0], r.args[0]), show(v)[:200], r.limits())
    for root in ('root_lje_source', 'root_lme_source'):
        for n, fs, r in per_variant(ctx, root):
            for st, v in r.rets:
                rep.count('sources')
                vn, x = ctx.variant(st, v)
                if vn == 'Some':
                    rep.ob('%s|%s|is the error it holds' % (root, n), any(target(r.ip, st, x[0]) is y for y in fs.values()), show(v)[:200], r.limits())
                else:
                    rep.ob('%s|%s|none only when it wraps no error' % (root, n), vn == 'None' and not any(wraps(W, y) for y in fs.values()), show(v)[:200], r.limits())
            check_panics(rep, r)
    for n, fs, r in per_variant(ctx, 'root_le_source', 0, ('kind',)):
        for st, v in r.rets:
            rep.count('sources')
            vn, x = ctx.variant(st, v)
            rep.ob('root_le_source|%s' % n, vn == 'Some' and target(r.ip, st, x[0]) is list(fs.values())[0], show(v)[:200], r.limits())
        check_panics(rep, r)
    r = ctx.analyse('root_pce_into_inner')
    for st, v in r.rets:
        rep.count('inner errors')
        old = ctx.fld(r.st0, r.ip, r.args[0], 0)
        rep.ob('channel error gives back the text', v.k == 'seq' and old.k == 'seq' and r.ip.seq_eq(st, v, old), show(v)[:200], r.limits())
    WORDS = {'expected': (b'expect', b'contain'), 'actual': (b'found', b'actual', b'got', b'with')}
    for root, path in (('root_lje_display', ()), ('root_lme_display', ()), ('root_sme_display', ()), ('root_fie_display', ('kind',))):
        ty = arg_ty(ctx, root)
        if path and not any(m == path[0] for m, _ in W.T[ty]['v'][0]['f']):
            continue
        for n, fs, r in per_variant(ctx, root, 0, path):
            lim = r.limits()
            for st, v in r.rets:
                if ctx.variant(st, v)[0] == 'Err':
                    continue        # the formatter failed
                t = written(r, st)
                rep.count('messages')
                if t is None:
                    rep.ob('%s|%s|text known' % (root, n), False, '', lim)
                    continue
                for m, x in fs.items():
                    if x.k == 'lin' and m != 'channel_index':
                        b = printed(t, st.f.norm(x))
                        rep.ob('%s|%s|shows its %s' % (root, n, m), b is not None, show(t)[:400], lim)
                        for w, ks in WORDS.items():
                            other = 'actual' if w == 'expected' else 'expected'
                            if b is not None and m.startswith(w) and any(k in b.lower() for k in WORDS[other]) and \
                                    not any(k in b.lower() for k in ks):
                                rep.ob('%s|%s|%s shown as %s' % (root, n, m, m), False, 'after %r' % b, lim)
                    elif x.k == 'sym' and not wraps(W, x) and W.T[x.a[1]]['k'] == 'enum' and W.adt(x.a[1]) not in ('std::option::Option', 'core::option::Option') \
                            and (W.adt(x.a[1]) or '').startswith('bvh_anim'):
                        rep.count('nested values')
                        rep.ob('%s|%s|shows its %s' % (root, n, m), shows_enum(ctx, root, n, path, m), '', lim)
                    elif x.k == 'sym' and n == 'Io':
                        rep.ob('%s|Io|shows the error' % root, mentions(t, x.a[0]), show(t)[:300], lim)
            check_panics(rep, r)
    for n, fs, r in per_variant(ctx, 'root_le_display', 0, ('kind',)):
        for st, v in r.rets:
            if ctx.variant(st, v)[0] == 'Err':
                continue
            t = written(r, st)
            rep.count('messages')
            rep.ob('root_le_display|%s|shows the error inside' % n, t is not None and mentions(t, list(fs.values())[0].a[0]),
                   show(t)[:300] if t is not None else '', r.limits())
        check_panics(rep, r)
    for root in ('root_fre_display', 'root_pce_display'):
        r = ctx.analyse(root)
        for st, v in r.rets:
            if ctx.variant(st, v)[0] == 'Err':
                continue
            t = written(r, st)
            rep.count('messages')
            x = ctx.fld(r.st0, r.ip, r.args[0], 0)
            good = t is not None and (printed(t, x) is not None if x.k == 'lin' else mentions(t, ctx.fld(r.st0, r.ip, r.args[0], 0).a[0][0].a[0]) if x.k == 'seq' and x.a[0] else None)
            rep.ob(root + '|shows what it holds', good, show(t)[:300] if t is not None else '', r.limits())
        check_panics(rep, r)
    rep.floor('line accessors', 30)
    rep.floor('conversions', 4)
    rep.floor('sources', 17)
    rep.floor('messages', 20)


def wraps(W, x):
    """an error value of the crate or of std::io inside an error"""
    return x.k == 'sym' and ((W.adt(x.a[1]) or '') in ('std::io::Error', 'std::io::error::Error') or
                             (W.adt(x.a[1]) or '').startswith('bvh_anim::errors::'))


def shows_enum(ctx, root, variant, path, field):
    """the message differs for every value of a fieldless enum stored in the error"""
    W = ctx.W
    seen = {}
    ty = arg_ty(ctx, root)
    for n in path:
        ty = deref_ty(W, [t for m, t in W.T[ty]['v'][0]['f'] if m == n][0])
    vi = variants(W, ty).index(variant)
    names = [m for m, _ in W.T[ty]['v'][vi]['f']]
    ety = W.T[ty]['v'][vi]['f'][names.index(field)][1]
    for ei, en in enumerate(variants(W, ety)):
        def setup(c, ip, st, args, ei=ei):
            v = args[0]
            if path:
                v = c.fld(st, ip, v, *path)
            fs = pick(ip, st, v, vi)[1]
            pick(ip, st, fs[names.index(field)], ei)
        r = ctx.analyse(root, setup, cache=False)
        for st, v in r.rets:
            t = written(r, st)
            if t is None:
                return False
            # the part of the text that names the value: equal texts for two values hide it
            k = tuple((l, str(x)) for l, x in nums(t))
            if seen.setdefault(k, en) != en:
                return False
    return True


PROPS = {'T01': t01, 'T02': t02, 'W05': w05, 'B01': b01, 'E01': e01}
