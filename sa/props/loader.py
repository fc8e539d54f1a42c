"""Loading: the entry points, the skeleton section and the motion section."""
from .simple import *
from ..interp_base import OBJ
from ..models import seqval, fork, ok, err, SATURATED
from ..textio import LINENO, IOERR, gload
from .frames import check_spec

READER = ['root_load_reader', 'root_load_reader_m']
BYTES = ['root_load_bytes', 'root_load_bytes_m', 'root_load_str', 'root_load_fromstr', 'root_load_try_str', 'root_load_try_bstr',
         'root_load_try_bytes']


def callees(W, f):
    for b in f.get('blocks', ()):
        t = b['t']
        if t and t[0] == 'call' and t[1][0] == 'k' and t[1][1][0] == 'fn':
            g = W.F.get(t[1][1][1])
            if g is not None:
                yield g


def cores(W):
    """the functions of the crate that start reading a reader line by line"""
    return {f['path'] for f in W.F.values()
            if f['crate'] == 'bvh_anim' and any(g['path'].endswith('::byte_lines') for g in callees(W, f))}


def unread(ip, st, v, want, depth=4):
    """the reader value v stands at the start of the bytes `want`: True / False / None (not understood)"""
    while v.k in ('ref', 'sref') and depth:
        if v.k == 'sref':
            s = seqval(ip, st, v)
            return None if s is None else bool(ip.seq_eq(st, st.f.norm(s), want))
        v = ip.deref(st, v)
        depth -= 1
    if v.k == 'agg' and (ip.W.adt(v.a[0]) or '').endswith('io::Cursor'):
        src, pos = v.a[2][0][1]
        s = seqval(ip, st, src)
        if s is None:
            return None
        return bool(ip.seq_eq(st, st.f.norm(s), want)) and st.f.norm(pos) is ZERO
    return None


def l06(ctx, rep):
    """Every public load entry point is analysed with the function that starts reading lines replaced by an arbitrary one:
    on every path it is called exactly once, on a reader that stands at the first of exactly the bytes given (for the
    reader routes: on the reader given), and its result is returned as it is."""
    W = ctx.W
    cs = cores(W)
    rep.ob('loader found', len(cs) >= 1, str(sorted(cs)))
    names = set()
    for root in READER + BYTES:
        calls = []
        box = {}
        CNT = OBJ('g', 'loads')

        def m(ip, st, fx, f, args, site, dty, line):
            res = W.symval(mk('el', 'loaded', f['path']), dty)
            n = ip.load(st, CNT)
            st.mem[CNT] = add(n, ONE)
            calls.append((st.copy(), list(args), res, f['path'], n))
            return res

        def setup(c, ip, st, args):
            box['arg'] = args[0]
            box['want'] = seqval(ip, st, args[0]) if root in BYTES else None
            st.mem[CNT] = ZERO
        r = ctx.analyse(root, setup, special={p: m for p in cs}, cache=False)
        lim = r.limits()
        check_panics(rep, r)
        rep.ob('%s|uses the loader' % root, bool(calls), 'the function that reads lines is not called', lim)
        for st, args, res, path, n in calls:
            rep.count('loader calls')
            names.add(path)
            if root in READER:
                v = args[0]
                for _ in range(4):
                    if v.k != 'ref':
                        break
                    v = r.ip.deref(st, v)
                rep.ob('%s|the reader given' % root, v is box['arg'], show(v)[:200], lim + ([] if v.k == 'sym' else ['reader wrapped: ' + show(v)[:80]]))
            else:
                u = unread(r.ip, st, args[0], st.f.norm(box['want']))
                rep.ob('%s|all of the bytes given' % root, u is True, show(r.ip.deref(st, args[0]) if args[0].k == 'ref' else args[0])[:200],
                       lim + ([] if u is not None else ['reader not understood']))
        for st, v in r.rets:
            rep.count('return paths')
            rep.ob('%s|loads once' % root, st.f.norm(r.ip.load(st, CNT)) is ONE, show(r.ip.load(st, CNT)), lim)
            rep.ob('%s|result unchanged' % root, any(v is c[2] for c in calls), show(v)[:200], lim)
    rep.ob('one loader', len(names) == 1, str(sorted(names)))
    rep.floor('loader calls', len(READER + BYTES))
    rep.floor('return paths', len(READER + BYTES))


# ---------------------------------------------------------------- the loader itself
FAILED = OBJ('g', 'failed')       # what could not be read or parsed: 0 nothing, else see WHAT
WHAT = {'read': 1, 'f32': 2, 'usize': 3, 'f64': 4, 'channel': 5}
SECTION = {'LoadJointsError': {'ParseOffsetError': ('f32',), 'MissingOffsetAxis': (None,), 'ParseNumChannelsError': ('usize', None),
                               'ParseChannelError': ('channel',)},
           'LoadMotionError': {'MissingMotionSection': (None,), 'MissingNumFrames': ('usize', None), 'MissingFrameTime': ('f64', None),
                               'ParseMotionSection': ('f32',), 'MotionCountMismatch': (None,)}}
UINT = ('usize', 'u64', 'u32')
LASTU = OBJ('g', 'lastuint')      # the last whole number parsed
MU = OBJ('g', 'm_uint')           # a whole number has been parsed in the motion section
MF = OBJ('g', 'm_time')           # a frame time has been parsed in the motion section
LMAX = 2 ** 61


def errname(W, t):
    d = W.T[t]
    if d['k'] == 'enum' and d.get('def') in ('std::result::Result', 'core::result::Result'):
        return (W.adt(d['args'][1]) or '').split('::')[-1]
    return ''


def in_motion(W, fx):
    """the call chain passes through a function that reports motion errors"""
    m = getattr(W, '_motion', None)
    if m is None:
        m = W._motion = {f['path'] for f in W.F.values() if f['crate'] == 'bvh_anim' and 'blocks' in f and errname(W, f['locals'][0]) == 'LoadMotionError'}
    return fx is not None and any(p in m for p in fx.chain)


def channel_types(W):
    """functions of the crate that turn a text into a channel type (their behaviour is T02's)"""
    out = {}
    for f in W.F.values():
        if f['crate'] == 'bvh_anim' and 'blocks' in f and f['argc'] == 1 and errname(W, f['locals'][0]) == 'ParseChannelError':
            out[f['path']] = f
    return out


def m_channel(ip, st, fx, f, args, site, dty, line):
    s = seqval(ip, st, args[0])
    if s is None:
        return None
    s = st.f.norm(s)
    W = ip.W
    a, b = fork(ip, st, batom(('parses', 'channel', s)))
    out = []
    if a is not None:
        out.append((a, ok(ip, dty, W.symval(mk('el', 'chty', s), W.T[dty]['args'][0]))))
    if b is not None:
        b.mem[FAILED] = I(WHAT['channel'])
        out.append((b, err(ip, dty, W.symval(mk('el', 'parse_error', 'channel', s), W.T[dty]['args'][1]))))
    return out


def h_parse(ip, st, fx, tn, s, v, good):
    k = 'usize' if tn in UINT else tn
    if not good:
        st.mem[FAILED] = I(WHAT.get(k, 9))
        return
    if k == 'usize':
        st.mem[LASTU] = v
    if in_motion(ip.W, fx):
        if k == 'usize':
            st.mem[MU] = B(True)
        elif k == 'f64':
            st.mem[MF] = B(True)
        elif k == 'f32':
            st.mem[NVAL] = st.f.norm(add(st.mem[NVAL], ONE))


EOF = OBJ('g', 'eof')             # the reader has been read to its end
REST = OBJ('g', 'rest')           # tokens of the current motion line may still be unread
LEFT = OBJ('g', 'left')           # a motion line has been left before its last token
NVAL = OBJ('g', 'values')         # motion values parsed
TOKS = OBJ('g', 'tokens')         # tokens taken from the last line (where asked for)
DRY = OBJ('g', 'dry')             # there was no other


def sections(W):
    """the functions that read the skeleton and the motion section, by the error they report: {error: path}, or None if they
    are not two functions that work on the object and the lines"""
    out = {}
    for e in SECTION:
        c = [f for f in W.F.values() if f['crate'] == 'bvh_anim' and 'blocks' in f and '{closure' not in f['path'] and errname(W, f['locals'][0]) == e
             and f['argc'] == 2 and W.T[f['locals'][1]]['k'] == 'ref' and W.T[f['locals'][1]].get('mut') and (W.adt(W.T[f['locals'][1]]['e']) or '').endswith('::Bvh')
             and W.T[W.T[f['locals'][0]]['args'][0]]['k'] == 'tuple' and not W.T[W.T[f['locals'][0]]['args'][0]].get('e')]
        if len(c) != 1:
            return None
        out[e] = c[0]['path']
    a, b = out.values()
    for x, y in ((a, b), (b, a)):       # neither is part of the other
        seen, work = set(), [f for f in W.F.values() if f['path'] == x]
        while work:
            f = work.pop()
            if f['path'] in seen:
                continue
            seen.add(f['path'])
            work.extend(callees(W, f))
        if y in seen:
            return None
    return out


def enumerates(W, t, depth=3):
    """paths to the counter of an `Enumerate` inside a type"""
    d = W.T[t]
    if d['k'] != 'struct' or depth < 0:
        return []
    if d.get('def') == 'std::iter::Enumerate':
        return [(('f', 0, 1),)]
    return [(('f', 0, i),) + p for i, (_, u) in enumerate(d['v'][0]['f']) for p in enumerates(W, u, depth - 1)] if d.get('v') else []


def some_lines(ip, st, fx, f, args, site, line):
    """any number of lines, at least one, has been taken from the iterator over the lines: the last of them by its own `next`"""
    W = ip.W
    n = lin_atom(('s', 'skeleton lines'), 1, 2 ** 62)
    t = W.T[f['locals'][2]]
    if t['k'] == 'ref' and args[1].k == 'ref':
        t = t['e']
        ps = enumerates(W, t)
        for p in ps:
            ip.write(st, args[1].a[0], args[1].a[1] + p, sub(n, ONE))
        st.mem[LINENO] = sub(n, ONE)
        nx = [(k, g) for k, g in W.F.items() if g['crate'] == 'bvh_anim' and 'blocks' in g and g['argc'] == 1 and W.T[g['locals'][1]]['k'] == 'ref'
              and W.T[g['locals'][1]]['e'] == t and g['path'].endswith(' as std::iter::Iterator>::next')]
        if len(ps) == 1 and len(nx) == 1:
            out = [s for s, v in ip.invoke(st, fx, Fn(nx[0][0]), [args[1]], site + ('skel',), nx[0][1]['locals'][0], line)
                   if s.f.norm(gload(ip, s, IOERR)) is ZERO and s.f.ent(eq0(sub(gload(ip, s, LINENO), n))) is True]
            if out:
                return out
        for p in ps:
            ip.write(st, args[1].a[0], args[1].a[1] + p, n)
    st.mem[LINENO] = n
    return [st]


def m_skeleton(ip, st, fx, f, args, site, dty, line):
    """any skeleton section: any joints, channel count and earlier motion values, any number of lines, success or failure"""
    W = ip.W
    t = W.T[f['locals'][1]]['e']
    ip.store(st, args[0], W.symval(mk('el', 'skeleton'), t))
    out = []
    for s in some_lines(ip, st, fx, f, args, site, line):
        b = s.copy()
        out += [(s, ok(ip, dty, Struct(W.T[dty]['args'][0], ()))), (b, err(ip, dty, W.symval(mk('el', 'other section'), W.T[dty]['args'][1])))]
    return out


def m_motion(ip, st, fx, f, args, site, dty, line):
    """any motion section"""
    W = ip.W
    ip.skeletons.append((st.copy(), args[0]))
    b = st.copy()
    return [(st, ok(ip, dty, Struct(W.T[dty]['args'][0], ()))), (b, err(ip, dty, W.symval(mk('el', 'other section'), W.T[dty]['args'][1])))]


def h_line(ip, st, got):
    if TOKS in st.mem:
        st.mem[TOKS], st.mem[DRY] = ZERO, B(False)
    if got is None:
        st.mem[EOF] = B(True)
    elif got and st.mem.get(MF) is B(True):
        if st.mem.get(REST) is not B(False):
            st.mem[LEFT] = B(True)
        st.mem[REST] = B(True)


def h_token(ip, st, got):
    if TOKS in st.mem and st.mem.get(MF) is not B(True):
        if got:
            st.mem[TOKS] = st.f.norm(add(st.mem[TOKS], ONE))
        else:
            st.mem[DRY] = B(True)
    if not got and st.mem.get(MF) is B(True):
        st.mem[REST] = B(False)


def load(ctx, part='whole', watch=None, pat0=2, setup=None, special=None, keyed=None):
    """an arbitrary reader, through the public entry point; with part 'skeleton' or 'motion' the other section is replaced by
    an arbitrary one"""
    W = ctx.W

    def init(c, ip, st, args):
        ip.pat0 = pat0
        ip.skeletons = []
        st.mem[LINENO] = ZERO
        st.mem[FAILED] = ZERO
        st.mem[LASTU] = ZERO
        st.mem[NVAL] = ZERO
        for g in (MU, MF, SATURATED, EOF, REST, LEFT):
            st.mem[g] = B(False)
        ip.keyed = keyed if keyed is not None else (FAILED, MU, MF) if part == 'motion' else ()
        if setup:
            return setup(c, ip, st, args)
    sp = {p: m_channel for p in channel_types(W)}
    if part != 'whole':
        a, b = sections(W).values()
        if part == 'motion':
            sp[a] = m_skeleton
        else:
            sp[b] = m_motion
    sp.update(special or {})
    w = {'parse': h_parse, 'line': h_line, 'token': h_token}
    w.update(watch or {})
    r = ctx.analyse('root_load_reader', init, watch=w, special=sp, budget=400000, cache=False)
    return r


def split(ctx, rep, job):
    """the two sections are analysed apart, if they are functions of their own, otherwise together"""
    if sections(ctx.W) is None:
        rep.note('the sections are not functions of their own: analysed together')
        job(ctx, rep, 'whole')
    else:
        parallel(ctx, rep, [lambda c, r, p=p: job(c, r, p) for p in ('skeleton', 'motion')])


def choices(ctx, ip, st, v):
    """(state, variant, fields) for every variant the value may be"""
    W = ctx.W
    if v.k == 'sym':
        v = W.expand(v)
    if v.k != 'agg':
        return None
    d = st.f.norm(v.a[1])
    out = []
    for vi, fs in v.a[2]:
        nm = W.T[v.a[0]]['v'][vi]['n'].split('::')[-1]
        s = st if cval(d) is not None else ip.assuming(st, eq0(sub(d, I(W.sdisc(v.a[0], vi)))))
        if s is None or cval(d) is not None and W.variant_of(v.a[0], cval(d)) != vi:
            continue
        out.append((s, nm, fs))
    return out


def outcomes(ctx, ip, st, v):
    """[(state, 'Ok', value) | (state, 'Err', section, variant, {field: value})], or None"""
    W = ctx.W
    out = []
    cs = choices(ctx, ip, st, v)
    if not cs:
        return None
    for s, vn, fs in cs:
        if vn == 'Ok':
            out.append((s, 'Ok', fs[0]))
        else:
            r = errors(ctx, ip, s, fs[0])
            if r is None:
                return None
            out.extend(r)
    return out


def errors(ctx, ip, st, e, depth=0):
    W = ctx.W
    if e.k == 'sym' and e.a[0] is mk('el', 'other section'):
        return []
    if e.k == 'sym':
        e = W.expand(e)
    if e.k != 'agg' or depth > 5:
        return None
    t = W.T[e.a[0]]
    nm = (W.adt(e.a[0]) or '').split('::')[-1]
    out = []
    if t['k'] == 'enum':
        cs = choices(ctx, ip, st, e)
        if cs is None:
            return None
        for s, en, fs in cs:
            if nm in ('LoadJointsError', 'LoadMotionError'):
                q = [x for x in t['v'] if x['n'].split('::')[-1] == en][0]
                out.append((s, 'Err', nm, en, dict(zip([x[0] for x in q['f']], fs))))
                continue
            r = errors(ctx, ip, s, fs[0], depth + 1) if fs else None
            if r is None:
                return None
            out.extend(r)
        return out
    if not e.a[2] or not e.a[2][0][1]:
        return None
    return errors(ctx, ip, st, e.a[2][0][1][0], depth + 1)


def results(ctx, rep, r):
    """the outcomes of a run; what is not understood is undecided"""
    out = []
    for st, v in r.rets:
        o = outcomes(ctx, r.ip, st, v)
        if o is None:
            rep.count('returns not understood')
            rep.ob('returns understood', False, show(v)[:200], r.limits() + ['result not understood'])
            continue
        out.extend(o)
    return out


def l01(ctx, rep):
    """The whole loader is analysed on a reader that yields any number of lines of any content and may fail at any line.
    Every operation that could panic is discharged on every path: index and slice bounds, subtraction, unwraps,
    reservations, conversions to a duration, unreachable arms.  The two sections, where they are functions of their own,
    are analysed each with the other one arbitrary.  Counters that come from bounded numbers by adding small constants
    are taken not to reach 2^63."""
    def job(ctx, rep, part):
        r = load(ctx, part)
        check_panics(rep, r)
        rep.count('return paths', len(r.rets))
        rep.ob(part + '|returns', len(r.rets) >= 5, '%d' % len(r.rets), r.limits())
        for x in r.limits():
            rep.ob(part + '|complete', False, x, [x])
    split(ctx, rep, job)
    rep.floor('panic sites', 3)


def l02(ctx, rep):
    """On every path of the loader that returns success: the motion values are as many as the number of channels stored
    times the last whole number parsed (the frame count), as a product of exact integers; every motion value that was
    parsed has been kept, every line of values has been read to its last token and the reader to its end; all other outcomes are errors.
    The skeleton section, where it is a function of its own, is arbitrary here."""
    part = 'whole' if sections(ctx.W) is None else 'motion'
    r = load(ctx, part)
    ip = r.ip
    lim = r.limits()
    for st, *o in results(ctx, rep, r):
        if o[0] != 'Ok':
            rep.count('error paths')
            continue
        rep.count('success paths')
        C = ctx.fld(st, ip, o[1], 'num_channels')
        mv = ctx.fld(st, ip, o[1], 'motion_values')
        F = ip.load(st, LASTU)
        n = mv.a[1] if mv.k == 'seq' else TOP
        good = n.k == 'lin' and C.k == 'lin' and F.k == 'lin' and st.f.ent(eq0(sub(n, mul(C, F)))) is True
        rep.ob('success|values are frames times channels', good, 'len %s, C %s, F %s' % (show(n)[:200], show(C)[:200], show(F)[:200]), lim)
        for g, x, what in ((MU, True, 'a frame count has been read'), (MF, True, 'a frame time has been read'), (EOF, True, 'all lines have been read'),
                           (REST, False, 'the last line has been read to its end'), (LEFT, False, 'every line of values has been read to its end')):
            v = st.mem[g]
            rep.ob('success|' + what, st.f.ent(v if x else bnot(v)) is True, show(v)[:200], lim)
        n0 = ZERO
        if part == 'motion':
            q = ctx.W.expand(ctx.W.symval(mk('el', 'skeleton'), o[1].a[0]))
            q = ctx.fld(st, ip, q, 'motion_values')
            n0 = q.a[1]
        nv = ip.load(st, NVAL)
        rep.ob('success|every value parsed is kept', n.k == 'lin' and st.f.ent(eq0(sub(sub(n, n0), nv))) is True, 'parsed %s, kept %s' % (show(nv)[:200], show(n)[:200]), lim)
    rep.floor('success paths', 1)
    rep.floor('error paths', 5)


def l03(ctx, rep):
    """Along every path of the loader it is recorded whether a read has failed or a token handed to a number or
    channel-name parser has not parsed.  No path on which that has happened returns success.  The two sections, where
    they are functions of their own, are analysed each with the other one arbitrary."""
    def job(ctx, rep, part):
        r = load(ctx, part)
        lim = r.limits()
        for st, v in r.rets:
            vn = ctx.variant(st, v)[0]
            bad = [n for n, g in (('a read', IOERR), ('a token', FAILED)) if st.f.norm(gload(r.ip, st, g)) is not ZERO]
            if bad:
                rep.count('paths with a failure')
                for n in bad:
                    rep.ob('%s|%s that fails is an error' % (part, n), vn == 'Err', 'returns %s' % vn, lim + ([] if vn else ['result not understood']))
            else:
                rep.count('paths without a failure')
        for st, p in r.ip.skeletons:
            rep.count('skeletons handed to the motion section')
            mv = ctx.fld(st, r.ip, r.ip.deref(st, p), 'motion_values')
            rep.ob('skeleton|no motion values yet', mv.k == 'seq' and st.f.norm(mv.a[1]) is ZERO, show(mv)[:200], lim)
            for n, g in (('a read', IOERR), ('a token', FAILED)):
                rep.ob('skeleton|%s that fails ends the loading' % n, st.f.norm(gload(r.ip, st, g)) is ZERO, '', lim)
    split(ctx, rep, job)
    rep.floor('paths with a failure', 4)


def described(W, ty, vi):
    """(section, variant, {field: type}) of a variant of one of the two error types the sections report"""
    nm = (W.adt(ty) or '').split('::')[-1]
    if nm not in SECTION:
        return None
    v = W.T[ty]['v'][vi]
    return nm, v['n'].split('::')[-1], v['f']


def l07(ctx, rep):
    """Wherever the loader makes an error with a line number: that number is the number of the last line read, counted
    from the start of the text (the same count for both sections).  The motion section, where it is a function of its
    own, is analysed after any number of lines."""
    def job(c, rep, part):
        seen = set()

        def built(ip, st, fx, ty, vi, ops, site):
            d = described(ip.W, ty, vi)
            for (n, t), x in zip(d[2], ops) if d else ():
                if n == 'line':
                    seen.add(d[:2])
                    if st.f.norm(gload(ip, st, IOERR)) is ONE:
                        continue            # made beforehand and not used: what is returned is the error of the reader (L08)
                    y = gload(ip, st, LINENO)
                    ip.oblige('spec', st, fx, 0, '%s::%s carries the number of the line' % d[:2], eq0(sub(add(x, ONE), y)) if x.k == 'lin' else FALSE,
                              '%s, lines read %s' % (show(st.f.norm(x))[-120:], show(st.f.norm(y))[-120:]))
        r = load(ctx, part, watch={'build': built})
        check_spec(rep, r, part)
        for x in r.limits():
            rep.ob(part + '|complete', False, x, [x])
        rep.count('return paths', len(r.rets))
        rep.count('kinds of error with a line', len(seen))
    split(ctx, rep, job)
    rep.floor('return paths', 10)
    rep.floor('kinds of error with a line', 10)


def token_of(v, depth=6):
    """(text, separators, position) of the token a parse error was made from"""
    if v.k == 'sym':
        v = v.a[0]
    if isinstance(v, Obj) and v.k == 'el' and v.a[0] == 'parse_error' and len(v.a) == 3 and v.a[2].k == 'seq':
        s = v.a[2]
        if len(s.a[0]) == 1 and s.a[0][0].k == 'sub' and s.a[0][0].a[1] is ZERO:
            k = s.a[0][0].a[0].a[0]
            if isinstance(k, Obj) and k.k == 'el' and k.a[0] == 'tok':
                return k.a[1:]
    return None


def tokens(c, ip, st, args):
    st.mem[TOKS], st.mem[DRY] = ZERO, B(False)


REASON = ('error', 'parse_error', 'parse_float_error')
STAGE = {'MissingMotionSection': (False, False), 'MissingNumFrames': (False, False), 'MissingFrameTime': (True, None),
         'ParseMotionSection': (True, True), 'MotionCountMismatch': (True, True)}


def h_error(ip, st, fx, ty, vi, ops, site):
    """what an error says when it is made"""
    W = ip.W
    d = described(W, ty, vi)
    if d is None or d[1] == 'Io':
        return
    sec, en, fs = d
    fs = {n: (t, x) for (n, t), x in zip(fs, ops)}
    ip.errors.add((sec, en))

    def want(what, c):
        ip.oblige('spec', st, fx, 0, '%s::%s|%s' % (sec, en, what), c, None)
    if st.f.norm(gload(ip, st, IOERR)) is ONE:
        return              # made beforehand and not used: what is returned is the error of the reader
    failed = st.f.norm(ip.load(st, FAILED))
    kinds = [WHAT[k] for k in SECTION[sec].get(en, ()) if k]
    rs = [(t, x) for n, (t, x) in fs.items() if n in REASON]
    if not rs:
        want('nothing has failed to parse', eq0(failed))
    for t, x in rs:
        if (W.T[t].get("def") or "").endswith('option::Option'):
            x = W.expand(x) if x.k == 'sym' else x
            tag = st.f.norm(x.a[1]) if x.k == 'agg' else None
            if tag is None:
                want('the reason is understood', FALSE)
                continue
            none_ = [i for i, q in enumerate(W.T[t]['v']) if q['n'].split('::')[-1] == 'None'][0]
            isnone = eq0(sub(tag, I(W.sdisc(t, none_))))
            want('no reason given: nothing has failed to parse', bor(bnot(isnone), eq0(failed)))
            want('a reason given: that is what has failed to parse', bor(isnone, *[eq0(sub(failed, I(k))) for k in kinds]))
        else:
            want('the reason is what has failed to parse', bor(*[eq0(sub(failed, I(k))) for k in kinds]))
    for g, x, nm in zip((MU, MF), STAGE.get(en, ()), ('frame count', 'frame time')):
        if x is not None:
            want('%s %sread before' % (nm, '' if x else 'not '), st.mem[g] if x else bnot(st.mem[g]))
    if 'expected_num_frames' in fs:
        want('frames announced', eq0(sub(fs['expected_num_frames'][1], ip.load(st, LASTU))))
    tok_ = None
    for t, x in rs:
        tok_ = token_of(x) or tok_
    k = None
    if 'axis' in fs:
        t, x = fs['axis']
        x = W.expand(x) if x.k == 'sym' else x
        k = cval(st.f.norm(x.a[1])) if x.k == 'agg' else None
        if k is None or en == 'ParseOffsetError' and not tok_:
            k = None
            ip.note('axis not known', fx.body.path)
    if k is not None:
        k = -1 if k is None else 'XYZ'.find(W.T[t]['v'][W.variant_of(t, k)]['n'].split('::')[-1])
        if en == 'ParseOffsetError':
            want('axis of the component', eq0(sub(tok_[2], I(k + 1))) if tok_ and k >= 0 else FALSE)
        else:
            y = st.mem[TOKS]
            want('the axis is that of the first component that is missing',
                 bor(bnot(st.mem[DRY]), eq0(sub(y, I(k + 1)))) if y.k == 'lin' and k >= 0 else FALSE)
    if 'channel_index' in fs:
        x = fs['channel_index'][1]
        want('position of the value', eq0(sub(tok_[2], x)) if tok_ and x.k == 'lin' else FALSE)


def l08(ctx, rep):
    """Wherever the loader makes an error, the error is compared with what has happened on the path so far: the kind of
    token that did not parse (offset number, channel count, channel name, frame count, frame time, motion value), how
    far the motion section has got, whether a read failed.  Axis and position in an error are those of the token that
    did not parse, or of the first token that is missing.  A read that fails is returned as an error of the reader, and
    an error of the reader is returned only then."""
    def job(ctx, rep, part):
        kinds = set()

        def setup(c, ip, st, args):
            st.mem[TOKS], st.mem[DRY] = ZERO, B(False)
            ip.errors = kinds
        r = load(ctx, part, setup=setup, watch={'build': h_error})
        ip = r.ip
        lim = r.limits()
        check_spec(rep, r, part)
        for st, *o in results(ctx, rep, r):
            if o[0] != 'Err':
                continue
            _, sec, en, fs = o
            rep.count('error paths')
            e = st.f.ent(eq0(sub(gload(ip, st, IOERR), I(1 if en == 'Io' else 0))))
            rep.ob('%s|a failing read is reported as one' % part, e is True, '%s::%s' % (sec, en), lim + ([] if e is False else ['merged paths']))
            if en == 'MotionCountMismatch':
                a, b = fs['actual_total_motion_values'], fs['expected_total_motion_values']
                rep.count('mismatches')
                rep.ob('%s|a mismatch is reported only if the numbers differ' % part, a.k == b.k == 'lin' and st.f.ent(ne0(sub(a, b))) is True, '%s %s' % (show(a)[:100], show(b)[:100]), lim)
        rep.count('kinds of error', len(kinds))
    split(ctx, rep, job)
    rep.floor('kinds of error', 14)
    rep.floor('error paths', 5)
    rep.floor('mismatches', 1)


NCH = OBJ('g', 'channels')        # channels made so far
PEND = OBJ('g', 'pending')        # those made since the last joint was put into the list
NONE = OBJ('g', 'none pending')


def elem(W, s):
    return (W.adt(s.a[2]) or '').split('::')[-1] if isinstance(s.a[2], int) else ''


def h_channels(ip, st, fx, f, vw, s, x, line):
    W = ip.W
    kind = elem(W, s)
    if x.k == 'sym':
        x = W.expand(x)
    if kind == 'Channel' and x.k == 'agg':
        n = [v for v in x.a[2][0][1] if v.k == 'lin']
        ip.oblige('spec', st, fx, line, 'a new channel has the next number', eq0(sub(n[0], st.mem[NCH])) if len(n) == 1 else FALSE, show(x)[:200])
        for g in (NCH, PEND):
            st.mem[g] = st.f.norm(add(st.mem[g], ONE))
        st.mem[NONE] = B(False)
    elif kind == 'JointData' and x.k == 'agg':
        d = st.f.norm(x.a[1])
        for vi, fs in x.a[2]:
            a = st if cval(d) is not None else ip.assuming(st, eq0(sub(d, I(W.sdisc(x.a[0], vi)))))
            if a is None or cval(d) is not None and W.variant_of(x.a[0], cval(d)) != vi:
                continue
            c = [q for q in map(W_seq, fs) if q is not None and elem(W, q) == 'Channel']
            ip.oblige('spec', a, fx, line, 'a joint has all channels made since the last joint',
                      eq0(sub(c[0].a[1], a.mem[PEND])) if len(c) == 1 else FALSE, show(c[0].a[1])[-200:] if c else '')
        st.mem[PEND] = ZERO
        st.mem[NONE] = B(True)


def W_seq(v):
    while v.k == 'agg' and len(v.a[2]) == 1 and len(v.a[2][0][1]) == 1:
        v = v.a[2][0][1][0]
    return v if v.k == 'seq' else None


def l04(ctx, rep):
    """The number of channels made, and the number of those that are in joints of the list, are counted along every path
    of the loader.  Every channel is made with the number of channels made before it; a joint that is put into the list has
    exactly the channels made since the last one was; at the end all channels made are in joints, and the object's channel
    count is their number.  The motion section, where it is a function of its own, is arbitrary here; it may not touch the skeleton."""
    def job(ctx, rep, part):
        if part == 'motion':
            return
        def setup(c, ip, st, args):
            st.mem[NCH] = st.mem[PEND] = ZERO
            st.mem[NONE] = B(True)
        r = load(ctx, part, watch={'push': h_channels}, setup=setup, keyed=(NONE,))
        ip = r.ip
        lim = r.limits()
        check_spec(rep, r, 'load')
        rep.count('obligations on the way', sum(1 for o in ip.log if o.kind == 'spec'))
        done = [(st, ip.deref(st, p)) for st, p in ip.skeletons] if part == 'skeleton' else [(o[0], o[2]) for o in results(ctx, rep, r) if o[1] == 'Ok']
        for st, v in done:
            rep.count('skeletons')
            n = ctx.fld(st, ip, v, 'num_channels')
            rep.ob('end|the channel count is the number of channels made', st.f.ent(eq0(sub(n, st.mem[NCH]))) is True, show(n)[-200:], lim)
            rep.ob('end|all channels are in joints', st.f.ent(eq0(st.mem[PEND])) is True, show(st.mem[PEND])[-200:], lim)
    split(ctx, rep, job)
    rep.floor('skeletons', 1)
    rep.floor('obligations on the way', 2)


PROPS = {'L04': l04, 'L08': l08, 'L01': l01, 'L02': l02, 'L03': l03, 'L06': l06, 'L07': l07}
