"""Writing: delivery of the text, the same text by every route, and the text itself."""
from .simple import *
from ..interp_base import OBJ
from ..models import fork, ok, err, view, seqval, setseq, SeqLit
from .frames import check_spec

TEXT = OBJ('so', ('thetext',))    # the whole text of the object in the given options
DRAWN = OBJ('g', 'wdrawn')        # how much of it the generator has handed out
DONE = OBJ('g', 'wdone')          # the generator has said that there is no more
STARTED = OBJ('g', 'wstarted')    # the generator has been asked at least once
SENT = OBJ('g', 'wsent')          # how many bytes the writer has accepted: always the first ones of the text
FAILED = OBJ('g', 'wfailed')      # a write or flush has failed
FLUSHED = OBJ('g', 'wflushed')    # everything accepted has been flushed
TMAX = 2 ** 60


def u8vec(W, t):
    d = W.T[t]
    return W.seq_elem(t) is not None and W.T[W.seq_elem(t)]['k'] == 'uint' and W.T[W.seq_elem(t)].get('b') == 8


def producers(W):
    """functions of the crate that fill a byte buffer with the next part of the text: path -> (buffer position, state positions)"""
    out = {}
    for k, f in W.F.items():
        if f['crate'] != 'bvh_anim' or 'blocks' not in f or W.T[f['locals'][0]]['k'] != 'bool':
            continue
        buf, state = None, []
        for i in range(f['argc']):
            t = W.T[f['locals'][i + 1]]
            if t['k'] == 'ref' and t.get('mut'):
                if u8vec(W, t['e']):
                    buf = i
                else:
                    state.append(i)
        if buf is not None and state:
            out[f['path']] = (buf, state)
    return out


def generator(ctx, box, pos):
    buf, state = pos

    def m(ip, st, fx, f, args, site, dty, line):
        W = ip.W
        for i, a in enumerate(args):
            if i == buf or i in state:
                continue
            for n in ('options', 'bvh'):
                if n in box and box[n][1] == f['locals'][i + 1]:
                    ip.oblige('spec', st, fx, line, 'the text is that of the %s given' % n, st.f.norm(ip.deref(st, a)) is box[n][0])
                    box['seen'].add(n)
        first = st.mem[STARTED] is B(False)
        for i in state:
            v = st.f.norm(ip.deref(st, args[i]))
            t = W.T[f['locals'][i + 1]]['e']
            later = W.symval(mk('el', 'generator'), t)
            if first:
                box['init'].add(v)
            else:
                ip.oblige('spec', st, fx, line, 'the text is generated in one go', v is later)
            ip.write(st, args[i].a[0], args[i].a[1], later)
        if not (st.mem[DONE] is B(False)):
            return ip.fresh(('again', site), dty)
        st.mem[STARTED] = B(True)
        off = ip.load(st, DRAWN)
        vw = view(ip, st, args[buf])
        if vw is None:
            return None
        a, b = st, st.copy()
        n = lin_atom(('clen', off), 0, 4 * TMAX)
        a.f.assume(ge0(sub(I(TMAX), add(off, n))))
        setseq(ip, a, vw, ip.seq_slice(a, ip.load(a, TEXT), off, n))
        a.mem[DRAWN] = add(off, n)
        b.mem[DONE] = B(True)
        setseq(ip, b, vw, SeqLit((), W.U8))
        return [(a, B(True)), (b, B(False))]
    return m


def offered(ip, st, fx, line, s):
    """the bytes offered to the writer continue the text where the accepted ones end"""
    at = ip.load(st, SENT)
    st.f.assume(ge0(sub(I(TMAX), ip.load(st, DRAWN))))     # the generator hands out parts of the text only
    want = ip.seq_slice(st, ip.load(st, TEXT), at, s.a[1])
    good = bool(ip.seq_eq(st, s, st.f.norm(want)))
    ip.oblige('spec', st, fx, line, 'the writer is offered the text from where it stopped', good, show(s)[:200])


def m_accept(good):
    """a writer: accepts some first part of what it is given, or fails.  good: accepts everything"""
    def m(ip, st, fx, f, args, site, dty, line):
        s = seqval(ip, st, args[0])
        if s is None:
            return None
        s = st.f.norm(s)
        offered(ip, st, fx, line, s)
        out = []
        if not good:
            e = st.copy()
            e.mem[FAILED] = B(True)
            out.append((e, err(ip, dty, ip.fresh(('werr', site), ip.W.T[dty]['v'][1]['f'][0][1]))))
        n = s.a[1]
        if not good:
            n = ip.fresh(('accepted', site), ip.W.T[dty]['v'][0]['f'][0][1])
            st.f.assume(ge0(sub(s.a[1], n)))
        st.mem[SENT] = add(ip.load(st, SENT), n)
        st.mem[FLUSHED] = B(False)
        out.append((st, ok(ip, dty, n)))
        return out
    return m


def m_all(good):
    """Write::write_all on the writer"""
    def m(ip, st, fx, f, args, site, dty, line):
        s = seqval(ip, st, args[1])
        if s is None:
            return None
        s = st.f.norm(s)
        offered(ip, st, fx, line, s)
        out = []
        if not good:
            e = st.copy()
            e.mem[FAILED] = B(True)
            n = lin_atom(('partly', site), 0, TMAX)
            e.f.assume(ge0(sub(s.a[1], n)))
            e.mem[SENT] = add(ip.load(e, SENT), n)
            out.append((e, err(ip, dty, ip.fresh(('werr', site), ip.W.T[dty]['v'][1]['f'][0][1]))))
        st.mem[SENT] = add(ip.load(st, SENT), s.a[1])
        st.mem[FLUSHED] = B(False)
        out.append((st, ok(ip, dty, ip.W.unit())))
        return out
    return m


def m_flush(good):
    def m(ip, st, fx, f, args, site, dty, line):
        out = []
        if not good:
            e = st.copy()
            e.mem[FAILED] = B(True)
            out.append((e, err(ip, dty, ip.fresh(('ferr', site), ip.W.T[dty]['v'][1]['f'][0][1]))))
        st.mem[FLUSHED] = B(True)
        out.append((st, ok(ip, dty, ip.W.unit())))
        return out
    return m


def delivery(ctx, root, good):
    """runs a writing function with the text generator and the writer replaced by arbitrary ones"""
    W = ctx.W
    ps = producers(W)
    box = {'init': set(), 'seen': set()}

    def setup(c, ip, st, args):
        b = W.body(W.roots[root])
        for i, a in enumerate(args):
            t = W.T[b.locals[i + 1]]
            if t['k'] == 'ref':
                d = W.adt(t['e']) or ''
                if d.endswith('WriteOptions'):
                    box['options'] = (st.f.norm(ip.deref(st, a)), b.locals[i + 1])
                elif d.endswith('::Bvh'):
                    box['bvh'] = (st.f.norm(ip.deref(st, a)), b.locals[i + 1])
        st.mem[TEXT] = SeqOp(('el', 'thetext'), W.U8, lin_atom(('len', 'thetext'), TMAX, TMAX))
        st.mem[DRAWN] = ZERO
        st.mem[SENT] = ZERO
        for g in (DONE, STARTED, FAILED):
            st.mem[g] = B(False)
        st.mem[FLUSHED] = B(True)
    sp = {p: generator(ctx, box, pos) for p, pos in ps.items()}
    sp['bvh_roots::opaque_write'] = m_accept(good)
    sp['bvh_roots::opaque_flush'] = m_flush(good)
    sp['std::io::Write::write_all'] = m_all(good)
    return ctx.analyse(root, setup, special=sp, cache=False), box


def whole_text(r, st, s):
    """s is everything the generator has handed out, and there is no more"""
    want = r.ip.seq_slice(st, r.ip.load(st, TEXT), ZERO, r.ip.load(st, DRAWN))
    return st.mem[DONE] is B(True) and bool(r.ip.seq_eq(st, st.f.norm(s), st.f.norm(want)))


def all_sent(r, st):
    return st.mem[DONE] is B(True) and bool(st.f.ent(eq0(sub(r.ip.load(st, SENT), r.ip.load(st, DRAWN)))))


def w01(ctx, rep):
    """The loop that hands the text to the writer is analysed with the text generator replaced by an arbitrary sequence
    of chunks and the writer by an arbitrary one (each call fails, or accepts any first part of what it is offered; a
    flush fails or not).  On every path that returns success the accepted bytes are the whole text, in order and once,
    a flush has succeeded after the last byte, and the chunks come from one run of the generator over the given object
    and options."""
    r, box = delivery(ctx, 'root_write', False)
    lim = r.limits()
    check_panics(rep, r)
    check_spec(rep, r, 'write')
    for st, v in r.rets:
        rep.count('return paths')
        vn, _ = ctx.variant(st, v)
        if vn == 'Ok':
            rep.count('success paths')
            rep.ob('success|every byte has been accepted, once and in order', all_sent(r, st),
                   'accepted: %s of %s' % (show(st.mem[SENT]), show(st.mem[DRAWN])), lim)
            rep.ob('success|after a successful flush', st.mem[FLUSHED] is B(True), '', lim)
        else:
            rep.count('error paths')
            rep.ob('error|is an error', vn == 'Err', '%s' % vn, lim)
    rep.ob('generator observed', {'options', 'bvh'} <= box['seen'], str(box['seen']), lim)
    rep.floor('success paths', 1)
    rep.floor('error paths', 2)
    # the convenience method hands over to it with the same writer
    routes(ctx, rep, 'root_bvh_write_to')


def routes(ctx, rep, root):
    """a convenience method returns what the method it stands for returns for the default options"""
    W = ctx.W
    calls = []

    def m(ip, st, fx, f, args, site, dty, line):
        r = W.symval(mk('el', 'delivered', f['path']), dty)
        calls.append((st.f.norm(ip.deref(st, args[0])), args[1:], r, f['path']))
        return r
    sp = {}
    for k, f in W.F.items():
        if f['crate'] == 'bvh_anim' and re.match(r'.*WriteOptions::(write(::<.*>)?|write_to_string)$', f['path']):
            sp[f['path']] = m
    box = {}

    def setup(c, ip, st, args):
        box['args'] = list(args)
    r = ctx.analyse(root, setup, special=sp, cache=False)
    lim = r.limits()
    check_panics(rep, r)
    new = ctx.analyse('root_wo_new')
    want = new.rets[0][1] if len(new.rets) == 1 else None
    rep.ob('%s|one call' % root, len(calls) == 1 and len(r.rets) >= 1, '%d calls' % len(calls), lim)
    for o, a, res, p in calls:
        rep.ob('%s|default options' % root, want is not None and o is want, show(o)[:200], lim)
        rep.ob('%s|same object and writer' % root, len(a) == len(box['args']) and all(x is y for x, y in zip(a, box['args'])), '', lim)
        for st, v in r.rets:
            rep.ob('%s|same result' % root, v is res, show(v)[:200], lim)


def w02(ctx, rep):
    """Both routes are run with the text generator replaced by an arbitrary sequence of chunks: what is returned in memory
    is exactly the chunks in order, what a writer that accepts everything receives is exactly the chunks in order and
    is a success, and both start the generator in the same state on the same object and options.  The convenience
    methods are calls of these with the default options and hand back the result."""
    r, box = delivery(ctx, 'root_write_to_string', True)
    check_panics(rep, r)
    check_spec(rep, r, 'string')
    for st, v in r.rets:
        rep.count('string paths')
        s = seqval(r.ip, st, v)
        rep.ob('string|is the text', s is not None and whole_text(r, st, s), show(v)[:200], r.limits())
    w, wbox = delivery(ctx, 'root_write', True)
    check_panics(rep, w)
    check_spec(rep, w, 'writer')
    for st, v in w.rets:
        rep.count('writer paths')
        rep.ob('writer|succeeds', ctx.variant(st, v)[0] == 'Ok', show(v)[:200], w.limits())
        rep.ob('writer|receives the text', all_sent(w, st), show(st.mem[SENT])[:200], w.limits())
    lim = r.limits() + w.limits()
    rep.ob('both generate from the same state', len(box['init']) == 1 and box['init'] == wbox['init'],
           '%s / %s' % ([show(x) for x in box['init']], [show(x) for x in wbox['init']]), lim)
    rep.ob('both use the object and options', {'options', 'bvh'} <= (box['seen'] & wbox['seen']), '', lim)
    routes(ctx, rep, 'root_bvh_to_string')
    routes(ctx, rep, 'root_bvh_write_to')
    rep.floor('string paths', 1)
    rep.floor('writer paths', 1)


PROPS = {'W01': w01, 'W02': w02}
