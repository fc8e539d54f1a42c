"""Transfer functions for text production, text parsing and I/O."""
from .terms import *
from .interp_base import *
from .interp_base import U64MAX


def _m():
    from . import models
    return models


# ------------------------------------------------------------------ text pieces
def lit_bytes(ip, bs):
    return SeqLit(tuple(I(b) for b in bs), ip.W.U8)


def txt(ip, key, lo=1, hi=2 ** 20):
    return ip.mkseq((mk('txt', key, lin_atom(('tlen', key), lo, hi)),), ip.W.U8)


def const_bytes(s):
    """the bytes of a constant sequence, or None"""
    out = []
    for g in s.a[0]:
        if g.k != 'lit':
            return None
        for v in g.a[0]:
            c = cval(v)
            if c is None:
                return None
            out.append(c)
    return bytes(out)


def konst(ip, s):
    """a shared reference to a constant sequence value"""
    return SRef(OBJ('k', s), (), ZERO, s.a[1])


# ------------------------------------------------------------------ formatting
def m_new_argument(ip, st, fx, f, args, site, dty, line):
    kind = f['path'].rsplit('::new_', 1)[1]
    key = None
    for b in f.get('blocks', ()):
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'cast' and 'ReifyFnPointer' in str(s[2][1]):
                o = s[2][2]
                if o[0] == 'k' and o[1][0] == 'fn':
                    key = o[1][1]
    return mk('farg', kind, args[0], f['args'][0], key)


def m_argument_usize(ip, st, fx, f, args, site, dty, line):
    v = _m().unref(ip, st, args[0])
    if v.k != 'lin':
        return None
    _m().need(ip, st, fx, line, 'formatting argument out of range', ge0(sub(I(65535), v)))
    return mk('farg', 'usize', v, None, None)


def m_arguments_new(ip, st, fx, f, args, site, dty, line):
    M = _m()
    t, a = M.seqval(ip, st, args[0]), M.seqval(ip, st, args[1])
    if t is None or a is None:
        return None
    t = const_bytes(t)
    n = cval(a.a[1])
    if t is None or n is None:
        return None
    items = [ip.seq_get(st, a, I(i)) for i in range(n)]
    if any(x.k != 'farg' for x in items):
        return None
    return mk('fargs', t, tuple(items))


def m_arguments_str(ip, st, fx, f, args, site, dty, line):
    s = _m().seqval(ip, st, args[0])
    return mk('fargs', s, ()) if s is not None else None


def pieces(t):
    """decode a format template: ('lit', bytes) | ('arg', index, flags, width, precision) with indirect counts as
    ('arg', i)"""
    i = 0
    nxt = 0
    while True:
        n = t[i]
        i += 1
        if n == 0:
            return
        if n < 0x80:
            yield ('lit', t[i:i + n])
            i += n
        elif n == 0x80:
            k = t[i] | t[i + 1] << 8
            yield ('lit', t[i + 2:i + 2 + k])
            i += 2 + k
        else:
            fl_ = w = p = None
            if n & 1:
                fl_ = int.from_bytes(t[i:i + 4], 'little')
                i += 4
            if n & 2:
                w = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if n & 4:
                p = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if n & 8:
                nxt = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if n & 16:
                w = ('arg', w)
            if n & 32:
                p = ('arg', p)
            yield ('arg', nxt, fl_, w, p)
            nxt += 1


def out_seq(ip, st, o, p):
    v = ip.read(st, o, p)
    if v.k == 'seq':
        return v
    return SeqLit((), ip.W.U8)


def emit(ip, st, fx, sink, s, site, line):
    """write text to a formatter / string / writer; -> [(state, ok?)]"""
    o, p = sink
    ip.write(st, o, p, ip.seq_cat(out_seq(ip, st, o, p), s))
    if o.a[0] == 'so' and not (isinstance(o.a[1], tuple) and o.a[1][:1] == ('fout',)) and o.a[0] != 'l' and ip.fmt_may_fail:
        return [(st, batom(('fmterr', site)))]
    return [(st, TRUE)]


def format_into(ip, st, fx, fa, sink, site, line, esc=False):
    """interpret format arguments; -> [(state, ok condition)] or None"""
    if fa.k != 'fargs':
        return None
    t, items = fa.a
    if isinstance(t, Obj):
        return emit(ip, st, fx, sink, t, site, line)
    cur = [(st, TRUE)]
    for n, pc in enumerate(pieces(t)):
        nxt = []
        for s, c in cur:
            if pc[0] == 'lit':
                rs = emit(ip, s, fx, sink, lit_bytes(ip, pc[1]), site + (n,), line)
            else:
                opts = []
                for x in pc[2:]:
                    if isinstance(x, tuple):
                        a = items[x[1]]
                        x = s.f.norm(a.a[1])
                    opts.append(x)
                a = items[pc[1]]
                rs = fmt_value(ip, s, fx, a.a[0], a.a[1], a.a[2], a.a[3], tuple(opts), sink, site + (n,), line)
                if rs is None:
                    return None
            for s2, c2 in rs:
                nxt.append((s2, band(c, c2)))
        cur = nxt
        if len(cur) > 64:
            return None
    return cur


def plain(opts):
    fl_, w, p = opts
    return w is None and p is None and (fl_ is None or fl_ & ~(0x1fffff | 3 << 29) == 0)


def fmt_value(ip, st, fx, trait, ref, ty, key, opts, sink, site, line):
    W = ip.W
    M = _m()
    t = W.T[ty]
    v = ref
    for _ in range(6):
        if t['k'] == 'ref':
            v = M.unref(ip, st, v) if v.k == 'ref' else v
            ty = t['e']
            t = W.T[ty]
        else:
            break
    d = W.adt(ty)
    if trait == 'display' and t['k'] in ('str',) or trait == 'display' and d in ('std::string::String', 'bstr::BStr', 'bstr::BString'):
        s = M.seqval(ip, st, v)
        if s is None:
            return None
        if not plain(opts):
            return emit(ip, st, fx, sink, txt(ip, ('pad', s, opts), 0), site, line)
        if d and d.startswith('bstr'):
            b = const_bytes(s)
            if b is None or any(x > 127 for x in b):
                return emit(ip, st, fx, sink, txt(ip, ('lossy', s), 0, 2 ** 63 - 1), site, line)
        return emit(ip, st, fx, sink, s, site, line)
    if t['k'] in ('int', 'uint', 'float', 'bool', 'char'):
        x = M.unref(ip, st, v) if v.k in ('ref', 'sref') else v
        x = st.f.norm(x)
        if x is TOP:
            return None
        c = cval(x) if x.k == 'lin' else None
        if trait in ('display', 'debug') and plain(opts):
            if c is not None and t['k'] in ('int', 'uint'):
                return emit(ip, st, fx, sink, lit_bytes(ip, str(c).encode()), site, line)
            if c is not None and t['k'] == 'char' and trait == 'display':
                return emit(ip, st, fx, sink, lit_bytes(ip, chr(c).encode()), site, line)
            if t['k'] == 'bool':
                a, b = M.fork(ip, st, x)
                out = []
                for s2, w in ((a, b'true'), (b, b'false')):
                    if s2 is not None:
                        out += emit(ip, s2, fx, sink, lit_bytes(ip, w), site, line)
                return out
        o = (None, None, None) if plain(opts) else opts
        tr = 'display' if trait == 'debug' and t['k'] in ('int', 'uint') else trait
        return emit(ip, st, fx, sink, txt(ip, ('num', tr, W.tname(ty), x, o)), site, line)
    f = W.F.get(key)
    if f is not None and f['crate'] in ('bvh_anim', 'bvh_roots') and 'blocks' in f and 'derive' not in str(f.get('kind')) \
            and not derived_debug(f, trait):
        out = []
        r = ip.invoke(st, fx, Fn(key), [v if v.k in ('ref', 'sref') else ref, Ref(sink[0], sink[1])], site + ('f',),
                      f['locals'][0], line)
        for s, x in r:
            if x.k == 'sym':
                x = W.expand(x)
            if x.k != 'agg':
                return None
            out.append((s, eq0(x.a[1])))
        return out
    # library types (and derived debug output): some text
    s = M.seqval(ip, st, v) if v.k == 'sref' else None
    x = s if s is not None else (ip.deref(st, v) if v.k == 'ref' else v)
    return emit(ip, st, fx, sink, txt(ip, (trait, W.tname(ty), x if x is not TOP else (site,)), 0, 2 ** 63 - 1), site, line)


def derived_debug(f, trait):
    return trait == 'debug'


def result_of(ip, dty, cs):
    """Result<(), fmt::Error> values from ok conditions"""
    M = _m()
    out = []
    for s, c in cs:
        if c is TRUE:
            out.append((s, ip.W.mkenum(dty, 0, (ip.W.unit(),))))
            continue
        a, b = M.fork(ip, s, c)
        if a is not None:
            out.append((a, ip.W.mkenum(dty, 0, (ip.W.unit(),))))
        if b is not None:
            out.append((b, ip.W.mkenum(dty, 1, (ip.fresh(('fe', len(out)), ip.W.T[dty]['v'][1]['f'][0][1]),))))
    return out


def sink_of(ip, st, v):
    """(obj, path) of the text behind a formatter / string reference"""
    v = st.f.norm(v)
    for _ in range(4):
        if v.k != 'ref':
            return None
        x = ip.read(st, v.a[0], v.a[1])
        if x.k == 'ref':
            v = x
            continue
        if x.k == 'sym':
            x = ip.W.expand(x)
        if x.k == 'agg' and isinstance(x.a[0], int) and ip.W.adt(x.a[0]) == 'std::string::String':
            return v.a[0], v.a[1] + (('f', 0, 0),)
        return v.a[0], v.a[1]
    return None


def m_format(ip, st, fx, f, args, site, dty, line):
    o = OBJ('so', ('fout', site))
    st.mem[o] = SeqLit((), ip.W.U8)
    rs = format_into(ip, st, fx, args[0], (o, ()), site, line)
    if rs is None:
        return None
    out = []
    for s, c in rs:
        ip.panic_ob(s, fx, line, 'formatting returned an error', c)
        s.f.assume(c)
        x = s.mem.pop(o)
        out.append((s, Struct(dty, (x,))))
    return out


def m_write_fmt(ip, st, fx, f, args, site, dty, line):
    sk = sink_of(ip, st, args[0])
    if sk is None:
        return None
    rs = format_into(ip, st, fx, args[1], sk, site, line)
    return result_of(ip, dty, rs) if rs is not None else None


def m_write_str(ip, st, fx, f, args, site, dty, line):
    M = _m()
    sk = sink_of(ip, st, args[0])
    if sk is None:
        return None
    if f['path'].endswith('write_char'):
        c = cval(args[1]) if args[1].k == 'lin' else None
        s = lit_bytes(ip, chr(c).encode()) if c is not None else txt(ip, ('char', args[1]), 1, 4)
    else:
        s = M.seqval(ip, st, args[1])
    if s is None:
        return None
    return result_of(ip, dty, emit(ip, st, fx, sk, s, site, line))


def m_disp_fmt(ip, st, fx, f, args, site, dty, line):
    """<T as Display>::fmt(value, formatter) of a library type"""
    M = _m()
    sk = sink_of(ip, st, args[1])
    if sk is None:
        return None
    trait = 'debug' if '::Debug' in f['path'] else 'display'
    if 'locals' not in f:       # a library type without a body: some text naming the value
        v = args[0]
        for _ in range(4):
            if v.k == 'ref':
                v = ip.deref(st, v)
        if v.k != 'sym':
            return None
        return result_of(ip, dty, emit(ip, st, fx, sk, txt(ip, (trait, ip.W.tname(v.a[1]), v)), site, line))
    t = ip.W.T[f['locals'][1]]
    if t['k'] != 'ref':
        return None
    rs = fmt_value(ip, st, fx, trait, args[0], t['e'], None, (None, None, None), sk, site, line)
    return result_of(ip, dty, rs) if rs is not None else None


def m_to_string(ip, st, fx, f, args, site, dty, line):
    """<T as ToString>::to_string"""
    ty = f['args'][0] if f.get('args') else None
    if not isinstance(ty, int):
        return None
    key = None
    o = OBJ('so', ('fout', site))
    st.mem[o] = SeqLit((), ip.W.U8)
    t = ip.W.T[ty]
    while t['k'] == 'ref':
        t = ip.W.T[t['e']]
    d = t.get('def')
    if d:
        for k, g in ip.W.F.items():
            if g['path'].endswith('std::fmt::Display>::fmt') and g['path'].startswith('<%s' % d):
                key = k
    rs = fmt_value(ip, st, fx, 'display', args[0], ty, key, (None, None, None), (o, ()), site, line)
    if rs is None:
        return None
    out = []
    for s, c in rs:
        ip.panic_ob(s, fx, line, 'formatting returned an error', c)
        s.f.assume(c)
        x = s.mem.pop(o)
        out.append((s, Struct(dty, (x,))))
    return out


# ------------------------------------------------------------------ byte strings
WS = (9, 10, 11, 12, 13, 32)


def derived_seq(ip, key, e=None, lo=0, hi=2 ** 63 - 1):
    return SeqOp(key, e if e is not None else ip.W.U8, lin_atom(('len', key), lo, hi))


def m_trim(ip, st, fx, f, args, site, dty, line):
    M = _m()
    s = M.seqval(ip, st, args[0])
    if s is None:
        return None
    s = st.f.norm(s)
    how = f['path'].rsplit('::', 1)[1]
    b = const_bytes(s)
    if b is not None:
        return konst(ip, lit_bytes(ip, b.strip() if how == 'trim' else b.lstrip() if 'start' in how or 'left' in how else b.rstrip()))
    r = derived_seq(ip, (how, s))
    st.f.assume(ge0(sub(s.a[1], r.a[1])))
    return konst(ip, r)


def sepset(ip, st, fx, clo, site, line):
    """the ASCII separators a predicate selects, decided by interpreting it on each character"""
    W = ip.W
    cty = W.find_ty(lambda t: t['k'] == 'char')
    out = set()
    for c in range(128):
        s = st.copy()
        rs = ip.call_closure(s, fx, clo, [I(c)], site + ('sep', c), W.BOOL, line)
        vs = set(x.f.ent(v) for x, v in rs)
        if vs == {True}:
            out.add(c)
        elif vs != {False}:
            return None
    return frozenset(out)


def m_fields(ip, st, fx, f, args, site, dty, line):
    """fields / fields_with / split_whitespace / split: an iterator over the tokens of a text"""
    M = _m()
    s = M.seqval(ip, st, args[0])
    if s is None:
        return None
    s = st.f.norm(s)
    last = f['path'].rsplit('::', 1)[1]
    if last in ('fields', 'split_whitespace', 'split_ascii_whitespace'):
        sep = frozenset(WS)
    else:
        key = ('sepset', args[1].a[0] if args[1].k in ('agg', 'zst', 'fn') else None)
        sep = ip.memo.get(key)
        if sep is None:
            log = len(ip.log)
            sep = sepset(ip, st, fx, args[1], site, line)
            del ip.log[log:]
            if sep is None:
                return None
            ip.memo[key] = sep
    # the text of a trimmed line has the same tokens as the line
    base = s
    if len(s.a[0]) == 1 and s.a[0][0].k == 'sub':
        k = s.a[0][0].a[0].a[0]
        if isinstance(k, tuple) and k and k[0] in ('trim', 'trim_start', 'trim_end') and s.a[0][0].a[1] is ZERO and set(WS) <= sep:
            base = k[1]
    return Struct(dty, (base, sepval(ip, sep), ZERO))


def sepval(ip, sep):
    return mk('sepset', tuple(sorted(sep)))


def tok(ip, base, sep, n):
    return derived_seq(ip, mk('el', 'tok', base, sep, n), None, 1)


def ntok(base, sep):
    return lin_atom(('ntok', base, sep), 0, 2 ** 62)


def m_byte_lines(ip, st, fx, f, args, site, dty, line):
    return Struct(dty, (args[0],))


LINENO = OBJ('g', 'lineno')       # lines drawn so far
IOERR = OBJ('g', 'ioerr')         # a read has failed


def gload(ip, st, o):
    v = st.mem.get(o)
    return ZERO if v is None or v is TOP else v


def line_seq(ip, n):
    return derived_seq(ip, mk('el', 'line', n))


def next_line(ip, st, fx, site):
    """-> [(state, None | ('err', value) | ('ok', seq))]"""
    n = gload(ip, st, LINENO)
    out = []
    a = st.copy()
    a.mem[LINENO] = st.f.norm(add(n, ONE))
    a.f.assume(ge0(sub(lin_atom(('s', 'nlines'), 0, 2 ** 62), add(n, ONE))))
    out.append((a, ('ok', line_seq(ip, n))))
    b = st.copy()
    b.mem[IOERR] = ONE
    out.append((b, ('err', n)))
    out.append((st, None))
    h = ip.watch.get('line')
    if h:
        for s, x in out:
            h(ip, s, None if x is None else x[0] == 'ok')
    return out


def next_text(ip, st, fx, it, v, d, site, line, back):
    M = _m()
    W = ip.W
    if d is None or back:
        return None
    if d in ('bstr::Fields', 'bstr::FieldsWith', 'std::str::SplitWhitespace', 'std::str::SplitAsciiWhitespace', 'std::str::Split',
             'bstr::ext_slice::Fields', 'bstr::ext_slice::FieldsWith'):
        if v.k != 'agg' or not v.a[2] or len(v.a[2][0][1]) != 3:
            return None
        base, sep, k = v.a[2][0][1]
        if base.k != 'seq' or k.k != 'lin':
            return None
        a, b = M.fork(ip, st, ge0(sub(sub(ntok(base, sep), k), ONE)))
        out = []
        h = ip.watch.get('token')
        if h:
            for s, x in ((a, True), (b, False)):
                if s is not None:
                    h(ip, s, x)
        if a is not None:
            ip.store(a, it, Struct(v.a[0], (base, sep, st.f.norm(add(k, ONE)))))
            out.append((a, konst(ip, tok(ip, base, sep, st.f.norm(k)))))
        if b is not None:
            out.append((b, None))
        return out
    if d in ('bstr::io::ByteLines', 'std::io::Lines'):
        ity = opt_res_ty(ip, v, d)
        if ity is None:
            return None
        out = []
        for s, x in next_line(ip, st, fx, site):
            if x is None:
                out.append((s, None))
            elif x[0] == 'ok':
                q = x[1]
                it_ = W.T[ity]['v'][0]['f'][0][1]
                if W.adt(it_) == 'std::string::String':
                    q = Struct(it_, (q,))
                out.append((s, W.mkenum(ity, 0, (q,))))
            else:
                ety = W.T[ity]['v'][1]['f'][0][1]
                out.append((s, W.mkenum(ity, 1, (W.symval(mk('el', 'ioerr', x[1]), ety),))))
        return out
    return None


def opt_res_ty(ip, v, d):
    """type Result<Vec<u8> or String, io::Error> of a line iterator's items"""
    W = ip.W
    for i, t in enumerate(W.T):
        if t['k'] == 'enum' and t.get('def') == 'std::result::Result':
            a, b = t['v'][0]['f'][0][1], t['v'][1]['f'][0][1]
            if W.adt(b) == 'std::io::Error' and (W.seq_elem(a) == W.U8 if 'Byte' in d else W.adt(a) == 'std::string::String'):
                return i
    return None


def parse_result(ip, st, s, tname, okv, dty, ety_val, fx=None):
    M = _m()
    c = batom(('parses', tname, s))
    a, b = M.fork(ip, st, c)
    h = ip.watch.get('parse')
    if h:
        for x, good in ((a, True), (b, False)):
            if x is not None:
                h(ip, x, fx, tname, s, okv, good)
    out = []
    if a is not None:
        out.append((a, M.ok(ip, dty, okv)))
    if b is not None:
        out.append((b, M.err(ip, dty, ety_val)))
    return out


def m_parse(ip, st, fx, f, args, site, dty, line):
    """lexical::parse / str::parse of a number"""
    M = _m()
    W = ip.W
    s = M.seqval(ip, st, args[0])
    if s is None:
        return None
    s = st.f.norm(s)
    t = W.T[dty]['v'][0]['f'][0][1]
    tt = W.T[t]
    tn = W.tname(t)
    if tt['k'] == 'float':
        v = fl(('parse', tn, s))
    elif tt['k'] in ('int', 'uint'):
        lo, hi = ip.trange(t)
        v = lin_atom(('parse', tn, s), lo, hi)
    else:
        return None
    e = W.symval(mk('el', 'parse_error', tn, s), W.T[dty]['v'][1]['f'][0][1])
    return parse_result(ip, st, s, tn, v, dty, e, fx)


def m_str_parse(ip, st, fx, f, args, site, dty, line):
    r = m_parse(ip, st, fx, f, args, site, dty, line)
    if r is not None:
        return r
    # <T as FromStr>::from_str of a type of the analysed crate
    W = ip.W
    t = W.T[dty]['v'][0]['f'][0][1]
    d = W.T[t].get('def')
    for k, g in W.F.items():
        if g['path'].startswith('<%s as ' % d) and g['path'].endswith('FromStr>::from_str') and 'blocks' in g:
            return ip.invoke(st, fx, Fn(k), args, site + ('p',), dty, line)
    return None


def m_from_utf8(ip, st, fx, f, args, site, dty, line):
    M = _m()
    W = ip.W
    s = M.seqval(ip, st, args[0])
    if s is None:
        return None
    s = st.f.norm(s)
    a, b = M.fork(ip, st, batom(('utf8', s)))
    out = []
    okt = W.T[dty]['v'][0]['f'][0][1]
    v = args[0]
    if W.adt(okt) == 'std::string::String':
        v = Struct(okt, (s,))
    elif v.k == 'ref':
        v = SRef(*M.view(ip, st, v))
    e = W.symval(mk('el', 'utf8_error', s), W.T[dty]['v'][1]['f'][0][1])
    if a is not None:
        out.append((a, M.ok(ip, dty, v)))
    if b is not None:
        out.append((b, M.err(ip, dty, e)))
    return out


def m_char_class(ip, st, fx, f, args, site, dty, line):
    v = _m().unref(ip, st, args[0])
    c = cval(st.f.norm(v)) if v.k == 'lin' else None
    n = f['path'].rsplit('::', 1)[1]
    if v.k != 'lin':
        return None
    if n == 'is_ascii_whitespace':
        if c is not None:
            return B(c in (9, 10, 12, 13, 32))
        return bor(*[eq0(sub(v, I(x))) for x in (9, 10, 12, 13, 32)])
    if n == 'is_whitespace':
        if c is not None:
            return B(chr(c).isspace())
        return batom(('ws', v))
    if n == 'is_ascii':
        return ge0(sub(I(127), v))
    if c is not None and c < 128:
        ch = chr(c)
        r = {'is_ascii_digit': ch.isdigit(), 'is_ascii_alphabetic': ch.isalpha(), 'is_ascii_alphanumeric': ch.isalnum(),
             'is_alphanumeric': ch.isalnum(), 'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isdigit(),
             'is_ascii_punctuation': 33 <= c <= 126 and not ch.isalnum(), 'is_ascii_control': c < 32 or c == 127,
             'is_control': c < 32 or c == 127}.get(n)
        if r is not None:
            return B(r)
    return batom((n, v))


# ------------------------------------------------------------------ time
NANOS = 10 ** 9


def m_from_secs(ip, st, fx, f, args, site, dty, line):
    return ip.W.symval(mk('el', 'secs', st.f.norm(args[0])), dty)


def m_from_secs_f(ip, st, fx, f, args, site, dty, line):
    v = st.f.norm(args[0])
    c = batom(('durationable', v))
    if v.k == 'fl' and isinstance(v.a[0], tuple) and v.a[0][0] == 'c':
        try:
            x = float(v.a[0][1])
            c = B(0 <= x < 2 ** 64)
        except (ValueError, TypeError):
            pass
    _m().need(ip, st, fx, line, 'duration out of range', c)
    return ip.W.symval(mk('el', 'secs_f', v), dty)


def m_try_from_secs_f(ip, st, fx, f, args, site, dty, line):
    M = _m()
    v = st.f.norm(args[0])
    a, b = M.fork(ip, st, batom(('durationable', v)))
    t = ip.W.T[dty]
    out = []
    if a is not None:
        out.append((a, M.ok(ip, dty, ip.W.symval(mk('el', 'secs_f', v), t['v'][0]['f'][0][1]))))
    if b is not None:
        out.append((b, M.err(ip, dty, ip.fresh(('dur', site), t['v'][1]['f'][0][1]))))
    return out


def m_as_secs_f(ip, st, fx, f, args, site, dty, line):
    v = _m().unref(ip, st, args[0])
    if v is TOP:
        return None
    return fl(('secs', ip.W.tname(dty), v))


# ------------------------------------------------------------------ writers
WTEXT = OBJ('g', 'wtext')         # the bytes handed to the opaque writer and accepted
WFAIL = OBJ('g', 'wfail')         # a write or flush has failed
WSHORT = OBJ('g', 'wshort')       # bytes were offered and not accepted


def unmoved(ip, st, fx, f, args, site, dty, line):
    return args[0]


def m_io_error(ip, st, fx, f, args, site, dty, line):
    return ip.W.symval(mk('el', 'newerr', site), dty)


def m_io_kind(ip, st, fx, f, args, site, dty, line):
    v = _m().unref(ip, st, args[0])
    return ip.W.symval(mk('el', 'iokind', v), dty) if v is not TOP else None


def m_cursor_new(ip, st, fx, f, args, site, dty, line):
    return Struct(dty, (args[0], ZERO))


def m_vec_from(ip, st, fx, f, args, site, dty, line):
    s = _m().seqval(ip, st, args[0])
    if s is None:
        return None
    t = ip.W.adt(dty) if dty is not None else None
    if t in ('std::string::String', 'bstr::BString'):
        return Struct(dty, (s,))
    return s


def fill(A):
    AR = r'^std::fmt::rt::Argument::<.*>::'
    A(AR + 'new_(display|debug|lower_exp|upper_exp|lower_hex|upper_hex|octal|binary|pointer)$', m_new_argument)
    A(AR + 'from_usize$', m_argument_usize)
    A(r"^std::fmt::Arguments::<.*>::new$", m_arguments_new)
    A(r"^std::fmt::Arguments::<.*>::(from_str|from_str_nonconst)$", m_arguments_str)
    A(r'^std::fmt::format$', m_format)
    A(r"^std::fmt::Formatter::<.*>::write_fmt$", m_write_fmt)
    A(r"^std::fmt::(Write::write_fmt|write)$", m_write_fmt)
    A(r"^<std::fmt::Formatter<.*> as std::fmt::Write>::(write_str|write_char|write_fmt)$",
      lambda ip, st, fx, f, a, s, d, l: (m_write_fmt if f['path'].endswith('fmt') else m_write_str)(ip, st, fx, f, a, s, d, l))
    A(r"^<std::string::String as std::fmt::Write>::(write_str|write_char)$", m_write_str)
    A(r"^<std::string::String as std::fmt::Write>::write_fmt$", m_write_fmt)
    A(r"^std::fmt::Formatter::<.*>::(write_str|write_char|pad)$", m_write_str)
    A(r'^<.* as std::fmt::(Display|Debug)>::fmt$', m_disp_fmt)
    A(r'<impl std::fmt::(Display|Debug) for .*>::fmt$', m_disp_fmt)
    A(r'^<T as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)$', m_to_string)
    A(r'(^bstr::ByteSlice|<impl str>|bstr::ext_slice::ByteSlice)::(trim|trim_start|trim_end|trim_left|trim_right)$', m_trim)
    A(r'(^bstr::ByteSlice|<impl str>|bstr::ext_slice::ByteSlice)::(fields|fields_with|split_whitespace|split_ascii_whitespace)$', m_fields)
    A(r'(^|<.* as )bstr::io::BufReadExt(>)?::byte_lines$', m_byte_lines)
    A(r'(^|<.* as )std::io::Read(>)?::by_ref$', unmoved)
    A(r'(^|<.* as )std::io::Write(>)?::by_ref$', unmoved)
    A(r'^std::io::Cursor::<.*>::new$', m_cursor_new)
    A(r'^lexical(_core)?::parse$', m_parse)
    A(r'^std::str::<impl str>::parse$', m_str_parse)
    A(r'<impl std::str::FromStr for (f32|f64|usize|u8|u16|u32|u64|i32|i64)>::from_str$', m_parse)
    A(r'^std::(str::from_utf8|str::converts::from_utf8|string::String::from_utf8)$', m_from_utf8)
    A(r'(<impl (char|u8)>)::is_\w+$', m_char_class)
    A(r'^std::time::Duration::from_secs$', m_from_secs)
    A(r'^std::time::Duration::from_secs_f(32|64)$', m_from_secs_f)
    A(r'^std::time::Duration::try_from_secs_f(32|64)$', m_try_from_secs_f)
    A(r'^std::time::Duration::as_secs_f(32|64)$', m_as_secs_f)
    A(r'std::io::(error::<impl std::io::)?Error>?::(new|other)$', m_io_error)
    A(r'^std::io::Error::kind$', m_io_kind)
    A(r'^<(std::vec::Vec<.*>|std::string::String|bstr::BString) as std::convert::From<&.*>>::from$', m_vec_from)
    A(r'<impl std::convert::From<&.*> for (std::vec::Vec<.*>|std::string::String|bstr::BString)>::from$', m_vec_from)
