"""The text that is written: an observer at the writer reads it line by line against the object.

The observer is an automaton over whole lines.  Its state is kept in ghost objects next to the program's state, so that
it is carried through the loops of the writer by the same abstract interpretation."""
import re

from .common import *
from . import simple, writer
from ..interp_base import Dead
from ..models import ok, view, seqval, setseq, SeqLit
from ..terms import *
from ..joins import base_items

G = lambda n: OBJ('g', 'w_' + n)
PHASES = ('start', 'between', 'named', 'open', 'offset', 'body', 'esite', 'eopen', 'eoff', 'motion', 'nframes', 'rows')
JI = G('ji')           # the joint whose block comes next, or is being written
LEVEL = G('level')     # how many blocks are open, unless that follows from the phase
CAN = G('can')         # it follows from the phase
FIRST = G('first')     # JI is the first joint
FR = G('fr')           # rows written
EATEN = G('eaten')     # lines of a buffer have been read before the buffer was handed to the writer
PART = G('part')       # the beginning of a line handed to the writer
STALE = G('stale')     # the text last handed to the writer: a buffer that still holds it is not what comes next
TOTAL = G('total')     # bytes handed over so far: fewer than 2^60
ENDED = G('ended')     # the joint's end site has been written
MARK = mk('txt', ('eaten',), lin_atom(('tlen', ('eaten',)), 1, 2 ** 40))
PMAX = 65535         # the most digits the standard library formats
COL = lin_atom(('s', 'column'), 0, 2 ** 60)


class Vague(Exception):
    """the text is not known well enough to tell"""


class Wrong(Exception):
    """the text is not that of the object.  cat: which property says so"""
    def __init__(self, cat, what, detail=''):
        Exception.__init__(self, what)
        self.cat, self.what, self.detail = cat, what, detail


KEYWORDS = (b'HIERARCHY', b'ROOT ', b'JOINT ', b'{', b'OFFSET ', b'CHANNELS ', b'End Site', b'}', b'MOTION', b'Frames: ', b'Frame Time: ')
MOTION = ('motion', 'nframes', 'rows')


class Text:
    def __init__(self, ctx, indent, term, zero, prec):
        self.ctx, self.indent, self.term, self.zero, self.prec = ctx, indent, term, zero, prec
        self.own = {}
        self.nl = {'Unix': b'\n', 'Windows': b'\r\n'}[term]
        self.lines = {}

    # ------------------------------------------------------------ setting
    def setup(self, c, ip, st, args):
        W = c.W
        o = args[0]
        ind = c.fld(st, ip, o, 'indent')
        lt = c.fld(st, ip, o, 'line_terminator')
        self.unit = ONE
        for v, n in ((ind, self.indent), (lt, self.term)):
            e = W.expand(v)
            k = [x['n'] for x in W.T[e.a[0]]['v']].index(n)
            st.f.assume(eq0(sub(e.a[1], I(W.sdisc(e.a[0], k)))))
            if n == 'Spaces':
                u = [fs for i, fs in e.a[2] if i == k][0][0]
                for _ in range(6):
                    if u.k not in ('sym', 'agg'):
                        break
                    u = W.expand(u) if u.k == 'sym' else u.a[2][0][1][0]
                self.unit = u
                st.f.assume(ge0(sub(I(2 ** 20), u)))
        for n in ('offset_significant_figures', 'frame_time_significant_figures', 'motion_values_significant_figures'):
            e = W.expand(c.fld(st, ip, o, n))
            k = [x['n'] for x in W.T[e.a[0]]['v']].index('Some' if self.prec else 'None')
            st.f.assume(eq0(sub(e.a[1], I(W.sdisc(e.a[0], k)))))
            self.own[n] = [fs for i, fs in e.a[2] if i == k][0][0] if self.prec else None
            if self.prec:
                st.f.assume(ge0(sub(I(PMAX), self.own[n]) if self.prec == 'small' else sub(self.own[n], I(PMAX + 1))))
        b = args[1]
        self.C, self.F = assume_bvh(c, ip, st, b, 'w', self.zero)
        self.J = seqval(ip, st, c.fld(st, ip, b, 'joints'))
        self.M = c.fld(st, ip, b, 'motion_values')
        self.time = c.fld(st, ip, b, 'frame_time')
        self.bref = b
        st.f.assume(ge0(sub(I(2 ** 40), self.J.a[1])))
        for p in PHASES:
            st.mem[G(p)] = B(p == 'start')
        for g in (JI, LEVEL, FR, TOTAL):
            st.mem[g] = ZERO
        st.mem[CAN] = B(True)
        st.mem[FIRST] = B(True)
        st.mem[EATEN] = B(False)
        st.mem[ENDED] = B(False)
        st.mem[PART] = SeqLit((), W.U8)
        st.mem[STALE] = SeqLit((), W.U8)
        self.watch_joints(ip)

    def watch_joints(self, ip):
        """facts about any joint that is looked at: the skeleton is a tree in file order"""
        get = ip.seq_get
        src = [s for s in self.J.a[0]]
        op = src[0].a[0] if len(src) == 1 and src[0].k == 'sub' else None
        self.op = op
        self.get = get
        busy = [False]

        def seq_get(st, v, k):
            r = get(st, v, k)
            if op is not None and not busy[0] and r.k in ('sym', 'agg') and len(v.a[0]) == 1 and v.a[0][0].k == 'sub' and \
                    v.a[0][0].a[0] is op:
                busy[0] = True
                try:
                    self.tree(ip, st, st.f.norm(add(v.a[0][0].a[1], k)))
                finally:
                    busy[0] = False
            return r
        ip.seq_get = seq_get

    def data(self, ip, st, i):
        d = self.get(st, st.f.norm(self.J), i)
        return self.ctx.W.expand(d) if d.k == 'sym' else d

    def tree(self, ip, st, i):
        f = st.f
        d = self.data(ip, st, i)
        if d.k != 'agg' or d.a[0] != self.joint_ty(d):
            return
        if f.ent(eq0(i)) is True:
            f.assume(self.isroot(d))
        elif f.ent_ge(sub(i, ONE)):
            f.assume(bnot(self.isroot(d)))
            dd = self.child_depth(ip, st, d)
            f.assume(ge0(sub(dd, ONE)))
            f.assume(ge0(sub(I(2 ** 40), dd)))
            p = sub(i, ONE)
            q = self.data(ip, st, p)
            if f.ent(eq0(p)) is True:
                f.assume(self.isroot(q))
                f.assume(eq0(sub(dd, ONE)))
            elif f.ent_ge(sub(p, ONE)):
                f.assume(bnot(self.isroot(q)))
                qd = self.child_depth(ip, st, q)
                f.assume(ge0(sub(qd, ONE)))
                f.assume(ge0(sub(add(qd, ONE), dd)))

    def joint_ty(self, d):
        return d.a[0] if (self.ctx.W.adt(d.a[0]) or '').endswith('JointData') else None

    def vi(self, d, n):
        return [x['n'] for x in self.ctx.W.T[d.a[0]]['v']].index(n)

    def isroot(self, d):
        return eq0(sub(d.a[1], I(self.ctx.W.sdisc(d.a[0], self.vi(d, 'Root')))))

    def part(self, d, variant, name):
        k = self.vi(d, variant)
        for i, fs in d.a[2]:
            if i == k:
                names = [n for n, _ in self.ctx.W.T[d.a[0]]['v'][k]['f']]
                return fs[names.index(name)] if name in names else None
        return None

    def child_depth(self, ip, st, d):
        return self.ctx.fld(st, ip, self.part(d, 'Child', 'private'), 'depth')

    # ------------------------------------------------------------ reading the state
    def phase(self, st):
        for p in PHASES:
            if st.mem.get(G(p)) is B(True):
                return p
        raise Vague('the phase')

    def go(self, st, p):
        for q in PHASES:
            st.mem[G(q)] = B(p == q)

    def depth(self, ip, st, i):
        self.tree(ip, st, st.f.norm(i))
        d = self.data(ip, st, i)
        r = st.f.ent(self.isroot(d))
        if r is True:
            return ZERO
        if r is False:
            return self.child_depth(ip, st, d)
        return None

    def n(self):
        return self.J.a[1]

    def canonical(self, ip, st, p):
        i = ip.load(st, JI)
        if p == 'between':
            if st.f.ent(eq0(sub(i, self.n()))) is True:
                return ZERO
            if st.f.ent_ge(sub(sub(self.n(), i), ONE)):
                return self.depth(ip, st, i)
            return None
        if p in ('start', 'motion', 'nframes', 'rows'):
            return ZERO
        d = self.depth(ip, st, i)
        return d if d is None or p == 'named' else add(d, ONE)

    def level(self, ip, st):
        if st.mem[CAN] is B(True):
            l = self.canonical(ip, st, self.phase(st))
            if l is None:
                raise Vague('the number of open blocks')
            return l
        return st.f.norm(ip.load(st, LEVEL))

    def setlevel(self, ip, st, l):
        st.mem[CAN] = B(False)
        st.mem[LEVEL] = l

    def settle(self, ip, st):
        """forget a level that follows from the phase, and step on to the next joint when the open blocks are those
        around it"""
        p = self.phase(st)
        f = st.f
        l = self.level(ip, st) if not (p == 'between' and st.mem[CAN] is B(True)) else None
        if l is None:
            return
        if p == 'body' and (st.mem[ENDED] is B(True) or self.noend(ip, st, ip.load(st, JI)) is True):
            nx = f.norm(add(ip.load(st, JI), ONE))
            w = self.next_level(ip, st, nx)
            if w is not None and f.ent(eq0(sub(l, w))) is True:
                self.step(ip, st)
                st.mem[CAN] = B(True)
                st.mem[LEVEL] = ZERO
                return
        c = self.canonical(ip, st, p)
        if c is not None and f.ent(eq0(sub(l, c))) is True:
            st.mem[CAN] = B(True)
            st.mem[LEVEL] = ZERO

    def next_level(self, ip, st, nx):
        if st.f.ent(eq0(sub(nx, self.n()))) is True:
            return ZERO
        if st.f.ent_ge(sub(sub(self.n(), nx), ONE)):
            return self.depth(ip, st, nx)
        return None

    def step(self, ip, st):
        """the block of joint JI has no more to come but other joints"""
        l = self.level(ip, st)
        st.mem[JI] = st.f.norm(add(ip.load(st, JI), ONE))
        st.mem[FIRST] = B(False)
        st.mem[ENDED] = B(False)
        self.go(st, 'between')
        self.setlevel(ip, st, l)

    def noend(self, ip, st, i):
        """True: joint i has no end site; False: it has; None"""
        d = self.data(ip, st, i)
        r = st.f.ent(self.isroot(d))
        if r is True:
            return True
        e = self.part(d, 'Child', 'end_site_offset')
        e = self.ctx.W.expand(e) if e.k == 'sym' else e
        c = eq0(sub(e.a[1], I(self.ctx.W.sdisc(e.a[0], [x['n'] for x in self.ctx.W.T[e.a[0]]['v']].index('None')))))
        x = st.f.ent(c)
        return x if r is False or x is True else None

    # ------------------------------------------------------------ lines
    def pieces(self, segs):
        """[(bytes | segment)] of a rope"""
        out = []
        for s in segs:
            if s.k == 'lit':
                b = bytearray()
                for v in s.a[0]:
                    c = cval(v)
                    if c is None:
                        raise Vague('a byte')
                    b.append(c)
                if out and isinstance(out[-1], bytes):
                    out[-1] += bytes(b)
                else:
                    out.append(bytes(b))
            elif s.k == 'rep' and cval(s.a[0]) is not None and cval(s.a[1]) is not None and cval(s.a[1]) < 64:
                b = bytes([cval(s.a[0])]) * cval(s.a[1])
                if out and isinstance(out[-1], bytes):
                    out[-1] += b
                elif b:
                    out.append(b)
            else:
                out.append(s)
        return out

    def split(self, st, rope):
        """whole lines and the rest"""
        rope = st.f.norm(rope)
        lines, cur = [], []
        for p in self.pieces(rope.a[0]):
            if isinstance(p, bytes):
                while b'\n' in p:
                    k = p.index(b'\n') + 1
                    cur.append(p[:k])
                    lines.append(cur)
                    cur, p = [], p[k:]
                if p:
                    cur.append(p)
            else:
                if p.k == 'rep' and cval(p.a[0]) == 10 or p.k in ('summ',):
                    raise Vague('repeated text')
                cur.append(p)
        return lines, cur

    def unpiece(self, ip, ps):
        segs = []
        for p in ps:
            segs.append(mk('lit', tuple(I(x) for x in p)) if isinstance(p, bytes) else p)
        return ip.mkseq(tuple(segs), ip.W.U8)

    def consume(self, ip, st, rope, note=None):
        """-> the unfinished rest"""
        lines, cur = self.split(st, rope)
        for l in lines:
            self.line(ip, st, l)
        return cur

    def indentation(self, ip, st, ps):
        """(number of leading indentation characters, the rest)"""
        ch = {'Tabs': b'\t', 'Spaces': b' ', 'NoIndentation': None}[self.indent]
        n = ZERO
        ps = list(ps)
        while ch and ps:
            p = ps[0]
            if isinstance(p, bytes):
                k = len(p) - len(p.lstrip(ch))
                n = add(n, I(k))
                p = p[k:]
                if p:
                    ps[0] = p
                    break
                ps.pop(0)
            elif p.k == 'rep' and cval(p.a[0]) == ch[0]:
                n = add(n, p.a[1])
                ps.pop(0)
            else:
                break
        return st.f.norm(n), ps

    def want_indent(self, ip, st, got, level, what):
        w = ZERO if self.indent == 'NoIndentation' else st.f.norm(mul(self.unit, level))
        if st.f.ent(eq0(sub(got, w))) is not True:
            raise Wrong('nest', 'the indentation of ' + what, '%s, not %s' % (show(got)[-80:], show(w)[-80:]))

    def need(self, c, cat, what, detail=''):
        if c is not True:
            raise Wrong(cat, what, detail)

    def rest(self, ps, kw, cat):
        """what follows the keyword kw, without the line end"""
        ps = list(ps)
        if not isinstance(ps[-1], bytes) or not ps[-1].endswith(self.nl) or \
                self.nl == b'\n' and ps[-1].endswith(b'\r\n'):
            raise Wrong('opt', 'the line end chosen')
        ps[-1] = ps[-1][:-len(self.nl)]
        if not isinstance(ps[0], bytes) or not ps[0].startswith(kw):
            if not isinstance(ps[0], bytes) or ps[0].startswith(KEYWORDS):
                raise Wrong(cat, 'a line with %s comes next' % kw.decode().strip(), str(ps[:1])[:80])
            raise Wrong('kw', 'the keyword %s' % kw.decode().strip(), str(ps[:1])[:80])
        ps[0] = ps[0][len(kw):]
        return [p for p in ps if not isinstance(p, bytes) or p]

    def alone(self, ps, kw, cat):
        r = self.rest(ps, kw, cat)
        self.need(not r, 'kw', 'nothing after the keyword ' + kw.decode(), str(r)[:80])

    def numbers(self, ip, st, ps, want, cat, what, opt=None):
        """the numbers in order, separated by one space each"""
        k = 0
        for n, w in enumerate(want):
            if n:
                self.need(k < len(ps) and ps[k] == b' ', cat, 'one space between the numbers of ' + what)
                k += 1
            if k >= len(ps):
                raise Wrong(cat, 'as many numbers as there are in ' + what)
            self.number(ip, st, ps[k], w, cat, what, opt)
            k += 1
        self.need(k == len(ps), cat, 'nothing after the numbers of ' + what)

    def number(self, ip, st, p, w, cat, what, opt=None):
        if isinstance(p, bytes) and w.k == 'lin' and cval(w) is not None:
            self.need(p == str(cval(w)).encode(), cat, what, '%r instead of %s' % (p, cval(w)))
            return
        if isinstance(p, bytes):
            raise Wrong(cat, what, '%r instead of a number' % p)
        if p.k != 'txt' or p.a[0][0] != 'num':
            raise Vague(what + ': ' + show(p)[:300])
        _, tr, ty, v, opts = p.a[0]
        v, w = st.f.norm(v), st.f.norm(w)
        if not (v is w or v.k == 'lin' and w.k == 'lin' and st.f.ent(eq0(sub(v, w))) is True):
            raise Wrong(cat, what, '%s written instead of %s' % (show(v)[-80:], show(w)[-80:]))
        if tr != 'display' or opts[1] is not None:
            raise Vague('how %s is written' % what)
        if opt is not None:
            own, q = self.own[opt], opts[2]
            self.need((q is None) == (own is None), 'opt', '%s has a precision exactly when %s is set' % (what, opt))
            if own is not None and not isinstance(q, int):
                self.need(base_items(st.f.norm(q)) <= base_items(own), 'opt', 'the precision of %s is %s' % (what, opt))

    def vec(self, ip, st, v):
        W = self.ctx.W
        for _ in range(4):
            if v.k == 'sym':
                v = W.expand(v)
            if v.k == 'agg' and len(v.a[2][0][1]) == 1:
                v = v.a[2][0][1][0]
        if v.k == 'agg' and len(v.a[2][0][1]) == 3:
            return [st.f.norm(x) for x in v.a[2][0][1]]
        if v.k == 'seq':
            return [ip.seq_get(st, v, I(k)) for k in range(3)]
        raise Vague('a vector')

    def line(self, ip, st, ps):
        p = self.phase(st)
        ind, body = self.indentation(ip, st, ps)
        if not body:
            raise Wrong('skel', 'no empty lines')
        head = body[0] if isinstance(body[0], bytes) else b''
        i = ip.load(st, JI)
        f = st.f
        if p not in MOTION and head and not head.startswith(KEYWORDS):
            if head[:1].isspace():
                raise Wrong('nest', 'the kind of indentation', repr(head[:40]))
            raise Wrong('kw', 'the keyword', repr(head[:40]))
        if p == 'body' and not (head.startswith(b'End Site')):
            if st.mem[ENDED] is not B(True):
                self.need(self.noend(ip, st, i), 'skel', 'the end site of a joint that has one')
            self.step(ip, st)
            p = 'between'
            i = ip.load(st, JI)
        self.lines[p] = self.lines.get(p, 0) + 1
        if p == 'start':
            self.need(ind is ZERO, 'nest', 'no indentation of the first line')
            self.alone(body, b'HIERARCHY', 'skel')
            self.go(st, 'between')
        elif p == 'between' and head.startswith((b'ROOT ', b'JOINT ')):
            self.need(f.ent(ge0(sub(sub(self.n(), i), ONE))), 'skel', 'a joint for every block')
            l = self.level(ip, st)
            d = self.depth(ip, st, i)
            if d is None:
                raise Vague('the kind of joint')
            self.need(f.ent(eq0(sub(l, d))), 'nest', 'the blocks open where a joint starts are those around it')
            self.want_indent(ip, st, ind, l, 'a joint')
            dd = self.data(ip, st, i)
            root = f.ent(self.isroot(dd)) is True
            kw = b'ROOT ' if root else b'JOINT '
            if not head.startswith(kw):
                raise Wrong('kw', 'ROOT for the root and JOINT for other joints')
            name = self.name(ip, st, dd, root)
            got = self.unpiece(ip, self.rest(body, kw, 'skel'))
            self.need(ip.seq_eq(st, f.norm(got), f.norm(name)), 'skel', 'the name of the joint', show(got)[:200])
            st.mem[CAN] = B(True)
            st.mem[LEVEL] = ZERO
            self.go(st, 'named')
        elif p == 'named':
            self.alone(body, b'{', 'nest')
            self.want_indent(ip, st, ind, self.level(ip, st), 'an opening brace')
            self.go(st, 'open')
        elif p == 'open':
            nums = self.rest(body, b'OFFSET ', 'skel')
            self.want_indent(ip, st, ind, self.level(ip, st), 'an offset')
            dd = self.data(ip, st, i)
            root = f.ent(self.isroot(dd)) is True
            self.numbers(ip, st, nums, self.vec(ip, st, self.part(dd, 'Root' if root else 'Child', 'offset')), 'skel', 'the offset',
                         'offset_significant_figures')
            self.go(st, 'offset')
        elif p == 'offset':
            names = self.rest(body, b'CHANNELS ', 'skel')
            self.want_indent(ip, st, ind, self.level(ip, st), 'the channels')
            dd = self.data(ip, st, i)
            root = f.ent(self.isroot(dd)) is True
            self.channels(ip, st, names, self.part(dd, 'Root' if root else 'Child', 'channels'))
            self.go(st, 'body')
        elif p == 'body':
            self.need(self.noend(ip, st, i) is False and st.mem[ENDED] is not B(True), 'skel', 'an end site only where there is one')
            self.alone(body, b'End Site', 'skel')
            self.want_indent(ip, st, ind, self.level(ip, st), 'an end site')
            self.go(st, 'esite')
        elif p == 'esite':
            self.alone(body, b'{', 'nest')
            self.want_indent(ip, st, ind, self.level(ip, st), 'the brace of an end site')
            self.go(st, 'eopen')
        elif p == 'eopen':
            nums = self.rest(body, b'OFFSET ', 'skel')
            self.want_indent(ip, st, ind, add(self.level(ip, st), ONE), 'the offset of an end site')
            dd = self.data(ip, st, i)
            e = self.part(dd, 'Child', 'end_site_offset')
            e = self.ctx.W.expand(e) if e.k == 'sym' else e
            k = [x['n'] for x in self.ctx.W.T[e.a[0]]['v']].index('Some')
            self.numbers(ip, st, nums, self.vec(ip, st, [fs for n, fs in e.a[2] if n == k][0][0]),
                         'skel', 'the end site', 'offset_significant_figures')
            self.go(st, 'eoff')
        elif p == 'eoff':
            self.alone(body, b'}', 'nest')
            self.want_indent(ip, st, ind, self.level(ip, st), 'the closing brace of an end site')
            st.mem[ENDED] = B(True)
            self.go(st, 'body')
        elif p == 'between' and head.startswith(b'}'):
            l = sub(self.level(ip, st), ONE)
            self.need(f.ent(ge0(l)), 'nest', 'a block open for every closing brace')
            self.want_indent(ip, st, ind, l, 'a closing brace')
            self.alone(body, b'}', 'nest')
            self.setlevel(ip, st, f.norm(l))
        elif p == 'between':
            if head.startswith(b'{'):
                raise Wrong('nest', 'a block for every opening brace')
            if not head.startswith(b'MOTION'):
                raise Wrong('skel', 'nothing but joints between the blocks', repr(head[:40]))
            self.need(f.ent(eq0(sub(i, self.n()))), 'skel', 'every joint before the motion section')
            self.need(f.ent(eq0(self.level(ip, st))), 'nest', 'every block closed before the motion section')
            self.need(ind is ZERO, 'nest', 'no indentation of the motion section')
            self.alone(body, b'MOTION', 'skel')
            st.mem[CAN] = B(True)
            st.mem[LEVEL] = ZERO
            self.go(st, 'motion')
        elif p == 'motion':
            self.numbers(ip, st, self.rest(ps, b'Frames: ', 'motion'), [f.norm(self.F)], 'motion', 'the number of frames')
            self.go(st, 'nframes')
        elif p == 'nframes':
            self.numbers(ip, st, self.rest(ps, b'Frame Time: ', 'motion'), [self.secs(ip, st)], 'motion', 'the frame time',
                         'frame_time_significant_figures')
            self.go(st, 'rows')
        elif p == 'rows':
            self.row(ip, st, self.rest(ps if isinstance(ps[0], bytes) else [b''] + list(ps), b'', 'motion'))
        else:
            raise Vague('the phase')

    def secs(self, ip, st):
        return fl(('secs', 'f64', st.f.norm(self.time)))

    def name(self, ip, st, d, root):
        v = self.part(d, 'Root' if root else 'Child', 'name')
        for _ in range(6):
            if v.k == 'sym':
                v = self.ctx.W.expand(v)
            if v.k == 'agg':
                v = v.a[2][0][1][0]
        s = seqval(ip, st, v) if v.k != 'seq' else v
        if s is None:
            raise Vague('the name')
        return s

    def joined(self, p):
        if isinstance(p, bytes) or p.k != 'txt' or p.a[0][0] != 'join':
            return None
        return p.a[0][1], p.a[0][2]

    def channels(self, ip, st, ps, chans):
        f = st.f
        for _ in range(3):
            if chans.k == 'sym':
                chans = self.ctx.W.expand(chans)
            elif chans.k == 'agg':
                chans = chans.a[2][0][1][0]
        if chans.k != 'seq':
            raise Vague('the channels')
        n = f.norm(chans.a[1])
        if not ps:
            raise Wrong('skel', 'the number of channels')
        self.number(ip, st, ps[0], n, 'skel', 'the number of channels')
        ps = ps[1:]
        if len(ps) == 2 and ps[0] == b' ':
            j = self.joined(ps[1])
            if j is None:
                raise Vague("the channel names "+str([x if isinstance(x,bytes) else show(x)[:200] for x in ps]))
            x, sep = j
            self.need(bytes(cval(v) for s in sep.a[0] for v in s.a[0]) == b' ', 'skel', 'one space between channel names')
            self.need(f.ent(eq0(sub(x.a[1], n))), 'skel', 'one name per channel')
            s2 = st.copy()
            s2.f.assume(ge0(sub(sub(n, COL), ONE)))
            e = ip.seq_get(s2, x, COL)
            t = seqval(ip, s2, e)
            w = ip.seq_get(s2, chans, COL)
            if t is None:
                raise Vague("a channel name: "+show(e)[:300])
            t = s2.f.norm(t)
            if len(t.a[0]) != 1 or t.a[0][0].k != 'txt' or t.a[0][0].a[0][0] != 'chname':
                raise Vague("a channel name: "+show(e)[:300])
            v = s2.f.norm(t.a[0][0].a[0][1])
            self.need(v is s2.f.norm(self.ctx.fld(s2, ip, w, 'channel_type')), 'skel', 'the names are those of the channels in order')
            return
        raise Vague("the channel names "+str([x if isinstance(x,bytes) else show(x)[:200] for x in ps]))

    def row(self, ip, st, ps):
        f = st.f
        r = ip.load(st, FR)
        self.need(f.ent(ge0(sub(sub(self.F, r), ONE))), 'motion', 'a frame for every row')
        base = f.norm(mul(r, self.C))
        if len(ps) == 1:
            j = self.joined(ps[0])
            if j is None:
                raise Vague('a row')
            x, sep = j
            self.need(bytes(cval(v) for s in sep.a[0] for v in s.a[0]) == b' ', 'motion', 'one space between values')
            self.need(f.ent(eq0(sub(x.a[1], self.C))), 'motion', 'one value per channel')
            s2 = st.copy()
            s2.f.assume(ge0(sub(sub(self.C, COL), ONE)))
            e = ip.seq_get(s2, x, COL)
            t = seqval(ip, s2, e)
            if t is None:
                raise Vague("a value: " + show(e)[:300])
            t = self.pieces(s2.f.norm(t).a[0])
            if len(t) != 1:
                raise Vague("a value: " + show(e)[:300])
            w = ip.seq_get(s2, s2.f.norm(self.M), s2.f.norm(add(base, COL)))
            self.number(ip, s2, t[0], w, 'motion', 'a value', 'motion_values_significant_figures')
        else:
            raise Vague('a row')
        st.mem[FR] = f.norm(add(r, ONE))
        self.go(st, 'rows')

    # ------------------------------------------------------------ observation points
    def on_write(self, ip, st, fx, f, args, site, dty, line):
        s = seqval(ip, st, args[0])
        if s is None:
            return None
        s = st.f.norm(s)
        n = s.a[1]
        st.mem[TOTAL] = st.f.norm(add(ip.load(st, TOTAL), n))
        st.f.assume(ge0(sub(I(2 ** 60), st.mem[TOTAL])))
        what = 'text'
        try:
            segs = list(s.a[0])
            if st.mem[EATEN] is B(True):
                if not segs or segs[0] is not MARK:
                    raise Wrong('skel' if self.phase(st) not in MOTION else 'motion', 'no line put into the buffer is lost')
                segs.pop(0)
            if any(x is MARK for x in segs):
                raise Wrong('skel' if self.phase(st) not in MOTION else 'motion', 'no line is written twice')
            part = list(st.mem[PART].a[0])
            rope = ip.mkseq(tuple(part + segs), ip.W.U8)
            lines, cur = self.split(st, rope)
            for l in lines:
                p = self.phase(st)
                what = 'the line in phase ' + p
                self.line(ip, st, l)
            st.mem[PART] = self.unpiece(ip, cur)
            st.mem[EATEN] = B(False)
            st.mem[STALE] = s
            self.settle(ip, st)
            ip.oblige('spec', st, fx, line, 'the text continues as the object has it', True)
        except Vague as e:
            ip.note('text not known', '%s: %s' % (what, e))
            ip.oblige('spec', st, fx, line, 'the text continues as the object has it', None)
            raise Dead()
        except Wrong as e:
            ip.oblige('spec', st, fx, line, e.what, False, (e.cat, what + ': ' + e.detail))
            raise Dead()
        return [(st, ok(ip, dty, n))]

    def prejoin(self, ip, st):
        if self.J is None or st.mem.get(PART) is None or st.mem[PART].a[0]:
            return
        eaten = st.mem[EATEN] is B(True)
        for o in list(st.mem):
            if o.a[0] != 'l':
                continue
            v = st.mem[o]
            if v.k != 'seq' or v.a[2] != ip.W.U8 or not v.a[0] or st.f.norm(v) is st.f.norm(st.mem[STALE]):
                continue
            segs = list(v.a[0])
            if eaten:
                if segs[0] is not MARK:
                    continue
                segs.pop(0)
            elif any(s is MARK for s in segs):
                continue
            t = st.copy()
            try:
                lines, cur = self.split(t, ip.mkseq(tuple(segs), ip.W.U8))
                if not lines:
                    continue
                for l in lines:
                    self.line(ip, t, l)
                self.settle(ip, t)
            except (Vague, Wrong, Infeasible):
                continue
            st.mem.clear()
            st.mem.update(t.mem)
            st.f = t.f
            st.mem[EATEN] = B(True)
            st.mem[o] = ip.mkseq((MARK,) + tuple(self.unpiece(ip, cur).a[0]), ip.W.U8)
            return
        try:
            self.settle(ip, st)
        except Vague:
            pass

    def done(self, ip, st):
        """(property, why) the text is not complete, or None"""
        try:
            p = self.phase(st)
        except Vague:
            return None, 'phase not known'
        if st.mem[EATEN] is B(True) or st.mem[PART].a[0]:
            return 'motion' if p in MOTION else 'skel', 'the end of the text is written'
        if p not in MOTION:
            i = ip.load(st, JI)
            try:
                if p == 'body':
                    if st.mem[ENDED] is not B(True) and self.noend(ip, st, i) is not True:
                        return 'skel', 'every end site is written'
                    self.step(ip, st)
                    p, i = 'between', ip.load(st, JI)
                if p == 'between' and st.f.ent(eq0(sub(i, self.n()))) is True:
                    if st.f.ent(eq0(self.level(ip, st))) is not True:
                        return 'nest', 'every block is closed'
                    return 'motion', 'there is a motion section'
            except Vague:
                return None, 'level not known'
            return 'skel', 'every joint is written'
        if p != 'rows':
            return 'motion', 'the motion section is written to its end'
        if st.f.ent(eq0(sub(ip.load(st, FR), self.F))) is not True:
            return 'motion', 'there is a row for every frame'
        return None

def m_chname(ip, st, fx, f, args, site, dty, line):
    from ..models import unref
    from ..textio import txt, konst
    v = args[0]
    if v.k in ('ref', 'sref'):
        v = unref(ip, st, v)
    v = st.f.norm(v)
    if v is TOP:
        return None
    return konst(ip, txt(ip, ('chname', v), 1, 32))


def chnames(ctx):
    """the function that names a channel kind"""
    return {f['path']: m_chname for f in ctx.W.F.values()
            if f['crate'] == 'bvh_anim' and re.match(r'.*\bChannelType::as_(str|bstr)$', f['path'])}


def run_text(ctx, indent, term, zero, prec, budget=400000):
    t = Text(ctx, indent, term, zero, prec)
    sp = dict(chnames(ctx))
    sp['bvh_roots::opaque_write'] = t.on_write
    sp['bvh_roots::opaque_flush'] = lambda ip, st, fx, f, args, site, dty, line: ok(ip, dty, ip.W.unit())
    SKOLEM.add(COL.a[1][0][0])
    return ctx.analyse('root_write', t.setup, special=sp, watch={'prejoin': t.prejoin}, cache=False, budget=budget), t


OWN = {'W03': 'kw', 'W04': 'nest', 'W05': 'opt', 'W06': 'motion', 'W08': 'skel'}
SEEN = {'kw': ('start', 'between', 'named', 'open', 'offset', 'motion', 'nframes'), 'nest': ('between', 'named', 'esite', 'eoff'),
        'opt': ('start', 'open', 'nframes'), 'motion': ('motion', 'nframes'), 'skel': ('between', 'open', 'offset', 'eopen')}
ALL = [(i, t, z, p) for i in ('Tabs', 'Spaces', 'NoIndentation') for t in ('Unix', 'Windows') for z in (False, True)
       for p in (None, 'small', 'big')]


def one(case, panics):
    """reads the text of one case, in a process of its own"""
    def go(ctx, rep):
        r, t = run_text(ctx, *case)
        name = '%s, %s%s, precision %s' % (case[0], case[1], ', no channels' if case[2] else '', case[3] or 'not set')
        lim = r.limits()
        cat = OWN.get(rep.pid)
        others = []
        for o in r.log:
            if o.kind != 'spec':
                continue
            rep.count('pieces of text observed')
            if o.ok is True:
                continue
            if o.ok is False and o.info and o.info[0] == cat:
                rep.ob('text|' + o.what, False, '%s: %s' % (name, o.info[1]), lim)
            elif o.ok is False and o.info:
                others.append('the text ends where %s does not hold' % o.what)
            else:
                others += ['text not known'] + [l for l in lim if l.startswith('text not known')]
        if panics:
            check_panics(rep, r)
        for k, n in t.lines.items():
            rep.count('lines read: ' + k, n)
        lim = lim + sorted(set(others))
        for k in SEEN.get(cat, ()) + (('rows',) if cat == 'motion' and not case[2] else ()):
            rep.ob('text|%s|lines read: %s' % (name, k), t.lines.get(k, 0) > 0, 'none', lim)
        fin = 0
        for st, v in r.rets:
            if ctx.variant(st, v)[0] != 'Ok':
                continue
            fin += 1
            w = t.done(r.ip, st)
            if w and w[0] == cat:
                rep.ob('text|' + w[1], False, name, lim)
            elif w:
                others.append(w[1])
        rep.ob('text|%s|comes to an end' % name, fin > 0 or None, 'no path returns', lim or ['no path returns'])
        rep.ob('text|%s|read to its end' % name, not others or None, '', sorted(set(others)))
    return go


def texts(ctx, rep, cases, panics=False):
    parallel(ctx, rep, [one(c, panics) for c in (ALL if ctx.tier == 'thorough' else cases)])


def w03(ctx, rep):
    """The writer is run by abstract interpretation on an arbitrary object, with an observer that reads the text line by
    line: the first word of every line is the keyword for what the object has at that point, spelled as the loader's
    grammar has it, and ROOT stands before the root only.  The names of channel kinds are checked against the reader of names."""
    texts(ctx, rep, [('Tabs', 'Unix', False, None), ('NoIndentation', 'Windows', True, 'small')])
    simple.PROPS['T01'](ctx, rep)


def w04(ctx, rep):
    """As for W03; the observer counts open blocks: a joint opens where exactly the blocks of its ancestors are open,
    every block is closed before what is outside it, and every line of the hierarchy is indented by one unit of the
    chosen kind per open block.  The depth of any joint is at most one more than that of the joint before it."""
    texts(ctx, rep, [('Tabs', 'Unix', False, None), ('Spaces', 'Unix', False, 'small'), ('NoIndentation', 'Windows', True, None)])


def w06(ctx, rep):
    """As for W03; the observer requires the number of frames, the frame time and then one line for every frame, with one
    value per channel, which are the values of that frame in order (for an arbitrary column), and nothing after it."""
    texts(ctx, rep, [('Tabs', 'Unix', False, None), ('NoIndentation', 'Windows', False, 'small'), ('NoIndentation', 'Unix', True, None)])


def w07(ctx, rep):
    """As for W03, on an arbitrary object with a well-formed tree and arbitrary options: no reachable operation of the
    writer can panic.  The loops of the two delivery routes are checked with an arbitrary text generator."""
    texts(ctx, rep, [('Tabs', 'Unix', False, None), ('Spaces', 'Windows', False, 'small'), ('NoIndentation', 'Unix', False, 'big'),
                     ('NoIndentation', 'Windows', True, None)], panics=True)
    for root, good in (('root_write', False), ('root_write_to_string', True)):
        r, box = writer.delivery(ctx, root, good)
        check_panics(rep, r)
    rep.floor('panic sites', 20)


def w08(ctx, rep):
    """As for W03; the observer requires every joint once, in file order, each with its own name, offset components in
    order, number and names of channels in order, and its end site exactly if it has one."""
    texts(ctx, rep, [('Tabs', 'Unix', False, None), ('NoIndentation', 'Windows', True, 'small')])


def w05(ctx, rep):
    """Each setter's result is compared field by field with its arguments; constructors and line terminators against
    their documented constants.  In the text, read as for W03, every line ends with the chosen terminator, and each kind
    of number is written with a precision exactly when the option for that kind of number is set, which is then the only
    thing the precision depends on."""
    simple.w05(ctx, rep)
    texts(ctx, rep, [('Tabs', 'Windows', False, 'small'), ('NoIndentation', 'Unix', False, None)])


PROPS = {'W05': w05, 'W03': w03, 'W04': w04, 'W06': w06, 'W07': w07, 'W08': w08}
