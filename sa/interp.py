"""Abstract interpreter over monomorphic MIR.

State = abstract memory (object -> value) + facts (linear inequalities, equalities, boolean atoms).
Calls into the analysed crate and into library code with MIR are entered; library boundary functions have
transfer functions (models.py).  Joins happen per control-flow partition: values that differ become new
unknowns and only facts entailed by every incoming state survive; loops are solved to a fixpoint of a state
template (values + facts) that every incoming edge is checked against."""
import sys
from .terms import *
from .world import World
from .interp_base import *
from .interp_base import St, Giveup, Dead, U64MAX
from .joins import Joins

sys.setrecursionlimit(100000)
class Ob:
    """an obligation or event met during the analysis"""
    __slots__ = ('kind', 'fn', 'line', 'what', 'ok', 'chain', 'info')

    def __init__(self, kind, fn, line, what, ok, chain, info=None):
        self.kind, self.fn, self.line, self.what, self.ok, self.chain, self.info = kind, fn, line, what, ok, chain, info

    def __repr__(self):
        return '%s %s:%s %s ok=%s via %s' % (self.kind, self.fn, self.line, self.what, self.ok, '>'.join(self.chain[-4:]))


class Fx:
    """one activation of a body"""
    __slots__ = ('body', 'fr', 'rets', 'chain', 'parent')


def frame_obj(parent, site, key):
    return mk('fr', parent, site, key)


ROOTFR = mk('fr', None, 0, 'root')


class Interp(Joins):
    MAXG = 6          # states with the same control key allowed side by side at a merge point
    MAXK = 48         # partitions at a merge point before control keys are coarsened
    MAXITER = 24
    MAXDEPTH = 60

    def __init__(self, W, models=None):
        self.W = W
        self.log = []
        self.models = models
        self.notes = {}
        self.hints = {}
        self.nest = 0
        self.prov = {}         # unknown of a join -> the values it stood for
        self.pat0 = 0          # 2: elements of lists are joined without looking for exact patterns
        self.coarse = 0        # how far states had to be merged in some loop (2: all of them)
        self.keyed = ()         # ghosts whose constant values are kept apart
        self.past = {}
        self.fnseen = set()
        self.hooks = {}
        self.special = {}      # path -> transfer function for this analysis only
        self.watch = {}
        self.stack = []
        self.steps = 0
        self.budget = None
        self.unknown_calls = {}
        self.memo = {}
        self.fmt_may_fail = False

    # ------------------------------------------------------------ logging
    def note(self, what, where=''):
        k = (what, where)
        self.notes[k] = self.notes.get(k, 0) + 1

    def oblige(self, kind, st, fx, line, what, cond, info=None):
        """records that `cond` has to hold here; returns its entailment"""
        r = st.f.ent(cond) if isinstance(cond, Obj) else cond
        self.log.append(Ob(kind, fx.body.path if fx else '?', line, what, r, fx.chain if fx else (), info))
        return r

    def event(self, kind, fx, line, what, info=None):
        self.log.append(Ob(kind, fx.body.path if fx else '?', line, what, None, fx.chain if fx else (), info))

    # ------------------------------------------------------------ memory
    def default(self, obj):
        a = obj.a
        if a[0] == 'k':
            return a[1]
        if a[0] == 'so':
            ty = self.W.objty.get(obj)
            if ty is None:
                return TOP
            t = self.W.T[ty]
            if t['k'] in ('slice', 'str'):
                e = t.get('e', self.W.U8)
                return SeqOp(mk('el', 'deref', a[1]), e, lin_atom(('len', a[1]), 0, 2 ** 63 - 1))
            se = self.W.seq_elem(ty)
            if self.W.adt(ty) == 'bstr::BStr':
                return SeqOp(mk('el', 'deref', a[1]), se, lin_atom(('len', a[1]), 0, 2 ** 63 - 1))
            return self.W.symval(mk('el', 'deref', a[1]), ty)
        return TOP

    def load(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            v = self.default(obj)
        return v

    def proj(self, st, v, e):
        W = self.W
        if e[0] == 'f':
            if v.k == 'sym':
                v = W.expand(v)
            if v.k == 'agg':
                for vi, fs in v.a[2]:
                    if vi == e[1]:
                        if e[2] < len(fs):
                            return fs[e[2]]
                        return TOP
                return TOP
            return TOP
        if e[0] == 'i':
            if v.k == 'seq':
                return self.seq_get(st, v, e[1])
            return TOP
        return TOP

    def read(self, st, obj, path):
        v = self.load(st, obj)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def write(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self._upd(st, self.load(st, obj), path, val)

    def _upd(self, st, v, path, val):
        e = path[0]
        if e[0] == 'f':
            if v.k == 'sym':
                v = self.W.expand(v)
            if v.k != 'agg':
                return TOP
            fs = []
            hit = False
            for vi, fl_ in v.a[2]:
                if vi == e[1]:
                    hit = True
                    old = fl_[e[2]] if e[2] < len(fl_) else TOP
                    nv = val if len(path) == 1 else self._upd(st, old, path[1:], val)
                    fl_ = fl_[:e[2]] + (nv,) + fl_[e[2] + 1:]
                fs.append((vi, fl_))
            if not hit:
                return v
            return Agg(v.a[0], v.a[1], tuple(fs))
        if e[0] == 'i' and v.k == 'seq':
            if len(path) == 1:
                nv = val
            else:
                nv = self._upd(st, self.seq_get(st, v, e[1]), path[1:], val)
            return self.seq_set(st, v, e[1], nv)
        return TOP

    # ------------------------------------------------------------ sequences
    def norm_segs(self, segs):
        out = []
        for s in segs:
            L = seglen(s)
            if L is ZERO:
                continue
            if out:
                p = out[-1]
                if p.k == 'lit' and s.k == 'lit':
                    out[-1] = LIT(p.a[0] + s.a[0])
                    continue
                if p.k == 'sub' and s.k == 'sub' and p.a[0] is s.a[0] and add(p.a[1], p.a[2]) is s.a[1]:
                    out[-1] = mk('sub', p.a[0], p.a[1], add(p.a[2], s.a[2]))
                    continue
                if p.k == 'rep' and s.k == 'rep' and p.a[0] is s.a[0]:
                    out[-1] = mk('rep', p.a[0], add(p.a[1], s.a[1]))
                    continue
            out.append(s)
        return tuple(out)

    def mkseq(self, segs, ety):
        segs = self.norm_segs(segs)
        ln = ZERO
        for s in segs:
            ln = add(ln, seglen(s))
        return mk('seq', segs, ln, ety)

    def opq_seq(self, key, ln, ety):
        return SeqOp(mk('el', *key), ety, ln)

    def seg_elem(self, st, s, k, ety):
        """element k (relative to the segment)"""
        if s.k == 'lit':
            c = cval(st.f.norm(k))
            if c is not None and 0 <= c < len(s.a[0]):
                return s.a[0][c]
            if len(s.a[0]) == 1:
                return s.a[0][0]
            return self.W.symval(mk('el', s, k), ety)
        if s.k == 'sub':
            return self.W.symval(mk('el', s.a[0], st.f.norm(add(s.a[1], k))), ety)
        if s.k == 'rep':
            return s.a[0]
        if s.k == 'summ':
            return self.inst(st, s, k)
        return self.W.symval(mk('el', s, k), ety)

    def inst(self, st, s, k):
        pat, cons = s.a[0], s.a[1]
        m = {IDX: k}
        for x in atoms_of(pat):
            if x.k == 'atom' and x.a[0][0] == 'hole':
                lo, hi = BOUNDS[x]
                m[x] = lin_atom(('hv', x, k), lo, hi, DOMS.get(x))
            elif x.k == 'ba' and isinstance(x.a[0], tuple) and x.a[0][0] == 'hole':
                m[x] = batom(('hv', x, k))
            elif x.k == 'fl' and isinstance(x.a[0], tuple) and x.a[0][0] == 'hole':
                m[x] = fl(('hv', x, k))
            elif x.k == 'op' and isinstance(x.a[0], tuple) and x.a[0][0] == 'hole':
                m[x] = mk('op', mk('el', x, k), x.a[1])
            elif x.k == 'sym' and isinstance(x.a[0], tuple) and x.a[0][0] == 'hole':
                m[x] = Sym(mk('el', x, k), x.a[1])
        v = subst(pat, m)
        for c in cons:
            try:
                st.f.assume(subst(c, m))
            except Infeasible:
                pass
        return v

    def seq_get(self, st, v, k):
        segs, ln, ety = v.a
        k = st.f.norm(k)
        c = ZERO
        for s in segs:
            L = seglen(s)
            if st.f.ent_ge(sub(k, c)) and st.f.ent_ge(sub(add(c, L), add(k, ONE))):
                return self.seg_elem(st, s, sub(k, c), ety)
            c = add(c, L)
        if len(segs) == 1 and segs[0].k in ('sub', 'summ', 'rep'):
            return self.seg_elem(st, segs[0], k, ety)
        return self.W.symval(mk('el', v, k), ety)

    def seq_cut(self, st, segs, pos):
        """segments before / after position pos, or None when the cut point cannot be located"""
        pos = st.f.norm(pos)
        c = ZERO
        left = []
        for i, s in enumerate(segs):
            d = sub(pos, c)
            if st.f.ent(eq0(d)):
                return tuple(left), tuple(segs[i:])
            L = seglen(s)
            if st.f.ent_ge(d) and st.f.ent_ge(sub(L, d)):
                if st.f.ent(eq0(sub(L, d))):
                    left.append(s)
                    return tuple(left), tuple(segs[i + 1:])
                # strictly or possibly inside
                if s.k == 'sub':
                    a = mk('sub', s.a[0], s.a[1], d)
                    b = mk('sub', s.a[0], add(s.a[1], d), sub(L, d))
                elif s.k == 'rep':
                    a = mk('rep', s.a[0], d)
                    b = mk('rep', s.a[0], sub(L, d))
                elif s.k == 'summ':
                    a = mk('summ', s.a[0], s.a[1], d, s.a[3])
                    m = {IDX: add(IDXL, d)}
                    b = mk('summ', subst(s.a[0], m), subst(s.a[1], m), sub(L, d), s.a[3])
                elif s.k == 'lit':
                    n = cval(st.f.norm(d))
                    if n is None:
                        return None
                    a, b = LIT(s.a[0][:n]), LIT(s.a[0][n:])
                else:
                    return None
                return tuple(left) + (a,), (b,) + tuple(segs[i + 1:])
            left.append(s)
            c = add(c, L)
        if st.f.ent(eq0(sub(pos, c))):
            return tuple(left), ()
        return None

    def seq_slice(self, st, v, start, ln):
        segs, _, ety = v.a
        if start is ZERO and st.f.norm(ln) is st.f.norm(v.a[1]):
            return v
        r = self.seq_cut(st, segs, start)
        if r is not None:
            q = self.seq_cut(st, r[1], ln)
            if q is not None:
                return self.mkseq(q[0], ety)
        return self.opq_seq(('slice', v, st.f.norm(start), st.f.norm(ln)), ln, ety)

    def seq_set(self, st, v, k, val):
        segs, ln, ety = v.a
        r = self.seq_cut(st, segs, k)
        if r is not None:
            q = self.seq_cut(st, r[1], ONE)
            if q is not None:
                return self.mkseq(r[0] + (LIT((val,)),) + q[1], ety)
        return self.opq_seq(('set', v, st.f.norm(k), val), ln, ety)

    def seq_splice(self, st, v, start, end, ins):
        """v with [start, end) replaced by the segments of ins"""
        segs, ln, ety = v.a
        a = self.seq_cut(st, segs, start)
        b = self.seq_cut(st, segs, end)
        if a is not None and b is not None:
            return self.mkseq(a[0] + ins.a[0] + b[1], ety)
        return self.opq_seq(('splice', v, st.f.norm(start), st.f.norm(end), ins), add(sub(ln, sub(end, start)), ins.a[1]), ety)

    def seq_cat(self, a, b):
        return self.mkseq(a.a[0] + b.a[0], a.a[2])

    def seq_eq(self, st, a, b):
        """True when the two sequences are entailed equal, False when entailed different, else None"""
        a, b = st.f.norm(a), st.f.norm(b)
        if a is b:
            return True
        e = st.f.ent(eq0(sub(a.a[1], b.a[1])))
        if e is False:
            return False
        x, y = list(a.a[0]), list(b.a[0])
        ety = a.a[2]

        def emp(s):
            return st.f.ent(eq0(seglen(s))) is True
        while True:
            while x and emp(x[0]):
                x.pop(0)
            while y and emp(y[0]):
                y.pop(0)
            if not x or not y:
                if not x and not y:
                    return True
                return None if e is None or not e else None
            s, t = x[0], y[0]
            if s is t:
                x.pop(0)
                y.pop(0)
                continue
            ls, lt = seglen(s), seglen(t)
            if st.f.ent_ge(sub(lt, ls)):
                n = ls
            elif st.f.ent_ge(sub(ls, lt)):
                n = lt
            else:
                return None
            cs, ct = self.seq_cut(st, tuple(x), n), self.seq_cut(st, tuple(y), n)
            if cs is None or ct is None:
                return None
            r = self.seg_eq(st, cs[0], ct[0], ety)
            if r is not True:
                return r
            x, y = list(cs[1]), list(ct[1])

    def seg_eq(self, st, p, q, ety):
        if len(p) != 1 or len(q) != 1:
            return None
        s, t = p[0], q[0]
        if s is t:
            return True
        if s.k == 'summ' and t.k == 'summ' and s.a[0] is t.a[0] and s.a[1] == t.a[1]:
            return True
        if s.k == 'sub' and t.k == 'sub' and s.a[0] is t.a[0]:
            r = st.f.ent(eq0(sub(s.a[1], t.a[1])))
            return True if r else None
        n = cval(seglen(s))
        m = cval(seglen(t))
        if n is None:
            n = m
        if n is not None and n <= 64:
            for i in range(n):
                u = self.seg_elem(st, s, I(i), ety)
                v = self.seg_elem(st, t, I(i), ety)
                r = self.val_eq(st, u, v)
                if r is not True:
                    return r
            return True
        if 'summ' in (s.k, t.k) or 'rep' in (s.k, t.k):
            # compare an arbitrary element
            st2 = st.copy()
            g = lin_atom(('gi', seglen(s)), 0, 2 ** 63 - 1)
            try:
                st2.f.assume(ge0(sub(sub(seglen(s), g), ONE)))
            except Infeasible:
                return True
            u = self.seg_elem(st2, s, g, ety)
            v = self.seg_elem(st2, t, g, ety)
            if u is not None and v is not None and self.val_eq(st2, u, v) is True:
                return True
        return None

    def val_eq(self, st, u, v):
        if u is v:
            return True
        u, v = st.f.norm(u), st.f.norm(v)
        if u is v:
            return True
        if u.k == 'lin' and v.k == 'lin':
            return st.f.ent(eq0(sub(u, v)))
        if is_bool(u) and is_bool(v):
            a, b = st.f.ent(u), st.f.ent(v)
            if a is not None and b is not None:
                return a == b
            if st.f.ent(bnot(u)) == (not b if b is not None else None) and b is not None:
                return None
            return None
        if u.k == 'seq' and v.k == 'seq':
            return self.seq_eq(st, u, v)
        if u.k == 'sym':
            u = self.W.expand(u)
        if v.k == 'sym':
            v = self.W.expand(v)
        if u.k == 'agg' and v.k == 'agg' and u.a[0] == v.a[0]:
            r = st.f.ent(eq0(sub(u.a[1], v.a[1])))
            if r is False:
                return False
            if r is None:
                return None
            du = dict(u.a[2])
            dv = dict(v.a[2])
            live = [i for i in set(du) | set(dv)
                    if not self.is_enum(u.a[0]) or st.f.ent(eq0(sub(u.a[1], I(self.W.sdisc(u.a[0], i))))) is not False]
            res = True
            for i in live:
                if i not in du or i not in dv:
                    return None
                for a, b in zip(du[i], dv[i]):
                    r = self.val_eq(st, a, b)
                    if r is False:
                        if len(live) == 1:
                            return False
                        r = None
                    if r is None:
                        res = None
            return res
        if u.k == 'ref' and v.k == 'ref' and u.a[0] is v.a[0] and self.path_eq(st, u.a[1], v.a[1]):
            return True
        if u.k == 'sref' and v.k == 'sref':
            if u.a[0] is v.a[0] and self.path_eq(st, u.a[1], v.a[1]) and \
                    st.f.ent(eq0(sub(u.a[2], v.a[2]))) and st.f.ent(eq0(sub(u.a[3], v.a[3]))):
                return True
        return None

    def path_eq(self, st, p, q):
        if len(p) != len(q):
            return False
        for a, b in zip(p, q):
            if a[0] != b[0]:
                return False
            if a[0] == 'i':
                if not st.f.ent(eq0(sub(a[1], b[1]))):
                    return False
            elif a != b:
                return False
        return True

    def is_enum(self, ty):
        return isinstance(ty, int) and ty >= 0 and self.W.T[ty]['k'] == 'enum'

    # ------------------------------------------------------------ places
    def place_ty(self, fx, place):
        W = self.W
        t = fx.body.locals[place[0]]
        var = None
        for e in place[1]:
            if e == '*':
                tt = W.T[t]
                t = tt.get('e')
                if t is None:
                    return None
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                tt = W.T[t]
                t = tt.get('e', W.U8)
            elif e[0] == 'o':
                t = e[1]
        return t

    def resolve(self, st, fx, place):
        """-> ('p', obj, path) | ('s', obj, path, start, len) | None"""
        cur = ('p', OBJ('l', fx.fr, place[0]), ())
        var = 0
        for e in place[1]:
            if e == '*':
                v = self.read_place(st, cur)
                v = st.f.norm(v)
                if v.k == 'ref':
                    cur = ('p', v.a[0], v.a[1])
                elif v.k == 'sref':
                    cur = ('s', v.a[0], v.a[1], v.a[2], v.a[3])
                else:
                    return None
                var = 0
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'f':
                if cur[0] == 's':
                    return None
                cur = ('p', cur[1], cur[2] + (('f', var, e[1]),))
                var = 0
            elif e[0] == 'i':
                k = self.load(st, OBJ('l', fx.fr, e[1]))
                if k.k != 'lin':
                    return None
                cur = self.index(cur, k)
            elif e[0] == 'c':
                if e[3]:
                    L = self.plen(st, cur)
                    if L is None:
                        return None
                    k = sub(L, I(e[1]))
                else:
                    k = I(e[1])
                cur = self.index(cur, k)
            elif e[0] == 's':
                L = self.plen(st, cur)
                if L is None:
                    return None
                a = I(e[1])
                b = sub(L, I(e[2])) if e[3] else I(e[2])
                if cur[0] == 's':
                    cur = ('s', cur[1], cur[2], add(cur[3], a), sub(b, a))
                else:
                    cur = ('s', cur[1], cur[2], a, sub(b, a))
        return cur

    def index(self, cur, k):
        if cur[0] == 's':
            return ('p', cur[1], cur[2] + (('i', add(cur[3], k)),))
        return ('p', cur[1], cur[2] + (('i', k),))

    def plen(self, st, cur):
        if cur[0] == 's':
            return cur[4]
        v = self.read(st, cur[1], cur[2])
        if v.k == 'seq':
            return v.a[1]
        return None

    def read_place(self, st, cur):
        if cur[0] == 's':
            v = self.read(st, cur[1], cur[2])
            if v.k == 'seq':
                return self.seq_slice(st, v, cur[3], cur[4])
            return TOP
        return self.read(st, cur[1], cur[2])

    def deref(self, st, v):
        """value behind a reference"""
        v = st.f.norm(v)
        if v.k == 'ref':
            return self.read(st, v.a[0], v.a[1])
        if v.k == 'sref':
            return self.read_place(st, ('s',) + v.a)
        return TOP

    def store(self, st, v, val):
        """write through a reference"""
        v = st.f.norm(v)
        if v.k == 'ref':
            self.write(st, v.a[0], v.a[1], val)
            return True
        if v.k == 'sref':
            old = self.read(st, v.a[0], v.a[1])
            if old.k == 'seq' and val.k == 'seq':
                self.write(st, v.a[0], v.a[1], self.seq_splice(st, old, v.a[2], add(v.a[2], v.a[3]), val))
            else:
                self.write(st, v.a[0], v.a[1], TOP)
            return True
        return False

    def store2(self, st, r, val):
        """replace the value stored in the place a reference names (r: Ref)"""
        self.write(st, r.a[0], r.a[1], val)

    def refto(self, cur):
        if cur is None:
            return TOP
        if cur[0] == 's':
            return SRef(cur[1], cur[2], cur[3], cur[4])
        return Ref(cur[1], cur[2])

    # ------------------------------------------------------------ operands and rvalues
    def op(self, st, fx, o):
        k = o[0]
        if k in ('cp', 'mv'):
            cur = self.resolve(st, fx, o[1])
            if cur is None:
                return self.havoc_ty(fx, o[1], ('topread', fx.fr, str(o[1])))
            v = self.read_place(st, cur)
            if v is TOP:
                return TOP
            return v
        if k == 'k':
            c = o[1]
            v = self.W.const(c)
            if v is None:
                ty = c[-1] if isinstance(c[-1], int) else None
                if ty is not None:
                    return self.W.symval(('const', str(c)), ty)
                return TOP
            return v
        if k == 'rc':
            return FALSE
        return TOP

    def havoc_ty(self, fx, place, idk):
        ty = self.place_ty(fx, place)
        if ty is None:
            return TOP
        return TOP

    def fresh(self, idk, ty):
        return self.W.symval(idk, ty)

    def trange(self, ty):
        t = self.W.T[ty]
        if t['k'] == 'uint':
            return 0, 2 ** t['b'] - 1
        if t['k'] == 'int':
            return -2 ** (t['b'] - 1), 2 ** (t['b'] - 1) - 1
        if t['k'] == 'char':
            return 0, 0x10ffff
        return None

    def arith(self, st, opn, x, y):
        """exact integer result or None"""
        if opn == 'Add':
            return add(x, y)
        if opn == 'Sub':
            return sub(x, y)
        if opn == 'Mul':
            return mul(x, y)
        return None

    def intdiv(self, st, x, y):
        f = st.f
        x, y = f.norm(x), f.norm(y)
        q = exact_div(x, y)
        if q is not None:
            return q
        cx, cy = cval(x), cval(y)
        if cx is not None and cy:
            return I(int(cx / cy)) if (cx < 0) else I(cx // cy)
        # x = k*y + r with 0 <= r < y
        if len(y.a[1]) == 1 and y.a[0] == 0 and y.a[1][0][1] == 1:
            m = y.a[1][0][0]
            quo, rem = ZERO, I(x.a[0])
            for a, c in x.a[1]:
                p = exact_div(of_atom(a, c), y)
                if p is not None:
                    quo = add(quo, p)
                else:
                    rem = add(rem, of_atom(a, c))
            if quo is not ZERO:
                if f.ent_ge(rem) and f.ent_ge(sub(y, add(rem, ONE))):
                    return quo
                rr = rem
                if f.ent_ge(rr):
                    return add(quo, self.intdiv(st, rr, y))
        if not (f.ent_ge(x) and f.ent_ge(sub(y, ONE))):
            return lin_atom(('div', x, y))
        q = lin_atom(('div', x, y), 0)
        p = mul(q, y)
        for g in (sub(x, p), sub(add(p, y), add(x, ONE)), sub(x, q)):
            try:
                f.assume(ge0(g))
            except Infeasible:
                pass
        return q

    def binop(self, st, fx, opn, x, y, ty, site):
        f = st.f
        if opn.endswith('Unchecked'):
            base = opn[:-9]
            if x.k == 'lin' and y.k == 'lin':
                r = self.arith(st, base, x, y)
                if r is not None:
                    return r
            opn = base
        if opn in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if opn == 'Cmp':
                return TOP
            b = self.cmp(st, opn, x, y, site)
            return b
        if is_bool(x) and is_bool(y):
            if opn == 'BitAnd':
                return band(x, y)
            if opn == 'BitOr':
                return bor(x, y)
            if opn == 'BitXor':
                return bor(band(x, bnot(y)), band(bnot(x), y))
        if x.k == 'lin' and y.k == 'lin':
            x, y = f.norm(x), f.norm(y)
            if opn in ('Add', 'Sub', 'Mul'):
                r = self.arith(st, opn, x, y)
                lo, hi = self.trange(ty) if ty is not None and self.trange(ty) else (0, U64MAX)
                if f.ent_ge(sub(r, I(lo))) and f.ent_ge(sub(I(hi), r)):
                    return r
                return lin_atom(('wrap', opn, x, y), lo, hi)
            if opn == 'Div':
                return self.intdiv(st, x, y)
            if opn == 'Rem':
                q = self.intdiv(st, x, y)
                return sub(x, mul(q, y))
            cx, cy = cval(x), cval(y)
            if cx is not None and cy is not None and cx >= 0 and cy >= 0:
                try:
                    if opn in ('Shl', 'ShlUnchecked'):
                        lo, hi = self.trange(ty) or (0, U64MAX)
                        return I((cx << cy) & hi)
                    if opn in ('Shr', 'ShrUnchecked'):
                        return I(cx >> cy)
                    if opn == 'BitAnd':
                        return I(cx & cy)
                    if opn == 'BitOr':
                        return I(cx | cy)
                    if opn == 'BitXor':
                        return I(cx ^ cy)
                except Exception:
                    pass
            if opn == 'Shl' and cy is not None and cy < 64:
                r = mul(x, I(2 ** cy))
                lo, hi = self.trange(ty) or (0, U64MAX)
                if f.ent_ge(r) and f.ent_ge(sub(I(hi), r)):
                    return r
            if opn == 'Shr' and cy is not None and cy < 64:
                return self.intdiv(st, x, I(2 ** cy))
            if opn == 'BitAnd' and cy is not None and (cy & (cy + 1)) == 0 and f.ent_ge(x):
                q = self.intdiv(st, x, I(cy + 1))
                return sub(x, mul(q, I(cy + 1)))
            lo, hi = (self.trange(ty) if ty is not None else None) or (None, None)
            return lin_atom(('bit', opn, x, y), lo, hi)
        if x.k == 'fl' or y.k == 'fl':
            return fl(('fop', opn, x, y))
        if ty is not None:
            return self.fresh(('bin', site, opn), ty)
        return TOP

    def cmp(self, st, opn, x, y, site):
        x, y = st.f.norm(x), st.f.norm(y)
        if x.k == 'lin' and y.k == 'lin':
            d = sub(x, y)
            if opn == 'Eq':
                return eq0(d)
            if opn == 'Ne':
                return ne0(d)
            if opn == 'Lt':
                return ge0(add(neg(d), I(-1)))
            if opn == 'Le':
                return ge0(neg(d))
            if opn == 'Gt':
                return ge0(add(d, I(-1)))
            return ge0(d)
        if is_bool(x) and is_bool(y):
            iff = bor(band(x, y), band(bnot(x), bnot(y)))
            if opn == 'Eq':
                return iff
            if opn == 'Ne':
                return bnot(iff)
        if x.k == 'fl' and y.k == 'fl':
            if opn == 'Ne':
                return bnot(batom(('fcmp', 'Eq', x, y)))
            return batom(('fcmp', opn, x, y))
        return batom(('cmp', opn, x, y, site))

    def cast(self, st, fx, kind, v, ty, site):
        W = self.W
        if kind == 'IntToInt':
            if is_bool(v):
                r = st.f.ent(v)
                if r is not None:
                    return I(int(r))
                return lin_atom(('b2i', v), 0, 1)
            if v.k == 'lin':
                rg = self.trange(ty)
                if rg and st.f.ent_ge(sub(v, I(rg[0]))) and st.f.ent_ge(sub(I(rg[1]), v)):
                    return v
                if rg:
                    c = cval(st.f.norm(v))
                    if c is not None:
                        n = rg[1] - rg[0] + 1
                        return I((c - rg[0]) % n + rg[0])
                    return lin_atom(('trunc', st.f.norm(v), ty), *rg)
            if v.k == 'agg':
                return v.a[1]
            if v.k == 'sym':
                e = W.expand(v)
                if e.k == 'agg':
                    return e.a[1]
            return self.fresh(('cast', site), ty)
        if kind == 'IntToFloat':
            return fl(('i2f', v))
        if kind in ('FloatToFloat',):
            return fl(('f2f', v, ty))
        if kind == 'FloatToInt':
            rg = self.trange(ty)
            return lin_atom(('f2i', v, ty), *(rg or (None, None)))
        if kind.startswith('PointerCoercion(Unsize'):
            if v.k == 'ref':
                t = W.T[ty]
                e = t.get('e')
                if e is not None and W.T[e]['k'] == 'slice':
                    s = self.read(st, v.a[0], v.a[1])
                    if s.k == 'seq':
                        return SRef(v.a[0], v.a[1], ZERO, s.a[1])
                return v
            return v
        if kind.startswith('PointerCoercion'):
            return v
        if kind == 'PtrToPtr':
            return v
        if kind == 'Transmute':
            t = W.T[ty]
            if v.k in ('ref', 'sref', 'lin', 'fl'):
                if t['k'] in ('ref', 'ptr', 'int', 'uint', 'char', 'float'):
                    if v.k == 'lin' and t['k'] == 'float':
                        return fl(('bits', v))
                    if v.k == 'fl' and t['k'] != 'float':
                        return self.fresh(('tr', site), ty)
                    return v
                if t['k'] == 'struct' and v.k == 'lin':
                    return v
                return v
            return v
        return self.fresh(('cast', site), ty)

    def rvalue(self, st, fx, rv, dty, site):
        k = rv[0]
        W = self.W
        if k == 'use':
            return self.op(st, fx, rv[1])
        if k == 'ref':
            return self.refto(self.resolve(st, fx, rv[1]))
        if k == 'bin':
            x, y = self.op(st, fx, rv[2]), self.op(st, fx, rv[3])
            if rv[1] == 'Offset':
                return TOP
            return self.binop(st, fx, rv[1], x, y, dty, site)
        if k == 'cbin':
            x, y = self.op(st, fx, rv[2]), self.op(st, fx, rv[3])
            ity = W.T[dty]['f'][0] if dty is not None and W.T[dty]['k'] == 'tuple' else None
            if x.k == 'lin' and y.k == 'lin' and ity is not None:
                x, y = st.f.norm(x), st.f.norm(y)
                r = self.arith(st, rv[1], x, y)
                lo, hi = self.trange(ity)
                over = bor(bnot(ge0(sub(r, I(lo)))), bnot(ge0(sub(I(hi), r))))
                return Struct(dty, (r, over))
            return Struct(dty, (self.fresh(('cb', site), ity) if ity is not None else TOP, batom(('ovf', site))))
        if k == 'un':
            v = self.op(st, fx, rv[2])
            if rv[1] == 'Not':
                if is_bool(v):
                    return bnot(v)
                if v.k == 'lin':
                    rg = self.trange(dty) if dty is not None else None
                    if rg and rg[0] == 0:
                        return sub(I(rg[1]), v)
                    if rg:
                        return sub(I(-1), v)
            elif rv[1] == 'Neg':
                if v.k == 'lin':
                    return neg(v)
                if v.k == 'fl':
                    return fl(('fneg', v))
            elif rv[1] == 'PtrMetadata':
                v = st.f.norm(v)
                if v.k == 'sref':
                    return v.a[3]
                if dty is not None and W.T[dty]['k'] == 'tuple':
                    return W.unit()
            return self.fresh(('un', site), dty) if dty is not None else TOP
        if k == 'cast':
            return self.cast(st, fx, rv[1], self.op(st, fx, rv[2]), rv[3], site)
        if k == 'discr':
            cur = self.resolve(st, fx, rv[1])
            v = self.read_place(st, cur) if cur else TOP
            if v.k == 'sym':
                v = W.expand(v)
            if v.k == 'agg':
                return v.a[1]
            return self.fresh(('discr', site), dty) if dty is not None else TOP
        if k == 'len':
            cur = self.resolve(st, fx, rv[1])
            L = self.plen(st, cur) if cur else None
            return L if L is not None else self.fresh(('len', site), W.USIZE)
        if k == 'rep':
            v = self.op(st, fx, rv[1])
            t = W.T[dty] if dty is not None else None
            n = rv[2]
            ety = t['e'] if t else None
            if n == 0:
                return SeqLit((), ety)
            return self.mkseq((mk('rep', v, I(n)),), ety)
        if k == 'agg':
            ops = [self.op(st, fx, o) for o in rv[2]]
            h = rv[1]
            if h[0] == 'array':
                return SeqLit(ops, W.T[dty]['e'] if dty is not None and 'e' in W.T[dty] else None)
            if h[0] == 'tuple':
                return Struct(dty, ops)
            if h[0] == 'adt':
                ty, vi = h[1], h[2]
                t = W.T[ty]
                if t['k'] == 'enum':
                    h = self.watch.get('build')
                    if h:
                        h(self, st, fx, ty, vi, ops, site)
                    return W.mkenum(ty, vi, ops)
                if t['k'] == 'union':
                    return self.fresh(('union', site), ty)
                if t['def'] == 'std::num::NonZero':
                    return ops[0]
                return Struct(ty, ops)
            if h[0] == 'closure':
                return Struct(h[1], ops)
            if h[0] == 'rawptr':
                p, m = ops[0], ops[1]
                if p.k == 'sref' and m.k == 'lin':
                    return SRef(p.a[0], p.a[1], p.a[2], m)
                return TOP
            return TOP
        return TOP

    # ------------------------------------------------------------ statements
    def stmts(self, st, fx, bi):
        for si, s in enumerate(fx.body.blocks[bi]['s']):
            k = s[0]
            if k == '=':
                site = (fx.fr, bi, si)
                place = s[1]
                dty = self.place_ty(fx, place)
                v = self.rvalue(st, fx, s[2], dty, site)
                self.assign(st, fx, place, v)
            elif k == 'dead':
                st.mem.pop(OBJ('l', fx.fr, s[1]), None)
            elif k == 'assume':
                v = self.op(st, fx, s[1])
                if is_bool(v):
                    st.f.assume(v)
            elif k == 'setd':
                cur = self.resolve(st, fx, s[1])
                if cur:
                    v = self.read_place(st, cur)
                    if v.k == 'sym':
                        v = self.W.expand(v)
                    if v.k == 'agg':
                        self.write(st, cur[1], cur[2], Agg(v.a[0], I(self.W.sdisc(v.a[0], s[2])), v.a[2]))

    def assign(self, st, fx, place, v):
        if not place[1]:
            st.mem[OBJ('l', fx.fr, place[0])] = v
            return
        cur = self.resolve(st, fx, place)
        if cur is None:
            self.note('store through unknown pointer', fx.body.path)
            return
        if cur[0] == 'p':
            self.write(st, cur[1], cur[2], v)
        else:
            self.store(st, SRef(*cur[1:]), v)

    # ------------------------------------------------------------ control flow
    def call_fn(self, st, key, args, fr, chain):
        """enter a body; -> [(state, value)]"""
        b = self.W.body(key)
        self.fnseen.add(key)
        fx = Fx()
        fx.body = b
        fx.fr = fr
        fx.rets = []
        fx.chain = chain + (b.path,)
        if len(fx.chain) > self.MAXDEPTH:
            raise Giveup('call depth')
        for i, a in enumerate(args):
            st.mem[OBJ('l', fr, i + 1)] = a
        out = self.region(fx, None, 0, [st])
        res = []
        for s in fx.rets:
            v = s.mem.get(OBJ('l', fr, 0), self.W.unit())
            for i in range(len(b.locals)):
                s.mem.pop(OBJ('l', fr, i), None)
            res.append((s, v))
        if len(res) > self.MAXG:
            tmp = OBJ('ret', fr)
            ss = []
            for s, v in res:
                s.mem[tmp] = v
                ss.append(s)
            ss = self.merge(ss, ('ret', fr), None, -1)
            res = []
            for s in ss:
                res.append((s, s.mem.pop(tmp)))
        return res

    def region(self, fx, blocks, entry, states, header=None):
        """runs the blocks (None: whole body) from entry; -> {target outside / header: [states]}"""
        body = fx.body
        pend = {entry: list(states)}
        exits = {}
        first = True
        for b in body.rpo:
            if blocks is not None and b not in blocks:
                continue
            ss = pend.pop(b, None)
            if not ss:
                continue
            if b in body.loops and b != header:
                outs = self.loop(fx, b, ss)
            else:
                if b != entry or header is None:
                    ss = self.merge(ss, ('m', fx.fr, b), fx, b)
                outs = {}
                for s in ss:
                    for t, s2 in self.block(fx, b, s):
                        outs.setdefault(t, []).append(s2)
            for t, l in outs.items():
                if t == header or (blocks is not None and t not in blocks):
                    exits.setdefault(t, []).extend(l)
                else:
                    pend.setdefault(t, []).extend(l)
        return exits

    def block(self, fx, b, st):
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            raise Giveup('step budget')
        try:
            self.stmts(st, fx, b)
            outs = self.term(fx, b, st)
        except (Infeasible, Dead):
            return []
        res = []
        for t, s in outs:
            if t is None:
                continue
            for l in fx.body.kills.get((b, t), ()):
                s.mem.pop(OBJ('l', fx.fr, l), None)
            res.append((t, s))
        return res

    def term(self, fx, b, st):
        t = fx.body.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            fx.rets.append(st)
            return []
        if k in ('unreachable', 'resume', 'abort'):
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(fx, st, self.op(st, fx, t[1]), t[2], t[3], (fx.fr, b))
        if k == 'assert':
            v = self.op(st, fx, t[1])
            ok = v if t[2] else bnot(v) if is_bool(v) else TOP
            if not is_bool(ok):
                ok = batom(('assert', fx.fr, b))
            self.panic_ob(st, fx, t[6], t[3], ok)
            st.f.assume(ok)
            return [(t[5], st)]
        if k == 'call':
            return self.do_call(fx, b, st, t)
        self.note('terminator ' + k, fx.body.path)
        return []

    def panic_ob(self, st, fx, line, what, ok):
        r = st.f.ent(ok)
        if r is not True and what == 'overflow Add' and self.counter(st, ok):
            r = True
        self.log.append(Ob('panic', fx.body.path, line, what, r, fx.chain, None))
        if r is not True and self.watch.get('panic'):
            self.watch['panic'](self, st, fx, line, what, ok, r)

    def counter(self, st, ok):
        """the sum whose overflow is in question counts steps: it comes from bounded numbers by adding small constants,
        and no run takes 2^63 steps"""
        if isinstance(ok, Obj) and ok.k == 'and':
            return all(st.f.ent(c) is True or self.counter(st, c) for c in ok.a[0])
        if not isinstance(ok, Obj) or ok.k != 'ge' or ok.a[0].a[0] < 2 ** 63:
            return False
        work = [sub(I(U64MAX), ok.a[0])]
        seen = set()
        while work:
            v = work.pop()
            if len(v.a[1]) > 1 or abs(v.a[0]) > 2 ** 20 and v.a[1] or v.a[0] > 2 ** 62:
                return False
            for a, k in v.a[1]:
                if k != 1:
                    return False
                if a in seen:
                    continue
                seen.add(a)
                if a in self.prov:
                    work.extend(self.prov[a])
                elif st.f.ent(ge0(sub(I(2 ** 63), of_atom(a)))) is not True:
                    return False
        return len(seen) > 0

    def switch(self, fx, st, v, arms, other, site):
        v = st.f.norm(v)
        outs = []
        if is_bool(v):
            for val, tgt in arms:
                c = v if int(val) else bnot(v)
                outs.extend((tgt, s) for s in self.cases(st, c))
            if len(arms) == 1:
                c = bnot(v) if int(arms[0][0]) else v
                outs.extend((other, s) for s in self.cases(st, c))
            return outs
        if v.k != 'lin':
            for val, tgt in arms:
                outs.append((tgt, st.copy()))
            outs.append((other, st.copy()))
            return outs
        c = cval(v)
        if c is not None:
            for val, tgt in arms:
                if self.swval(val, c):
                    return [(tgt, st)]
            return [(other, st)]
        groups = {}
        rest = st.copy()
        alive = True
        for val, tgt in arms:
            n = int(val)
            s = self.assuming(st, eq0(sub(v, I(n))))
            if s is not None:
                outs.append((tgt, s))
            if alive:
                try:
                    rest.f.assume(ne0(sub(v, I(n))))
                except Infeasible:
                    alive = False
        if alive:
            outs.append((other, rest))
        return outs

    def swval(self, val, c):
        n = int(val)
        return n == c or (c < 0 and n == c + 2 ** 64) or (c < 0 and n == c + 256) or (c < 0 and n == c + 2 ** 32)

    def cases(self, st, c):
        """the states in which c holds: a disjunction is split into disjoint cases, nested disjunctions too"""
        c = st.f.norm(c)
        if c.k == 'or' and len(c.a[0]) <= 4 and st.f.ent(c) is None:
            out = []
            pre = st
            for x in c.a[0]:
                out.extend(self.cases(pre, x))
                pre = self.assuming(pre, bnot(x))
                if pre is None:
                    break
            return out
        if c.k == 'and' and any(x.k == 'or' for x in c.a[0]):
            cur = [st]
            for x in c.a[0]:
                cur = [z for y in cur for z in self.cases(y, x)]
            return cur
        s = self.assuming(st, c)
        return [s] if s is not None else []

    def assuming(self, st, c):
        r = st.f.ent(c)
        if r is False:
            return None
        s = st.copy()
        if r is True:
            return s
        try:
            s.f.assume(c)
        except Infeasible:
            return None
        return s

    # ------------------------------------------------------------ calls
    def do_call(self, fx, b, st, t):
        fn = self.op(st, fx, t[1])
        args = [self.op(st, fx, a) for a in t[2]]
        self.argtys = [self.place_ty(fx, a[1]) if a[0] in ('cp', 'mv') else None for a in t[2]]
        dest, target, line = t[3], t[4], t[5]
        res = self.invoke(st, fx, fn, args, (fx.fr, b), self.place_ty(fx, dest), line)
        outs = []
        for s, v in res:
            if target is None:
                continue
            self.assign(s, fx, dest, v)
            outs.append((target, s))
        return outs

    def invoke(self, st, fx, fn, args, site, dty, line):
        """call a function value -> [(state, result)]"""
        W = self.W
        if fn.k != 'fn':
            if fn.k == 'zst' and W.T[fn.a[0]].get('fn'):
                fn = Fn(W.T[fn.a[0]]['fn'])
            else:
                self.note('indirect call', fx.body.path)
                return self.unknown(st, fx, '<indirect>', args, site, dty)
        key = fn.a[0]
        f = W.F.get(key)
        if f is None:
            return self.unknown(st, fx, key, args, site, dty)
        h = self.hooks.get(f['path'])
        if h is not None:
            h(self, st, fx, f, args, line)
        m = self.special.get(f['path']) or (self.models.lookup(f) if self.models else None)
        if m is not None:
            try:
                r = m(self, st, fx, f, args, site, dty, line)
            except Infeasible:
                return []
            except Dead:
                return []
            if r is not None:
                if isinstance(r, Obj):
                    return [(st, r)]
                return r
        if 'blocks' not in f:
            c = self.ctor(f, args, dty)
            if c is not None:
                return [(st, c)]
        if f['kind'] == 'virtual' or f['kind'] == 'intrinsic' or 'blocks' not in f:
            return self.unknown(st, fx, f['path'], args, site, dty)
        if f['crate'] not in ('bvh_anim', 'bvh_roots') and not self.models.enter(f):
            return self.unknown(st, fx, f['path'], args, site, dty)
        args = self.fix_args(st, f, args)
        if any(k == key for k in self.stack) and self.stack.count(key) > 2:
            self.note('recursion', f['path'])
            return self.unknown(st, fx, f['path'], args, site, dty)
        self.stack.append(key)
        try:
            return self.call_fn(st, key, args, frame_obj(site[0], site[1:], key), fx.chain)
        finally:
            self.stack.pop()

    def ctor(self, f, args, dty):
        """tuple-struct and tuple-variant constructors used as functions"""
        if dty is None:
            return None
        t = self.W.T[dty]
        if t['k'] == 'struct' and f['path'] == t['def']:
            return Struct(dty, args)
        if t['k'] == 'enum':
            for i, v in enumerate(t['v']):
                if f['path'].rsplit('::', 1)[-1] == v['n'].split('::')[-1] and len(v['f']) == len(args) and \
                        (f['path'].rsplit('::', 1)[0] == t['def'] or f['path'].startswith(t['def'])):
                    return self.W.mkenum(dty, i, args)
        return None

    def fix_args(self, st, f, args):
        n = f['argc']
        if f.get('closure') is not None and len(args) == 2:
            t = args[1]
            if t.k == 'sym':
                t = self.W.expand(t)
            if t.k == 'agg' and n != 2 or (t.k == 'agg' and self.W.T[t.a[0]]['k'] == 'tuple' and f['closure'] is not None):
                fs = list(t.a[2][0][1])
                # by-value closure receivers of FnOnce calls are passed by reference to the body
                return [args[0]] + fs
        return args

    def call_closure(self, st, fx, clo, args, site, dty, line, by='mut'):
        """call closure value/ref with positional args (used by models)"""
        W = self.W
        c = clo
        if c.k in ('ref', 'sref'):
            c = self.deref(st, c)
        if c.k == 'fn':
            return self.invoke(st, fx, c, args, site, dty, line)
        if c.k == 'zst' and W.T[c.a[0]].get('fn'):
            return self.invoke(st, fx, Fn(W.T[c.a[0]]['fn']), args, site, dty, line)
        if c.k == 'agg' and isinstance(c.a[0], int) and W.T[c.a[0]]['k'] == 'closure':
            key = self.closure_body(c.a[0])
            if key is not None:
                body = W.F[key]
                t1 = W.T[body['locals'][1]]
                if t1['k'] in ('ref', 'ptr'):
                    if clo.k == 'ref':
                        recv = clo
                    else:
                        o = OBJ('t', site, 'clo')
                        st.mem[o] = clo
                        recv = Ref(o)
                else:
                    recv = c
                self.stack.append(key)
                try:
                    return self.call_fn(st, key, [recv] + list(args), frame_obj(site[0], site[1:], key), fx.chain)
                finally:
                    self.stack.pop()
        self.note('unknown closure', fx.body.path)
        return self.unknown(st, fx, '<closure>', list(args), site, dty)

    def closure_body(self, ty):
        m = getattr(self, '_clob', None)
        if m is None:
            m = {}
            for k, f in self.W.F.items():
                if f.get('closure') is not None and 'blocks' in f and f['kind'] == 'item':
                    m[f['closure']] = k
            self._clob = m
        return m.get(ty)

    def unknown(self, st, fx, name, args, site, dty):
        """a call with no body and no transfer function: any result, and anything reachable through a mutable
        reference may change"""
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        tys = getattr(self, 'argtys', [])
        for i, a in enumerate(args):
            ty = tys[i] if i < len(tys) else None
            if ty is not None and not self.ty_has_mut(ty):
                continue
            self.havoc_val(st, a, ('unk', site, i))
        return [(st, self.fresh(('unk', site), dty) if dty is not None else TOP)]

    def ty_has_mut(self, ty, depth=0):
        t = self.W.T[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['mut']
        if depth > 5:
            return True
        if t['k'] in ('struct', 'tuple', 'closure', 'enum'):
            n = len(t['v']) if 'v' in t else 1
            return any(self.ty_has_mut(x, depth + 1) for v in range(n) for x in self.W.field_tys(ty, v))
        return False

    def havoc_val(self, st, a, idk):
        # references to symbolic or local data: contents become unknown (shared references too: interior
        # mutability is not used by this crate, so only exclusively reachable objects matter)
        a = st.f.norm(a)
        if a.k == 'ref':
            v = self.read(st, a.a[0], a.a[1])
            self.write(st, a.a[0], a.a[1], self.havoc_like(v, idk))
        elif a.k == 'agg':
            for vi, fs in a.a[2]:
                for j, x in enumerate(fs):
                    self.havoc_val(st, x, (idk, vi, j))

    def havoc_like(self, v, idk):
        if v.k == 'lin':
            return lin_atom(('s', idk), 0, U64MAX)
        if is_bool(v):
            return batom(('s', idk))
        if v.k == 'fl':
            return fl(('s', idk))
        if v.k == 'seq':
            return SeqOp(idk, v.a[2], lin_atom(('len', idk), 0, 2 ** 63 - 1))
        if v.k == 'sym':
            return self.W.symval(idk, v.a[1])
        if v.k == 'agg':
            if isinstance(v.a[0], int) and v.a[0] >= 0:
                if self.W.T[v.a[0]]['k'] == 'struct' or self.W.T[v.a[0]]['k'] in ('tuple', 'closure'):
                    return Agg(v.a[0], v.a[1], tuple((vi, tuple(self.havoc_like(x, (idk, j)) for j, x in enumerate(fs)))
                                                     for vi, fs in v.a[2]))
                return self.W.symval(idk, v.a[0])
            return TOP
        if v.k in ('ref', 'sref', 'fn', 'zst'):
            return v
        return TOP
