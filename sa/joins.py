"""Merging of states and loop fixpoints (mixin for Interp)."""
import math
from fractions import Fraction
from .terms import *
from .terms import _TRUSTED
from .interp_base import St, Giveup, U64MAX


_OBJS = {}


def objs(v):
    """the objects a value mentions"""
    r = _OBJS.get(v)
    if r is None:
        out = set()
        if v.k == 'obj':
            out.add(v)
        work = list(v.a)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                work.extend(x)
            elif hasattr(x, 'uid'):
                out |= objs(x)
        r = _OBJS[v] = frozenset(out)
    return r


class Restart(Exception):
    pass


def root_tag(key):
    """root tag of an atom key's identifier: ('s', (( ('c',..), 'f', 'x'), ...)) -> 'c'"""
    x = key
    while isinstance(x, tuple) and x:
        if isinstance(x[0], tuple):
            x = x[0]
        elif isinstance(x[0], Obj):
            return x[0].k
        else:
            return x[0]
    return x.k if isinstance(x, Obj) else x


DERIVED = ('mono', 'div', 'wrap', 'bit', 'trunc', 'b2i', 'f2i', 'hv', 'fn', 'tok', 'fcmp', 'cmp', 'min', 'max', 'tlen')


def base_items(v):
    """the base unknowns a value depends on (derived ones are given by their parts)"""
    out = set()
    for x in atoms_of(v):
        if x.k == 'atom':
            if x is IDX:
                continue
            key = x.a[0]
            if key[0] in DERIVED:
                continue
            if key[0] in ('s', 'len'):
                if root_tag(key[1]) == 'el':
                    continue
            out.add(x)
        elif x.k == 'ba':
            key = x.a[0]
            if isinstance(key, tuple):
                if key[0] in DERIVED:
                    continue
                if key[0] == 's' and root_tag(key[1]) == 'el':
                    continue
            out.add(x)
        elif x.k == 'op':
            if root_tag((x.a[0],)) == 'el':
                continue
            out.add(x)
        elif x.k in ('sym', 'fl'):
            if x.k == 'fl':
                key = x.a[0]
                if key[0] in ('fop', 'fneg', 'i2f', 'f2f', 'bits', 'c', 'fn', 'secs', 'parse'):
                    continue
                if key[0] == 's' and root_tag(key[1]) == 'el':
                    continue
            elif root_tag((x.a[0],)) == 'el':
                continue
            out.add(x)
        elif x.k == 'obj':
            if x.a[0] == 'so':
                if root_tag((x.a[1],)) == 'el':
                    continue
                out.add(x)
    return out


class Joins:
    # -------------------------------------------------------- control keys
    def shape(self, v, f):
        s = v._sh
        if s is not None:
            return s[0]
        r, fin = self._shape(v, f)
        if fin:
            v._sh = (r,)
        return r

    def _shape(self, v, f):
        k = v.k
        if k == 'b':
            return v.a[0], True
        if k in ('ge', 'eq', 'ne', 'ba', 'not', 'and', 'or'):
            return None, False
        if k == 'agg':
            d = v.a[1]
            fin = True
            if d.a[1]:
                d = f.norm(d)
                fin = False
            parts = []
            dv = cval(d)
            enum = self.is_enum(v.a[0])
            vi0 = self.W.variant_of(v.a[0], dv) if enum and dv is not None else None
            for vi, fs in v.a[2]:
                if enum and dv is not None and vi != vi0:
                    continue
                for i, x in enumerate(fs):
                    if x._sh is not None:
                        q = x._sh[0]
                    else:
                        q, fi = self._shape(x, f)
                        if fi:
                            x._sh = (q,)
                        else:
                            fin = False
                    if q is not None:
                        parts.append((vi, i, q))
            if enum:
                return (dv, tuple(parts)), fin
            return (tuple(parts) if parts else None), fin
        if k == 'ref':
            if v.a[0].a[0] == 'so':
                return None, True
            return ('r', v.a[0].uid, tuple(e[:1] if e[0] == 'i' else e for e in v.a[1])), True
        if k == 'sref':
            if v.a[0].a[0] == 'so':
                return None, True
            return ('r', v.a[0].uid), True
        if k == 'fn':
            return ('fn', v.a[0]), True
        return None, True

    def key(self, st, level=0):
        if level >= 2:
            return ()
        out = []
        for o, v in st.mem.items():
            q = v._sh[0] if v._sh is not None else self.shape(v, st.f)
            if q is not None:
                if level == 1 and isinstance(q, bool):
                    continue
                out.append((o.uid, q))
        for o in self.keyed:
            v = st.f.norm(st.mem[o]) if o in st.mem else TOP
            c = cval(v) if v.k == 'lin' else v.a[0] if v.k == 'b' else None
            if c is not None:
                out.append((o.uid, c))
        out.sort(key=lambda p: p[0])
        return tuple(out)

    def trim(self, st, fx, b):
        if fx is None or b < 0:
            return
        body = fx.body
        li = body.live_in[b]
        held = []
        for i in range(len(body.locals)):
            if i not in li and i != 0:
                o = OBJ('l', fx.fr, i)
                if i not in body.addr:
                    st.mem.pop(o, None)
                elif o in st.mem:
                    held.append(o)
        if held:        # an address has been taken: dropped if nothing that is kept refers to it
            held = set(held)
            work = [v for o, v in st.mem.items() if o not in held]
            while work and held:
                for o in objs(work.pop()):
                    if o in held:
                        held.discard(o)
                        work.append(st.mem[o])
            for o in held:
                del st.mem[o]

    def dedupe(self, ss):
        seen = {}
        for s in ss:
            k = (frozenset(s.mem.items()), s.f.key())
            if k not in seen:
                seen[k] = s
        return list(seen.values())

    def merge(self, ss, tag, fx, b):
        if len(ss) <= 1:
            return ss
        for s in ss:
            self.trim(s, fx, b)
        ss = self.dedupe(ss)
        if len(ss) <= 1:
            return ss
        for level in (0, 1, 2):
            groups = {}
            for s in ss:
                groups.setdefault(self.key(s, level), []).append(s)
            if len(groups) <= self.MAXK:
                break
        out = []
        for n, (k, g) in enumerate(groups.items()):
            if len(g) <= self.MAXG:
                out.extend(g)
            else:
                out.append(self.generalize(('m', tag, n), g, None, None, 0)[0])
        return out

    # -------------------------------------------------------- loops
    def loop(self, fx, h, entry):
        pj = self.watch.get('prejoin')
        for s in entry:
            self.trim(s, fx, h)
            if pj:
                pj(self, s)
        blocks = fx.body.loops[h]

        def run(states):
            exits = self.region(fx, blocks, h, states, header=h)
            backs = exits.pop(h, [])
            for s in backs:
                self.trim(s, fx, h)
                if pj:
                    pj(self, s)
            return exits, backs
        return self.solve(('h', fx.fr, h), entry, run, fx)

    def pyloop(self, tag, entry, step, fx):
        """loop whose body is a transfer function: step(state) -> (exits [(state, payload)], backs [state])"""
        def run(states):
            ex, bk = [], []
            for s in states:
                try:
                    e, b = step(s)
                except (Infeasible, Dead):
                    continue
                ex.extend(e)
                bk.extend(b)
            return ex, bk
        return self.solve(('p', tag), entry, run, fx)

    def solve(self, tag, entry, run, fx):
        entry = self.dedupe(entry)
        saved_hints = self.hints.get(tag)
        # the inner loop of a loop starts with the pattern widths its last solution had
        if not self.nest:
            self.past = {}
        self.nest += 1
        try:
            self.hints[tag] = dict(self.past.get(tag, ()))
            return self.solve2(tag, entry, run, fx, saved_hints)
        finally:
            self.nest -= 1

    def solve2(self, tag, entry, run, fx, saved_hints):
        level = 0
        outer_log, outer_rets = self.log, fx.rets
        r = None
        for attempt in range(40):
            try:
                r = self._solve(tag, entry, run, fx, self.hints[tag], level)
                break
            except Restart as e:
                self.log, fx.rets = outer_log, outer_rets
                if e.args and e.args[0] == 'keys':
                    level += 1
                    self.coarse = max(self.coarse, level)
        else:
            raise Giveup('loop restarts in ' + fx.body.path)
        self.past[tag] = dict(self.hints[tag])
        if saved_hints is None:
            self.hints.pop(tag, None)
        else:
            self.hints[tag] = saved_hints
        return r

    def _solve(self, tag, entry, run, fx, hints, level):
        allowed = set()
        for s in entry:
            for o, v in s.mem.items():
                allowed |= base_items(v)
                allowed |= base_items(o)
            for a, v in s.f.sub.items():
                allowed |= base_items(of_atom(a)) if a.k == 'atom' else base_items(a)
                allowed |= base_items(v)
            for g in s.f.ge:
                allowed |= base_items(g)
            for g in s.f.ba:
                allowed |= base_items(g)

        def keyof(s):
            return self.key(s, level)
        E = {}
        for s in entry:
            E.setdefault(keyof(s), []).append(s)
        names = {}
        J = {}
        dropped = {}
        outer_log, outer_rets = self.log, fx.rets
        B_ = {}
        exits = {}
        parts = {}      # per key: template, log, returns, exits, states that come back
        for it in range(self.MAXITER * 4):
            if it >= self.MAXITER and len(J) < it // 2:
                break
            ins = {}
            for src in (E, B_):
                for k, l in src.items():
                    ins.setdefault(k, []).extend(l)
            if len(ins) > 40 and level < 2:
                raise Restart('keys')
            changed = False
            fresh = {}
            nJ = {}
            self.restart = False
            for k, l in ins.items():
                n = names.setdefault(k, len(names))
                prior = J.get(k)
                t, c = self.generalize(tag + (n,), l, prior, allowed, it, dropped.setdefault(k, set()), hints)
                fresh[k] = c or prior is None
                changed = changed or fresh[k]
                nJ[k] = t
            if self.restart:        # some pattern was too narrow: again from the start with wider ones
                self.restart = False
                raise Restart()
            J = nJ
            if not changed:
                outer_log.extend(self.log)
                outer_rets.extend(fx.rets)
                self.log, fx.rets = outer_log, outer_rets
                if self.watch.get('fixpoint'):
                    self.watch['fixpoint'](self, fx, tag, J)
                return exits
            self.log, fx.rets = [], []
            try:
                if len(J) <= 4:
                    parts = {}
                    exits, backs = run([t.copy() for t in J.values()])
                else:       # only what has changed is run again
                    for k, t in J.items():
                        if k in parts and (parts[k][0] is t or not fresh[k]):
                            continue
                        self.log, fx.rets = [], []
                        x, b = run([t.copy()])
                        parts[k] = (t, self.log, fx.rets, x, b)
                    self.log, fx.rets = [], []
                    exits, backs = {}, []
                    for k in J:
                        _, lg, rt, x, b = parts[k]
                        self.log.extend(lg)
                        fx.rets.extend(rt)
                        if isinstance(x, dict):
                            for n, l in x.items():
                                exits.setdefault(n, []).extend(s.copy() for s in l)
                        else:
                            exits = (exits or []) + [(s.copy(), y) for s, y in x]
                        backs.extend(s.copy() for s in b)
            except BaseException:
                self.log, fx.rets = outer_log, outer_rets
                raise
            B_ = {}
            for s in backs:
                B_.setdefault(keyof(s), []).append(s)
        self.log, fx.rets = outer_log, outer_rets
        raise Giveup('no fixpoint in ' + fx.body.path)

    # -------------------------------------------------------- generalisation of a set of states
    def generalize(self, tag, ins, prior, allowed, it, dropped=None, hints=None):
        """-> (template state covering every incoming state, changed?)"""
        g = Gen(self, tag, ins, prior, allowed, it, dropped, hints)
        return g.run()


def coef(v, x):
    for y, c in v.a[1]:
        if y is x:
            return c
    return 0


def nullspace(rows, n):
    """integer basis of the vectors orthogonal to every row"""
    m = []
    piv = []
    for r in rows:
        r = [Fraction(x) for x in r]
        for p, q in zip(piv, m):
            if r[p]:
                k = r[p]
                r = [x - k * y for x, y in zip(r, q)]
        p = next((j for j in range(n - 1, -1, -1) if r[j]), None)
        if p is None:
            continue
        r = [x / r[p] for x in r]
        for t, q in enumerate(m):
            if q[p]:
                k = q[p]
                m[t] = [x - k * y for x, y in zip(q, r)]
        m.append(r)
        piv.append(p)
    out = []
    for j in range(n):
        if j in piv:
            continue
        v = [Fraction(0)] * n
        v[j] = Fraction(1)
        for p, q in zip(piv, m):
            v[p] = -q[j]
        d = 1
        for x in v:
            d = d * x.denominator // math.gcd(d, x.denominator)
        v = [int(x * d) for x in v]
        if max(abs(x) for x in v) <= 64:
            out.append(v)
    return out


class Gen:
    def __init__(self, ip, tag, ins, prior, allowed, it, dropped, hints):
        self.ip, self.tag, self.ins, self.prior, self.allowed = ip, tag, ins, prior, allowed
        self.it = it
        self.dropped = dropped if dropped is not None else set()
        self.hints = hints if hints is not None else {}
        self.W = ip.W
        self.n = len(ins)
        self.sig = [dict() for _ in ins]
        self.newphi = []
        self.phis = {}
        self.cons_new = {}

    def ok(self, v):
        """every unknown in v means the same thing at each visit of this program point"""
        if self.allowed is None:
            return True
        for x in base_items(v):
            if x not in self.allowed and x not in self.phis:
                return False
        for x in atoms_of(v):
            if x.k == 'atom' and x.a[0][0] == 'hv' and x.a[0][1].a[0][1] == self.tag:
                return False
        return True

    def run(self):
        ins, prior, ip = self.ins, self.prior, self.ip
        locs = {}
        if prior is not None:
            for o in prior.mem:
                locs[o] = None
        for s in ins:
            for o in s.mem:
                locs[o] = None
        objs = []
        for o in locs:
            if o.a[0] == 'so':
                if self.allowed is not None and not self.ok(o):
                    continue
                objs.append(o)
            elif all(o in s.mem for s in ins) and (prior is None or o in prior.mem):
                objs.append(o)
        if prior is not None:
            for o in objs:
                t = prior.mem.get(o)
                if t is None:
                    t = ip.default(o)
                self.collect((o.uid,), t, [self.val(i, o) for i in range(self.n)], range(self.n))
        mem = {}
        for o in objs:
            t = None
            if prior is not None:
                t = prior.mem.get(o)
                if t is None:
                    t = ip.default(o)
            mem[o] = self.gen((o.uid,), t, [(i, self.val(i, o)) for i in range(self.n)])
        self.fill()
        mem = self.compress(mem)
        st = St(mem)
        cands = self.facts(st)
        changed = True
        if prior is not None:
            if len(mem) == len(prior.mem) and all(prior.mem.get(o) is v for o, v in mem.items()) and \
                    getattr(prior, 'cands', None) == cands:
                changed = False
        st2 = TSt(st.mem, st.f)
        st2.cands = cands
        prov = ip.prov
        for s in self.sig:
            for a, v in s.items():
                if a.k == 'atom' and isinstance(v, Obj) and v.k == 'lin':
                    prov.setdefault(a, set()).add(v)
        return st2, changed

    def fill(self):
        """a field that only some of the states have (another variant) may be taken to have any value in the others:
        where it is at a constant distance from an unknown that all states have, it keeps that distance everywhere"""
        part = [a for a in self.phis if a.k == 'atom' and a.a[0][0] == 'phi' and any(a in s for s in self.sig) and not all(a in s for s in self.sig)]
        if not part or len(part) > 64:
            return
        full = [a for a in self.phis if a.k == 'atom' and a.a[0][0] == 'phi' and all(a in s for s in self.sig)]
        fixed = None
        for a in part:
            have = [i for i, s in enumerate(self.sig) if a in s]
            cs = {cval(self.sig[i][a]) for i in have}
            if len(cs) == 1 and None not in cs:
                continue
            if fixed is None:
                fixed = [t for t in dict.fromkeys(x for s in self.ins for x in s.f.sub if x.k == 'atom' and x not in self.phis)
                         if self.ok(of_atom(t)) and not any(x in self.phis for x in base_items(of_atom(t)))]
                if len(fixed) > 64:
                    fixed = []
            for u in full + fixed:
                if ('fill', a, u) in self.dropped:
                    continue
                us = {i: self.sig[i][u] if u in self.sig[i] else self.norm(i, of_atom(u)) for i in have}
                ds = {cval(sub(self.sig[i][a], us[i])) for i in have}
                d = ds.pop() if len(ds) == 1 else None
                if d is None:
                    continue
                for i, s in enumerate(self.sig):
                    if a not in s:
                        s[a] = add(s[u] if u in s else self.norm(i, of_atom(u)), I(d))
                break

    def val(self, i, o):
        v = self.ins[i].mem.get(o)
        if v is None:
            v = self.ip.default(o)
        return v

    def norm(self, i, v):
        return self.ins[i].f.norm(v)

    # ---- phase 1: values of the unknowns the prior template introduced
    def collect(self, loc, t, vs, idx):
        k = t.k
        if k == 'lin':
            p = self.is_phi(t, loc)
            if p is not None:
                self.phis[p] = True
                for i, v in zip(idx, vs):
                    if v.k == 'lin':
                        self.sig[i][p] = self.norm(i, v)
        elif k in ('ba', 'fl', 'sym'):
            if self.phikey(t) == ('phi', self.tag, loc):
                self.phis[t] = True
                for i, v in zip(idx, vs):
                    if v.k == 'sym' and k != 'sym':
                        continue
                    self.sig[i][t] = self.norm(i, v)
        elif k == 'agg':
            p = self.is_phi(t.a[1], loc + ('d',))
            ex = []
            for i, v in zip(idx, vs):
                if v.k == 'sym':
                    v = self.W.expand(v)
                ex.append(v)
                if p is not None and v.k == 'agg':
                    self.sig[i][p] = self.norm(i, v.a[1])
            if p is not None:
                self.phis[p] = True
            for vi, fs in t.a[2]:
                for j, ft in enumerate(fs):
                    sub_i, sub_v = [], []
                    for i, v in zip(idx, ex):
                        if v.k == 'agg' and v.a[0] == t.a[0]:
                            for vj, fv in v.a[2]:
                                if vj == vi and j < len(fv):
                                    sub_i.append(i)
                                    sub_v.append(fv[j])
                    self.collect(loc + (vi, j), ft, sub_v, sub_i)
        elif k == 'ref':
            for n, e in enumerate(t.a[1]):
                if e[0] == 'i':
                    sub_i, sub_v = [], []
                    for i, v in zip(idx, vs):
                        if v.k == 'ref' and len(v.a[1]) == len(t.a[1]) and v.a[1][n][0] == 'i':
                            sub_i.append(i)
                            sub_v.append(v.a[1][n][1])
                    self.collect(loc + ('p', n), e[1], sub_v, sub_i)
        elif k == 'sref':
            for n in (2, 3):
                sub_i = [i for i, v in zip(idx, vs) if v.k == 'sref']
                sub_v = [v.a[n] for v in vs if v.k == 'sref']
                self.collect(loc + ('s', n), t.a[n], sub_v, sub_i)
        elif k == 'seq':
            ts = t.a[0]
            for n, s in enumerate(ts):
                p = self.is_phi(seglen(s), loc + ('R',)) if s.k in ('rep', 'sub') else None
                if p is not None:
                    j = len(ts) - 1 - n
                    right = any(x.k == 'summ' for x in ts[:n])
                    self.phis[p] = True
                    for i, v in zip(idx, vs):
                        if v.k != 'seq':
                            continue
                        r = self.norm(i, v).a[0]
                        q = len(r) - 1 - j if right else n
                        if 0 <= q < len(r) and r[q].k == s.k and r[q].a[0] is s.a[0]:
                            self.sig[i][p] = seglen(r[q])
                        else:
                            self.sig[i][p] = ZERO
                p = self.is_phi(s.a[1], loc + ('A',)) if s.k == 'sub' else None
                if p is not None:
                    self.phis[p] = True
                    for i, v in zip(idx, vs):
                        r = self.norm(i, v).a[0] if v.k == 'seq' else ()
                        q = n if len(r) > n and r[n].k == 'sub' and r[n].a[0] is s.a[0] else None
                        self.sig[i][p] = r[q].a[1] if q is not None else ZERO
            for n, s in enumerate(ts):
                p = self.is_phi(seglen(s), loc + ('L',)) if s.k == 'summ' else None
                if p is not None and sub(t.a[1], of_atom(p)).a[1] and p in atoms_of(sub(t.a[1], of_atom(p))) or \
                        p is not None and not any(a is p for a, _ in t.a[1].a[1]):
                    j = len(ts) - 1 - n
                    self.phis[p] = True
                    for i, v in zip(idx, vs):
                        if v.k == 'seq':
                            q = ZERO
                            r = self.norm(i, v).a[0]
                            for x in r[n:max(n, len(r) - j)]:
                                q = add(q, seglen(x))
                            self.sig[i][p] = self.norm(i, q)
            p = None
            for a, c in t.a[1].a[1]:
                if self.is_phi(of_atom(a), loc + ('L',)) is not None:
                    p = a
            if p is not None:
                rest = sub(t.a[1], of_atom(p))
                self.phis[p] = True
                for i, v in zip(idx, vs):
                    if v.k == 'seq':
                        self.sig[i][p] = ('len', v.a[1], rest)
        # resolve postponed lengths
        for i in idx:
            for p, v in list(self.sig[i].items()):
                if isinstance(v, tuple):
                    r = subst(v[2], {q: w for q, w in self.sig[i].items() if not isinstance(w, tuple)})
                    self.sig[i][p] = self.norm(i, sub(v[1], r))

    def phikey(self, t):
        if t.k in ('ba', 'fl', 'sym'):
            return t.a[0]
        return None

    def is_phi(self, t, loc):
        if t.k == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            a = t.a[1][0][0]
            if a.a[0] == ('phi', self.tag, loc):
                return a
        return None

    # ---- phase 2
    def matches(self, t, i, v):
        s = subst(t, self.sig[i])
        if s is v:
            return True
        s, v = self.norm(i, s), self.norm(i, v)
        if s is v:
            return True
        if s.k == 'lin' and v.k == 'lin':
            return self.ins[i].f.ent(eq0(sub(s, v))) is True
        if is_bool(s) and is_bool(v):
            a, b = self.ins[i].f.ent(s), self.ins[i].f.ent(v)
            return a is not None and a == b
        if s.k == 'seq' and v.k == 'seq':
            return self.ip.seq_eq(self.ins[i], s, v) is True
        return False

    def phi_lin(self, loc, ivs):
        a = atom(('phi', self.tag, loc))
        if a not in self.phis:
            self.phis[a] = True
            self.newphi.append(a)
        for i, v in ivs:
            self.sig[i][a] = self.norm(i, v)
        return of_atom(a)

    def gen(self, loc, t, ivs):
        if not ivs:
            return t if t is not None else TOP
        if t is not None and t is not TOP:
            if all(self.matches(t, i, v) for i, v in ivs):
                return t
        if t is TOP:
            return TOP
        v0 = ivs[0][1]
        if t is None and all(v is v0 for _, v in ivs):
            if self.allowed is None or self.ok(v0):
                return v0
        vs = [v for _, v in ivs]
        ks = set(v.k for v in vs)
        if t is not None:
            ks.add(t.k)
        if 'top' in ks:
            return TOP
        if ks == {'lin'}:
            if t is None or not self.is_phi(t, loc):
                # all incoming equal under their own facts?
                if t is None:
                    tried = set()
                    for j, w in ivs:
                        n0 = self.norm(j, w)
                        if n0 in tried:
                            continue
                        tried.add(n0)
                        if self.ok(n0) and all(self.ins[i].f.ent(eq0(sub(n0, v))) is True for i, v in ivs):
                            return n0
                        if len(tried) > 4:
                            break
            return self.phi_lin(loc, ivs)
        if all(is_bool(v) for v in vs) and (t is None or is_bool(t)):
            cs = [self.ins[i].f.ent(v) for i, v in ivs]
            if t is None and cs[0] is not None and all(c is cs[0] for c in cs):
                return B(cs[0])
            a = batom(('phi', self.tag, loc))
            self.phis[a] = True
            for i, v in ivs:
                self.sig[i][a] = self.norm(i, v)
            return a
        if ks <= {'fl'}:
            a = fl(('phi', self.tag, loc))
            self.phis[a] = True
            for i, v in ivs:
                self.sig[i][a] = self.norm(i, v)
            return a
        if ks <= {'agg', 'sym'}:
            return self.gen_agg(loc, t, ivs)
        if ks <= {'seq'}:
            return self.gen_seq(loc, t, ivs)
        if ks <= {'ref'}:
            r0 = v0
            if t is None or True:
                if all(v.a[0] is r0.a[0] and len(v.a[1]) == len(r0.a[1]) and
                       all(x[0] == y[0] and (x[0] == 'i' or x == y) for x, y in zip(v.a[1], r0.a[1])) for v in vs) and \
                        (self.allowed is None or self.ok(r0.a[0])):
                    path = []
                    for n, e in enumerate(r0.a[1]):
                        if e[0] == 'i':
                            tt = None
                            if t is not None and t.k == 'ref' and len(t.a[1]) == len(r0.a[1]) and t.a[1][n][0] == 'i':
                                tt = t.a[1][n][1]
                            path.append(('i', self.gen(loc + ('p', n), tt, [(i, v.a[1][n][1]) for i, v in ivs])))
                        else:
                            path.append(e)
                    return Ref(r0.a[0], tuple(path))
            objs = [v.a[0] for v in vs]
            tys = set(self.W.objty.get(o) for o in objs)
            if all(o.a[0] == 'so' for o in objs) and all(not v.a[1] for v in vs) and len(tys) == 1 and None not in tys:
                o = OBJ('so', ('phi', self.tag, loc))
                self.W.objty[o] = tys.pop()
                return Ref(o)
            return TOP
        if ks <= {'sref'}:
            same = all(v.a[0] is v0.a[0] and v.a[1] == v0.a[1] for v in vs)
            tt = t if t is not None and t.k == 'sref' else None
            if same and (tt is None or tt.a[0] is v0.a[0]) and (self.allowed is None or (self.ok(v0.a[0]) and self.ok(v0.a[1]))):
                s = self.gen(loc + ('s', 2), tt.a[2] if tt else None, [(i, v.a[2]) for i, v in ivs])
                n = self.gen(loc + ('s', 3), tt.a[3] if tt else None, [(i, v.a[3]) for i, v in ivs])
                return SRef(v0.a[0], v0.a[1], s, n)
            if all(v.a[0].a[0] in ('so', 'k') for v in vs):
                ety = None
                for i, v in ivs:
                    q = self.ip.read(self.ins[i], v.a[0], v.a[1])
                    if q.k == 'seq':
                        ety = q.a[2]
                o = OBJ('so', ('phi', self.tag, loc))
                if ety is not None:
                    for ti, tt_ in enumerate(self.W.T):
                        if tt_['k'] == 'slice' and tt_['e'] == ety:
                            self.W.objty[o] = ti
                            break
                n = self.gen(loc + ('s', 3), tt.a[3] if tt else None, [(i, v.a[3]) for i, v in ivs])
                return SRef(o, (), ZERO, n)
            return TOP
        if len(ks) == 1 and 'fn' in ks and all(v is v0 for v in vs):
            return v0
        if len(ks) == 1 and 'zst' in ks:
            return v0
        return TOP

    def gen_agg(self, loc, t, ivs):
        W = self.W
        ex = [(i, W.expand(v)) for i, v in ivs]
        tt = W.expand(t) if t is not None else None
        if any(v.k != 'agg' for _, v in ex) or (tt is not None and tt.k != 'agg'):
            # same opaque type on every side: an unknown of that type
            tys = set(v.a[1] if v.k == 'sym' else v.a[0] for _, v in ivs)
            if t is not None:
                tys.add(t.a[1] if t.k == 'sym' else t.a[0])
            if len(tys) == 1:
                ty = tys.pop()
                if isinstance(ty, int) and not self.has_mut(ty):
                    r = Sym(('phi', self.tag, loc), ty)
                    self.phis[r] = True
                    for i, v in ivs:
                        self.sig[i][r] = v
                    return r
            return TOP
        ty = ex[0][1].a[0]
        if any(v.a[0] != ty for _, v in ex) or (tt is not None and tt.a[0] != ty):
            return TOP
        d = self.gen(loc + ('d',), tt.a[1] if tt is not None else None, [(i, v.a[1]) for i, v in ex])
        vids = []
        for _, v in ex:
            for vi, _f in v.a[2]:
                if vi not in vids:
                    vids.append(vi)
        if tt is not None:
            for vi, _f in tt.a[2]:
                if vi not in vids:
                    vids.append(vi)
        enum = self.ip.is_enum(ty)
        out = []
        for vi in sorted(vids):
            tf = None
            if tt is not None:
                for vj, f in tt.a[2]:
                    if vj == vi:
                        tf = f
            have = []
            for i, v in ex:
                for vj, f in v.a[2]:
                    if vj == vi:
                        if enum and self.ins[i].f.ent(eq0(sub(v.a[1], I(W.sdisc(ty, vi))))) is False:
                            continue
                        have.append((i, f))
            if not have:
                if tf is not None:
                    out.append((vi, tf))
                continue
            nf = len(have[0][1])
            fs = []
            for j in range(nf):
                fs.append(self.gen(loc + (vi, j), tf[j] if tf is not None else None, [(i, f[j]) for i, f in have]))
            out.append((vi, tuple(fs)))
        return Agg(ty, d, tuple(out))

    def has_mut(self, ty, depth=0):
        t = self.W.T[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['mut'] or self.has_mut(t['e'], depth + 1)
        if depth > 6:
            return False
        return any(self.has_mut(x, depth + 1) for x in self.W.field_tys(ty)) if t['k'] in ('struct', 'tuple', 'closure') else False

    # ---- sequences
    def gen_seq(self, loc, t, ivs):
        ety = ivs[0][1].a[2]
        ip = self.ip
        if t is not None and len(t.a[0]) == 1 and t.a[0][0].k == 'sub' and \
                t.a[0][0].a[0].a[0] == ('phi', self.tag, loc):
            return t
        ropes = [(i, [x for x in self.norm(i, v).a[0] if seglen(x) is not ZERO]) for i, v in ivs]
        for i, r in ropes:
            n = 0
            while n + 1 < len(r):       # neighbouring parts of one source, known to be neighbours by an inequality pair
                x, y = r[n], r[n + 1]
                if x.k == 'sub' and y.k == 'sub' and x.a[0] is y.a[0] and \
                        self.ins[i].f.ent(eq0(sub(add(x.a[1], x.a[2]), y.a[1]))) is True:
                    r[n:n + 2] = [mk('sub', x.a[0], x.a[1], add(x.a[2], y.a[2]))]
                else:
                    n += 1
        tsegs = list(t.a[0]) if t is not None else None
        # common prefix
        P = []
        S = []
        si = None
        if tsegs is not None:
            for n, s in enumerate(tsegs):
                if s.k == 'summ' and s.a[3] == (self.tag, loc):
                    si = n
        summ = None
        if si is not None:
            P, summ, S = tsegs[:si], tsegs[si], tsegs[si + 1:]
            for i, r in ropes:
                tm = [self.norm(i, subst(x, self.sig[i])) for x in P] + [summ] + [self.norm(i, subst(x, self.sig[i])) for x in S]
                self.align([(i, r), (i, tm)], False)
        else:
            if self.align(ropes):
                tsegs = None
            base = tsegs if tsegs is not None else ropes[0][1]
            others = ropes if tsegs is not None else ropes[1:]
            n = 0
            while n < len(base) and all(n < len(r) and self.segsame(base[n], i, r[n]) for i, r in others) and \
                    (self.allowed is None or self.ok(base[n])):
                P.append(base[n])
                n += 1
            m = 0
            while m < len(base) - n and all(m < len(r) - n and self.segsame(base[-1 - m], i, r[-1 - m]) for i, r in others) and \
                    (self.allowed is None or self.ok(base[-1 - m])):
                S.insert(0, base[-1 - m])
                m += 1
        mids = []
        good = True
        for i, r in ropes:
            k = len(P)
            if len(r) < k + len(S) or not all(self.segsame(P[x], i, r[x]) for x in range(k)) or \
                    not all(self.segsame(S[-1 - x], i, r[-1 - x]) for x in range(len(S))):
                # the same content may be cut differently
                good = False
                break
            mids.append((i, r[k:len(r) - len(S)]))
        if not good:
            return self.opq(loc, ivs, ety)
        if summ is None and t is not None and tsegs is not None:
            mt = tsegs[len(P):len(tsegs) - len(S)]
            if mt:
                # a prior middle that is not yet a summary: it has to be covered as well; its elements are
                # among the incoming ones already (entry states are always part of `ivs`)
                pass
        pat = summ.a[0] if summ is not None else None
        cons = list(summ.a[1]) if summ is not None else None
        if summ is None:
            sp = self.split_rest(loc, mids)
            if sp is not None:
                mids, left, right = sp
                P, S = P + left, right + S
                if not any(m for _, m in mids):
                    return ip.mkseq(tuple(P) + tuple(S), ety)
        r = self.gen_pat(loc, pat, cons, mids, ety)
        if r is None:
            return self.opq(loc, ivs, ety)
        pat, cons = r
        L = None
        lens = []
        for i, m in mids:
            q = ZERO
            for s in m:
                q = add(q, seglen(s))
            lens.append((i, q))
        L = self.gen(loc + ('L',), summ.a[2] if summ is not None else None, lens)
        segs = tuple(P) + (mk('summ', pat, tuple(cons), L, (self.tag, loc)),) + tuple(S)
        return ip.mkseq(segs, ety)

    def align(self, ropes, check=True):
        """the same source cut at different places: cut every rope where another one has something inserted"""
        cuts = {}
        for i, r in ropes:
            for n, s in enumerate(r):
                if s.k == 'sub':
                    if n + 1 < len(r):
                        cuts.setdefault(s.a[0], []).append(add(s.a[1], s.a[2]))
                    if n:
                        cuts.setdefault(s.a[0], []).append(s.a[1])
        done = False
        for i, r in ropes:
            f = self.ins[i].f
            n = 0
            while n < len(r):
                s = r[n]
                if s.k == 'sub':
                    a, e = s.a[1], add(s.a[1], s.a[2])
                    for c in cuts.get(s.a[0], ()):
                        if c is a or c is e or (check and self.allowed is not None and not self.ok(c)):
                            continue
                        c = f.norm(c)
                        if f.ent(eq0(sub(c, a))) or f.ent(eq0(sub(e, c))):
                            continue
                        if f.ent_ge(sub(c, a)) and f.ent_ge(sub(e, c)):
                            r[n:n + 1] = [mk('sub', s.a[0], a, sub(c, a)), mk('sub', s.a[0], c, sub(e, c))]
                            done = True
                            break
                n += 1
        return done

    def split_rest(self, loc, mids):
        """a part of the middle that shrinks from one end: (middles without it, [left rest], [right rest])"""
        grow = any(not m for _, m in mids)      # not there at first: a part of one source that grows from nothing
        if ('rest', loc) in self.dropped or not any(m for _, m in mids):
            return None
        grow = grow or len(mids) < 2
        for side in ((0,) if grow else (-1, 0)):
            r = [(i, m[side]) for i, m in mids if m]
            s0 = r[0][1]
            if grow and s0.k != 'sub':
                continue
            if s0.k == 'rep' and all(s.k == 'rep' and (s.a[0] is s0.a[0] or
                                     self.norm(i, s.a[0]) is self.norm(r[0][0], s0.a[0])) for i, s in r):
                if not self.ok(s0.a[0]):
                    continue
                ln = self.gen(loc + ('R',), None, [(i, seglen(s)) for i, s in r])
                seg = mk('rep', s0.a[0], ln)
            elif s0.k == 'sub' and all(s.k == 'sub' and s.a[0] is s0.a[0] for i, s in r) and self.ok(s0.a[0]):
                if side == -1:
                    fix = [(i, add(s.a[1], s.a[2])) for i, s in r]
                else:
                    fix = [(i, s.a[1]) for i, s in r]
                f0 = self.norm(*fix[0])
                if not self.ok(f0) or not all(self.ins[i].f.ent(eq0(sub(f0, v))) is True for i, v in fix):
                    continue
                ln = self.gen(loc + ('R',), None, [(i, seglen(m[side]) if m else ZERO) for i, m in mids])
                seg = mk('sub', s0.a[0], sub(f0, ln) if side == -1 else f0, ln)
            else:
                continue
            if side == -1:
                return [(i, m[:-1]) for i, m in mids], [], [seg]
            return [(i, m[1:]) for i, m in mids], [seg], []
        if all(len(m) == 1 and m[0].k == 'sub' and m[0].a[0] is mids[0][1][0].a[0] for i, m in mids) and self.ok(mids[0][1][0].a[0]):
            # a window into one source
            a = self.gen(loc + ('A',), None, [(i, m[0].a[1]) for i, m in mids])
            n = self.gen(loc + ('R',), None, [(i, seglen(m[0])) for i, m in mids])
            return [(i, []) for i, m in mids], [mk('sub', mids[0][1][0].a[0], a, n)], []
        return None

    def segsame(self, s, i, r):
        if s is r:
            return True
        x = self.norm(i, subst(s, self.sig[i]))
        return x is self.norm(i, r)

    def opq(self, loc, ivs, ety):
        L = self.gen(loc + ('len',), None, [(i, v.a[1]) for i, v in ivs])
        return SeqOp(('phi', self.tag, loc), ety, L)

    def gen_pat(self, loc, pat, cons, mids, ety):
        """pattern covering every element of the given middle parts"""
        W = self.W
        items = []    # (i, index, value, facts)
        for i, m in mids:
            pos = ZERO
            for s in m:
                if s.k == 'lit':
                    for n, v in enumerate(s.a[0]):
                        items.append((i, add(pos, I(n)), v, ()))
                elif s.k == 'rep':
                    items.append((i, add(pos, IDXL), s.a[0], ()))
                elif s.k == 'summ':
                    items.append((i, add(pos, IDXL), s.a[0], s.a[1]))
                elif s.k == 'sub':
                    ev = W.symval(mk('el', s.a[0], add(s.a[1], IDXL)), ety)
                    items.append((i, add(pos, IDXL), ev, ()))
                else:
                    if W.T[ety]['k'] == 'uint':
                        h = lin_atom(('hole', self.tag, loc + ('e',)), 0, 255)
                        return h, []
                    return None
                pos = add(pos, seglen(s))
        self.holes = {}
        p = self.pat(loc + ('e',), pat, [(n, v) for n, (_, _, v, _) in enumerate(items)], items)
        if p is None:
            return None
        # constraints: candidates over holes and the index, kept when every element satisfies them
        cand = []
        if cons:
            cand.extend(cons)
        hs = [h for h in self.holes if h.k == 'atom']
        for h in hs:
            hl = of_atom(h)
            for g in (ge0(hl), ge0(sub(IDXL, hl)), ge0(sub(sub(IDXL, hl), ONE))):
                if g not in cand and (('cons', g) not in self.dropped):
                    cand.append(g)
        keep = []
        for g in cand:
            good = True
            for n, (i, e, v, fc) in enumerate(items):
                m = dict(self.sig[i])
                m[IDX] = e
                for h, vals in self.holes.items():
                    if n in vals:
                        m[h] = vals[n]
                gi = subst(g, m)
                f = self.ins[i].f
                if fc:
                    f = f.copy()
                    try:
                        for c in fc:
                            f.assume(c)
                    except Infeasible:
                        continue
                if f.ent(gi) is not True:
                    good = False
                    break
            if good:
                keep.append(g)
            else:
                self.dropped.add(('cons', g))
        return p, keep

    def pat(self, loc, pt, vals, items):
        W = self.W
        if not vals:
            return pt
        key = ('pat', loc)
        strat = self.hints.get(key, self.ip.pat0)
        v0 = vals[0][1]
        ks = set(v.k for _, v in vals)
        if all(is_bool(v) for _, v in vals):
            ks = {'bool'}
        if ks == {'lin'}:
            if pt is not None and not (self.is_hole(pt)):
                if all(self.pmatch(pt, items[n], v) for n, v in vals):
                    return pt
                self.hints[key] = strat + 1
                self.ip.restart = True
            if pt is None:
                n, v = None, None
                if strat == 0:
                    # index plus something invariant, taken from an element at a concrete position
                    for n, v in vals:
                        c = self.norm(items[n][0], sub(v, items[n][1]))
                        if self.ok(c) and not self.uses_idx(c):
                            p = add(IDXL, c)
                            if all(self.pmatch(p, items[m], w) for m, w in vals):
                                return p
                    strat = 1
                    self.hints[key] = 1
                if strat == 1:
                    for n, v in vals:
                        c = self.norm(items[n][0], v)
                        if self.ok(c) and not self.uses_idx(c):
                            if all(self.pmatch(c, items[m], w) for m, w in vals):
                                return c
                    self.hints[key] = 2
            return self.hole(loc, vals, lambda: atom(('hole', self.tag, loc)), True)
        if ks == {'bool'}:
            if pt is not None and not self.is_hole(pt):
                if all(self.pmatch(pt, items[n], v) for n, v in vals):
                    return pt
                self.hints[key] = 2
                self.ip.restart = True
            if pt is None and strat < 2 and all(v is v0 for _, v in vals) and v0.k == 'b':
                return v0
            return self.hole(loc, vals, lambda: batom(('hole', self.tag, loc)), False)
        if ks in ({'fl'}, {'sym'}, {'seq'}) and pt is None and strat == 0:
            for n, v in vals:
                c = self.idxgen(self.norm(items[n][0], v), items[n][1])
                if c is not None and self.ok(c) and all(self.pmatch(c, items[m], w) for m, w in vals):
                    return c
        if ks == {'fl'}:
            if pt is None and strat < 2 and all(v is v0 for _, v in vals) and self.ok(v0):
                return v0
            if pt is not None and not self.is_hole(pt):
                if all(self.pmatch(pt, items[n], v) for n, v in vals):
                    return pt
                self.hints[key] = 2
                self.ip.restart = True
            return self.hole(loc, vals, lambda: fl(('hole', self.tag, loc)), False)
        if ks <= {'agg', 'sym'}:
            ex = [(n, W.expand(v)) for n, v in vals]
            tt = W.expand(pt) if pt is not None else None
            if any(v.k != 'agg' for _, v in ex) or (tt is not None and tt.k != 'agg'):
                ty = v0.a[1] if v0.k == 'sym' else v0.a[0]
                return self.hole(loc, vals, lambda: Sym(('hole', self.tag, loc), ty), False)
            ty = ex[0][1].a[0]
            if any(v.a[0] != ty for _, v in ex):
                return None
            enum = self.ip.is_enum(ty)
            if enum:
                d = self.pat_d(loc + ('d',), tt.a[1] if tt is not None else None, [(n, v.a[1]) for n, v in ex], items, ty)
            else:
                d = ZERO
            vids = sorted(set(vi for _, v in ex for vi, _f in v.a[2]) | (set(vi for vi, _f in tt.a[2]) if tt is not None else set()))
            out = []
            for vi in vids:
                tf = None
                if tt is not None:
                    for vj, f in tt.a[2]:
                        if vj == vi:
                            tf = f
                have = [(n, f) for n, v in ex for vj, f in v.a[2] if vj == vi]
                if not have:
                    out.append((vi, tf))
                    continue
                fs = []
                for j in range(len(have[0][1])):
                    q = self.pat(loc + (vi, j), tf[j] if tf is not None else None, [(n, f[j]) for n, f in have], items)
                    if q is None:
                        return None
                    fs.append(q)
                out.append((vi, tuple(fs)))
            return Agg(ty, d, tuple(out))
        if ks == {'seq'}:
            if pt is None and all(v is v0 for _, v in vals) and self.ok(v0) and strat == 0:
                return v0
            if pt is not None and not self.seq_hole(pt):
                if all(self.pmatch(pt, items[n], v) for n, v in vals):
                    return pt
                self.hints[key] = 2
                self.ip.restart = True
            ety = v0.a[2]
            h = mk('op', ('hole', self.tag, loc), ety)
            hl = self.hole(loc + ('len',), [(n, v.a[1]) for n, v in vals], lambda: atom(('hole', self.tag, loc + ('len',)), 0, 2 ** 63 - 1), True)
            return mk('seq', (mk('sub', h, ZERO, hl),), hl, ety)
        if ks == {'sref'} and all(self.whole_const(items[n][0], v) for n, v in vals) and \
                (pt is None or pt.k == 'sref' and pt.a[0].a[0] == 'k'):
            q = self.pat(loc + ('k',), pt.a[0].a[1] if pt is not None else None, [(n, v.a[0].a[1]) for n, v in vals], items)
            if q is None or q is TOP:
                return q
            return SRef(OBJ('k', q), (), ZERO, q.a[1])
        if all(v is v0 for _, v in vals) and (pt is None or pt is v0) and self.ok(v0):
            return v0
        return TOP

    def whole_const(self, i, v):
        return v.a[0].a[0] == 'k' and not v.a[1] and v.a[2] is ZERO and v.a[0].a[1].k == 'seq' and \
            self.norm(i, v.a[3]) is self.norm(i, v.a[0].a[1].a[1])

    def idxgen(self, v, e):
        """v with the element references at distance c from position e rewritten to index IDX + c"""
        els = set()

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif isinstance(x, Obj):
                if x.k == 'el' and len(x.a) == 2 and isinstance(x.a[1], Obj) and x.a[1].k == 'lin':
                    els.add(x)
                walk(x.a)
        walk(v)
        m = {}
        for x in els:
            d = sub(x.a[1], e)
            if not self.uses_idx(d):
                m[x] = mk('el', x.a[0], add(d, IDXL))
        if not m:
            return None
        r = subst(v, m)
        return r if r is not v else None

    def pat_d(self, loc, pt, vals, items, ty):
        key = ('pat', loc)
        strat = self.hints.get(key, self.ip.pat0)
        cs = [cval(self.norm(items[n][0], v)) for n, v in vals]
        dom = frozenset(self.W.sdisc(ty, x) for x in range(len(self.W.T[ty]['v'])))
        if pt is not None and cval(pt) is not None:
            if all(c == cval(pt) for c in cs):
                return pt
            self.hints[key] = 2
            self.ip.restart = True
        if pt is None and strat < 2 and cs[0] is not None and all(c == cs[0] for c in cs):
            return I(cs[0])
        return self.hole(loc, vals, lambda: atom(('hole', self.tag, loc), min(dom), max(dom), dom), True)

    def hole(self, loc, vals, mkf, islin):
        h = mkf()
        self.phis[h] = True
        self.holes[h] = dict(vals)
        return of_atom(h) if islin else h

    def is_hole(self, p):
        if p.k == 'lin' and len(p.a[1]) == 1 and p.a[0] == 0:
            return p.a[1][0][0].a[0][:2] == ('hole', self.tag)
        if p.k in ('ba', 'fl', 'sym'):
            return isinstance(p.a[0], tuple) and p.a[0][:2] == ('hole', self.tag)
        return False

    def seq_hole(self, p):
        return len(p.a[0]) == 1 and p.a[0][0].k == 'sub' and isinstance(p.a[0][0].a[0].a[0], tuple) and \
            p.a[0][0].a[0].a[0][:2] == ('hole', self.tag)

    def uses_idx(self, v):
        return IDX in atoms_of(v)

    def pmatch(self, p, item, v):
        i, e, _, fc = item
        m = dict(self.sig[i])
        m[IDX] = e
        x = subst(p, m)
        if x is v:
            return True
        f = self.ins[i].f
        if fc:
            f = f.copy()
            try:
                for c in fc:
                    f.assume(c)
            except Infeasible:
                return True
        x, v = f.norm(x), f.norm(v)
        if x is v:
            return True
        if x.k == 'lin' and v.k == 'lin':
            return f.ent(eq0(sub(x, v))) is True
        if x.k == 'seq' and v.k == 'seq':
            st = self.ins[i]
            return self.ip.seq_eq(st, x, v) is True
        return False

    # ---- affine relations between new unknowns
    def compress(self, mem):
        new = [a for a in self.newphi if all(a in s for s in self.sig)]
        if self.n < 2 or len(new) < 1:
            return mem
        all_lin = [a for a in self.phis if a.k == 'atom' and a.a[0][0] == 'phi' and all(a in s for s in self.sig)]
        ren = {}

        if self.n <= 12:
            for a in all_lin:
                vals = []
                for i in range(self.n):
                    v = self.sig[i][a]
                    if v not in vals and self.ok(v) and not any(x in self.phis for x in base_items(v)):
                        vals.append(v)
                if not 2 <= len(vals) <= 4:
                    continue
                vals.sort(key=lambda v: (-len(v.a[1]), v.uid))
                for i in range(self.n):
                    for w in vals:
                        if w is self.sig[i][a]:
                            break
                        if self.ins[i].f.ent(eq0(sub(self.sig[i][a], w))) is True:
                            self.sig[i][a] = w
                            break

        def steps(a):
            return [sub(self.sig[i][a], self.sig[0][a]) for i in range(1, self.n)]
        unit = [a for a in all_lin if all(cval(self.norm(0, d)) is not None or True for d in steps(a))]
        # preferred bases: existing unknowns, then unit steps
        def rank(a):
            d = [cval(x) for x in steps(a)]
            return (a in new, 0 if all(x in (0, 1) for x in d) else 1 if all(x is not None for x in d) else 2, a.a[0][2][-1] in ('L', 'R'), a.uid)
        bases = sorted(unit, key=rank)
        for a in new:
            if a in ren:
                continue
            for u in bases:
                if u is a or u in ren or (u in new and rank(u) > rank(a)):
                    continue
                if ('aff', a, u) in self.dropped:
                    continue
                k = None
                good = True
                for i in range(1, self.n):
                    du = sub(self.sig[i][u], self.sig[0][u])
                    da = sub(self.sig[i][a], self.sig[0][a])
                    if du is ZERO:
                        if da is not ZERO:
                            good = False
                        continue
                    q = exact_div(da, du)
                    if q is None or not self.ok(q) or (k is not None and k is not q):
                        good = False
                        break
                    k = q
                if not good or k is None:
                    continue
                if any(x in self.phis for x in base_items(k)):
                    continue
                c = sub(self.sig[0][a], mul(k, self.sig[0][u]))
                if not self.ok(c) or any(x in self.phis for x in base_items(c)):
                    continue
                if all(self.ins[i].f.ent(eq0(sub(self.sig[i][a], add(mul(k, self.sig[i][u]), c)))) is True for i in range(self.n)):
                    if self.it > 0:
                        self.dropped.add(('aff', a, u))
                    ren[a] = add(mul(k, of_atom(u)), c)
                    break
            if a not in ren and self.n > 2:
                e = self.multi(a, [u for u in bases if u is not a and u not in ren and not (u in new and rank(u) >= rank(a))])
                if e is not None:
                    if self.it > 0:
                        self.dropped.add(('affs', a, e))
                    ren[a] = e
        if ren:
            mem = {o: subst(v, ren) for o, v in mem.items()}
            for a in ren:
                self.phis.pop(a, None)
                for s in self.sig:
                    s.pop(a, None)
        return mem

    def multi(self, a, bases):
        """a as an affine combination of several counters that move at different edges"""
        S = self.sig
        zero = [b for b in bases if all(cval(sub(S[i][b], S[0][b])) is not None for i in range(1, self.n))]
        co = {}
        for i in range(1, self.n):
            mv = [b for b in zero if S[i][b] is not S[0][b]]
            da = sub(S[i][a], S[0][a])
            mv = [b for b in mv if not any(b is not c and all((S[j][b] is S[0][b]) == (S[j][c] is S[0][c]) for j in range(1, self.n))
                                           and c.uid < b.uid for c in mv)]
            if len(mv) != 1:
                if da is ZERO and not mv:
                    continue
                if not mv:
                    return None
                continue
            b = mv[0]
            q = exact_div(da, sub(S[i][b], S[0][b]))
            if q is None or not self.ok(q) or any(x in self.phis for x in base_items(q)) or (b in co and co[b] is not q):
                return None
            co[b] = q
        co = {b: q for b, q in co.items() if q is not ZERO}
        if len(co) < 2:
            return None
        e = ZERO
        for b, q in co.items():
            e = add(e, mul(q, of_atom(b)))
        c = sub(S[0][a], subst(e, S[0]))
        if not self.ok(c) or any(x in self.phis for x in base_items(c)):
            return None
        e = add(e, c)
        if ('affs', a, e) in self.dropped:
            return None
        for i in range(self.n):
            if self.ins[i].f.ent(eq0(sub(S[i][a], subst(e, S[i])))) is not True:
                return None
        return e

    # ---- phase 3
    def facts(self, st):
        ins = self.ins
        cands = {}
        prior = self.prior
        pri = getattr(prior, 'cands', None) if prior is not None else None
        if pri:
            for g in pri:
                cands[g] = None
        gen_new = prior is None or self.it <= 4
        lins = [a for a in self.phis if a.k == 'atom' and a.a[0][0] == 'phi']
        for a in lins:
            if ('new', a, self.it) in self.dropped or ('dom', a) not in self.dropped:
                gen_new = True
            if ('dom', a) not in self.dropped:
                self.dropped.update(('new', a, self.it + k) for k in range(4))
        doms = {}
        for a in lins:
            vals = [cval(s[a]) if a in s else None for s in self.sig]
            if all(v is not None for v in vals):
                doms[a] = frozenset(vals)
            else:
                ok_ = True
                acc = set()
                for i, s in enumerate(self.sig):
                    if a not in s:
                        ok_ = False
                        break
                    c = cval(s[a])
                    if c is not None:
                        acc.add(c)
                        continue
                    x = s[a]
                    if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
                        d = ins[i].f.dom.get(x.a[1][0][0], DOMS.get(x.a[1][0][0]))
                        if d is not None:
                            acc |= d
                            continue
                    ok_ = False
                    break
                if ok_:
                    doms[a] = frozenset(acc)
        was = {g[1]: g[2] for g in pri if isinstance(g, tuple)} if pri else {}
        for a in list(doms):
            if ('dom', a) in self.dropped:      # the possible values only ever become more
                if a in was:
                    doms[a] |= was[a]
                else:
                    del doms[a]
        self.dropped.update(('dom', a) for a in lins)
        for a, d in doms.items():
            if len(d) <= 16:
                cands[('dom', a, d)] = None
        for g in list(cands):
            if isinstance(g, tuple) and (g[1] not in doms or doms[g[1]] != g[2]):
                del cands[g]
        if gen_new:
            for a in lins:
                al = of_atom(a)
                for g in (ge0(al), ge0(sub(I(2 ** 63 - 1), al)), ge0(sub(I(U64MAX), al)), ge0(add(al, I(-1)))):
                    cands.setdefault(g)
                for i, s in enumerate(self.sig):
                    v = s.get(a)
                    if v is not None and (v.a[1] or True):
                        if self.ok(v) and not any(x in self.phis for x in base_items(v)):
                            cands.setdefault(ge0(sub(al, v)))
                            cands.setdefault(ge0(sub(v, al)))
                for t in SKOLEM:
                    if self.allowed is None or self.ok(of_atom(t)):
                        for g in (ge0(sub(of_atom(t), al)), ge0(sub(sub(of_atom(t), al), ONE)), ge0(sub(al, of_atom(t)))):
                            cands.setdefault(g)
            if 2 <= len(lins) <= 16 and self.n <= 12:
                for g in self.affine(lins):
                    cands.setdefault(g)
            if len(lins) <= 14:
                for x in lins:
                    for y in lins:
                        if x is not y:
                            cands.setdefault(ge0(sub(of_atom(x), of_atom(y))))
                            cands.setdefault(ge0(sub(sub(of_atom(x), of_atom(y)), ONE)))
            elif len(lins) <= 64 and self.n <= 12:
                for n, x in enumerate(lins):
                    for y in lins[n + 1:]:
                        d = set()
                        for s in self.sig:
                            d.add(cval(sub(s[x], s[y])) if x in s and y in s else None)
                            if len(d) > 1 or None in d:
                                break
                        else:
                            cands.setdefault(eq0(sub(sub(of_atom(x), of_atom(y)), I(d.pop()))))
            fixed = set(a for s in ins for a in s.f.sub if a.k == 'atom' and a not in self.phis)
            if fixed and len(fixed) <= 24 and len(lins) <= 64:
                for t in fixed:         # at a constant distance from something that is the same at every visit
                    tl = of_atom(t)
                    if not self.ok(tl) or any(x in self.phis for x in base_items(tl)):
                        continue
                    ts = [self.norm(i, tl) for i in range(self.n)]
                    for x in lins:
                        d = None
                        for s, y in zip(self.sig, ts):
                            c = cval(sub(s[x], y)) if x in s else None
                            if c is None or d is not None and d != c:
                                break
                            d = c
                        else:
                            cands.setdefault(eq0(sub(sub(of_atom(x), tl), I(d))))
            for s, st_ in zip(self.sig, ins):       # bounds on what is the same at every visit, read as relative to an unknown
                cs = [(a, cval(s[a])) for a in lins if a in s and s[a].k == 'lin' and cval(s[a]) is not None]
                if cs and len(cs) <= 16:
                    for g in st_.f.ge:
                        if len(g.a[1]) == 1 and g.a[1][0][1] == 1 and g.a[1][0][0] not in self.phis and self.ok(g):
                            for a, v in cs:
                                if -g.a[0] >= v and -g.a[0] - v <= 4:
                                    cands.setdefault(ge0(sub(add(g, I(v)), of_atom(a))))
            for i in range(self.n):
                inv = self.inverse(i)
                f = ins[i].f
                lst = [mk('ge', g) for g in f.ge] + [mk('ne', g) for g in f.ne] + \
                      [eq0(sub(of_atom(a), v)) for a, v in f.sub.items()] + \
                      [b if v else bnot(b) for b, v in f.ba.items()] + list(f.ors)
                for g in lst:
                    if self.allowed is None or self.ok(g):
                        if not any(x in self.phis for x in base_items(g)):
                            cands.setdefault(g)
                    if inv:
                        h = subst(g, inv)
                        if h is not g and (self.allowed is None or self.ok(h)):
                            cands.setdefault(h)
                for a, d in f.dom.items():
                    if (self.allowed is None or self.ok(of_atom(a))) and a not in self.phis:
                        cands.setdefault(('dom', a, d))
        if self.it >= 3:
            # a bound by a number that only the length of the exploration explains would be given up again step by step
            def far(g):
                if isinstance(g, tuple) or g.k != 'ge' or (pri and g in pri):
                    return False
                c = abs(g.a[0].a[0])
                return 2 < c < 2 ** 40 and all(a in self.phis for a, _ in g.a[0].a[1])
            cands = {g: None for g in cands if not far(g)}
        keep = []
        lost = []
        for g in cands:
            if g in self.dropped and not (pri and g in pri):
                continue
            if g is TRUE:
                continue
            if isinstance(g, tuple):
                if g[1] in self.phis:
                    keep.append(g)
                    continue
                good = True
                for i in range(self.n):
                    al = of_atom(g[1])
                    d = ins[i].f.dom.get(g[1], DOMS.get(g[1]))
                    c = cval(ins[i].f.norm(al))
                    if not ((d is not None and d <= g[2]) or (c is not None and c in g[2])):
                        good = False
                if good:
                    keep.append(g)
                continue
            if all(self.holds(i, g) for i in range(self.n)):
                keep.append(g)
            else:
                self.dropped.add(g)
                lost.append(g)
        if KEEP_OR[0] and prior is not None and self.it <= 6:
            keep.extend(self.guarded(lost))
        f = st.f
        _TRUSTED[0] = True
        try:
            # inequalities first: one implied by a finite domain has to outlive it
            for g in [g for g in keep if not isinstance(g, tuple)] + [g for g in keep if isinstance(g, tuple)]:
                if isinstance(g, tuple):
                    if g[1] in f.sub:
                        continue
                    if len(g[2]) == 1:
                        f.assume(eq0(sub(of_atom(g[1]), I(next(iter(g[2]))))))
                    else:
                        f.dom[g[1]] = g[2]
                else:
                    f.assume(g)
        finally:
            _TRUSTED[0] = False
            f._forget()
        return frozenset(keep)

    def affine(self, lins):
        """the affine equations between unknowns that the values of every incoming state satisfy"""
        lins = [a for a in lins if all(a in s and s[a].k == 'lin' for s in self.sig)]
        if len(lins) < 2:
            return []
        vals = [[self.ins[i].f.norm(s[a]) for a in lins] for i, s in enumerate(self.sig)]
        good = {}

        def fine(x):
            r = good.get(x)
            if r is None:
                o = of_atom(x)
                r = good[x] = self.ok(o) and not any(z in self.phis for z in base_items(o))
            return r
        rows = []
        for i, vs in enumerate(vals):
            ats = {}
            for v in vs:
                for x, c in v.a[1]:
                    ats[x] = None
            for x in ats:
                if not fine(x):
                    rows.append([coef(v, x) for v in vs])
            if i:
                ats = {}
                for v in vs + vals[0]:
                    for x, c in v.a[1]:
                        if fine(x):
                            ats[x] = None
                for x in ats:
                    rows.append([coef(v, x) - coef(w, x) for v, w in zip(vs, vals[0])])
                rows.append([v.a[0] - w.a[0] for v, w in zip(vs, vals[0])])
        out = []
        for l in nullspace(rows, len(lins)):
            e = ZERO
            c = ZERO
            for k, a, v in zip(l, lins, vals[0]):
                if k:
                    e = add(e, of_atom(a, k))
                    c = add(c, scale(v, k))
            g = eq0(sub(e, c))
            if g is not TRUE and g is not FALSE and sum(1 for k in l if k) >= 2:
                out.append(g)
        return out

    def holds(self, i, g):
        m = self.sig[i]
        at = atoms_of(g)
        miss = [x for x in at if x in self.phis and x not in m]
        if miss:
            m = dict(m)
            for x in miss:
                if x.k == 'atom':
                    m[x] = lin_atom(('free', x, i))
                elif x.k == 'ba':
                    m[x] = batom(('free', x, i))
        gi = subst(g, m) if m else g
        return self.ins[i].f.ent(gi) is True

    def guarded(self, lost):
        """facts about what a position refers to that hold only in some of the states: kept as `bound or fact`
        where a bound over positions holds in each of the other states"""
        deep = [g for g in lost if g.k in ('eq', 'ne', 'ba', 'not') and self.deep(g)]
        if not deep or len(deep) > 12 or self.n < 2:
            return []
        vec = {g: [self.holds(i, g) for i in range(self.n)] for g in deep}
        guards = {}
        for g in lost:
            if g.k == 'ge' and not self.deep(g):
                h = [self.holds(i, g) for i in range(self.n)]
                if any(h):
                    guards[g] = h
        out = []
        for g, v in vec.items():
            if not any(v):
                continue
            for h, w in guards.items():
                if all(a or b for a, b in zip(v, w)):
                    b = bor(h, g)
                    if b not in self.dropped:
                        out.append(b)
        return out[:24]

    def deep(self, g):
        for x in atoms_of(g):
            if x.k in ('atom', 'ba') and x not in self.phis and any(y in self.phis for y in atoms_of(x.a[0])):
                return True
        return False

    def inverse(self, i):
        inv = {}
        cnt = {}
        for a, v in self.sig[i].items():
            if a.k != 'atom' or v.k != 'lin':
                continue
            best = None
            for x, c in v.a[1]:
                if abs(c) != 1 or x in inv or x.a[0][0] == 'mono':
                    continue
                if self.allowed is not None and self.ok(of_atom(x)) and x not in self.phis:
                    continue
                if self.allowed is None and all(self.sig[j].get(a) is v for j in range(self.n)):
                    continue
                best = (x, c)
                break
            if best is None:
                continue
            x, c = best
            rest = subst(sub(v, of_atom(x, c)), inv)
            if x in atoms_of(rest):
                continue
            inv[x] = scale(sub(of_atom(a), rest), c)
        return inv


class TSt(St):
    __slots__ = ('cands',)

    def copy(self):
        return St(self.mem.copy(), self.f.copy())
