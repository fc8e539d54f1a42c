"""Hash-consed values of the abstract domain: integer polynomials, booleans, aggregates, references and
sequences, plus the path-fact store with its linear-inequality entailment."""
import os
from itertools import count

_cnt = count(1)


def fresh_id():
    return next(_cnt)


class Obj:
    __slots__ = ('k', 'a', '_sh', '_at', 'uid')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        # not the address: the order of sets of terms has to be the same in every run
        return self.uid * _MUL & _MASK


# SA_SHUFFLE varies the order of sets, to find results that depend on it
_SH = int(os.environ.get('SA_SHUFFLE', '0'))
_MUL = 2 * _SH * 0x9e3779b97f4a7c15 + 1
_MASK = 2 ** 60 - 1
_TAB = {}


def mk(k, *a):
    key = (k,) + a
    o = _TAB.get(key)
    if o is None:
        o = Obj()
        o.k = k
        o.a = a
        o._sh = None
        o._at = None
        o.uid = len(_TAB)
        _TAB[key] = o
    return o


# ---------------------------------------------------------------- atoms and integer polynomials
BOUNDS = {}   # atom -> (lo, hi)
DOMS = {}     # atom -> frozenset of possible values


def atom(key, lo=None, hi=None, dom=None):
    o = mk('atom', key)
    if o not in BOUNDS:
        BOUNDS[o] = (lo, hi)
        if dom is not None:
            DOMS[o] = dom
    return o


def lin(c, terms=()):
    return mk('lin', c, terms)


ZERO = lin(0)
ONE = lin(1)


def I(n):
    return mk('lin', n, ())


def of_atom(a, coef=1):
    return mk('lin', 0, ((a, coef),))


def lin_atom(key, lo=None, hi=None, dom=None):
    return of_atom(atom(key, lo, hi, dom))


def is_int(v):
    return v.k == 'lin'


def cval(v):
    """constant value of an integer term or None"""
    if v.k == 'lin' and not v.a[1]:
        return v.a[0]
    return None


def add(x, y, ky=1):
    if ky == 0:
        return x
    if not y.a[1]:
        if y.a[0] == 0:
            return x
        return mk('lin', x.a[0] + ky * y.a[0], x.a[1])
    d = dict(x.a[1])
    for a, c in y.a[1]:
        n = d.get(a, 0) + ky * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return mk('lin', x.a[0] + ky * y.a[0], tuple(sorted(d.items(), key=lambda p: p[0].uid)))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return mk('lin', x.a[0] * k, tuple((a, c * k) for a, c in x.a[1]))


def neg(x):
    return scale(x, -1)


def factors(a):
    if a.a[0][0] == 'mono':
        return a.a[0][1]
    return (a,)


def mono(fs):
    fs = tuple(sorted(fs, key=lambda p: p.uid))
    if len(fs) == 1:
        return fs[0]
    lo, hi = 1, 1
    for f in fs:
        l, h = BOUNDS[f]
        if l is None or l < 0:
            lo = None
            hi = None
            break
        lo = lo * l
        hi = None if (hi is None or h is None) else hi * h
    return atom(('mono', fs), lo, hi)


def mul(x, y):
    if not x.a[1]:
        return scale(y, x.a[0])
    if not y.a[1]:
        return scale(x, y.a[0])
    r = add(scale(lin(0, x.a[1]), y.a[0]), scale(lin(0, y.a[1]), x.a[0]))
    r = add(r, I(x.a[0] * y.a[0]))
    for a, c in x.a[1]:
        for b, e in y.a[1]:
            r = add(r, of_atom(mono(factors(a) + factors(b)), c * e))
    return r


def exact_div(x, y):
    """x / y when y is a single monomial dividing every monomial of x, else None"""
    cy = cval(y)
    if cy is not None:
        if cy == 0:
            return None
        if x.a[0] % cy or any(c % cy for _, c in x.a[1]):
            return None
        return mk('lin', x.a[0] // cy, tuple((a, c // cy) for a, c in x.a[1]))
    if y.a[0] != 0 or len(y.a[1]) != 1:
        return ONE if x is y else None
    m, cm = y.a[1][0]
    if x.a[0] != 0:
        return None
    r = ZERO
    for a, c in x.a[1]:
        if c % cm:
            return None
        fs = list(factors(a))
        for f in factors(m):
            if f not in fs:
                return None
            fs.remove(f)
        r = add(r, of_atom(mono(fs), c // cm) if fs else I(c // cm))
    return r


# ---------------------------------------------------------------- booleans
TRUE = mk('b', True)
FALSE = mk('b', False)


def B(v):
    return TRUE if v else FALSE


def ge0(l):
    if not l.a[1]:
        return B(l.a[0] >= 0)
    g = 0
    for _, c in l.a[1]:
        g = _gcd(g, abs(c))
    if g > 1:
        l = mk('lin', l.a[0] // g, tuple((a, c // g) for a, c in l.a[1]))
    return mk('ge', l)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _sgn(l):
    if l.a[1] and l.a[1][0][1] < 0:
        return neg(l)
    return l


def eq0(l):
    if not l.a[1]:
        return B(l.a[0] == 0)
    return mk('eq', _sgn(l))


def ne0(l):
    if not l.a[1]:
        return B(l.a[0] != 0)
    return mk('ne', _sgn(l))


def batom(key):
    return mk('ba', key)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    k = b.k
    if k == 'ge':
        return ge0(add(neg(b.a[0]), I(-1)))
    if k == 'eq':
        return mk('ne', b.a[0])
    if k == 'ne':
        return mk('eq', b.a[0])
    if k == 'not':
        return b.a[0]
    if k == 'and':
        return bor(*[bnot(x) for x in b.a[0]])
    if k == 'or':
        return band(*[bnot(x) for x in b.a[0]])
    return mk('not', b)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.k == 'and':
            out.extend(x.a[0])
        else:
            out.append(x)
    if not out:
        return TRUE
    out = tuple(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return mk('and', out)


def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.k == 'or':
            out.extend(x.a[0])
        else:
            out.append(x)
    if not out:
        return FALSE
    out = tuple(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return mk('or', out)


def is_bool(v):
    return v.k in ('b', 'ge', 'eq', 'ne', 'ba', 'not', 'and', 'or')


# ---------------------------------------------------------------- other values
def Agg(ty, d, fs):
    """aggregate; d: discriminant value (integer term); fs: ((variant_index, (fields...)), ...)"""
    return mk('agg', ty, d, fs)


def Struct(ty, fields):
    return mk('agg', ty, ZERO, ((0, tuple(fields)),))


def Ref(obj, path=()):
    return mk('ref', obj, path)


def SRef(obj, path, start, ln):
    return mk('sref', obj, path, start, ln)


def Seq(segs, ln, ety):
    """owned sequence: segs is a tuple of segments
    ('lit', vals) | ('sub', op, start, len) | ('rep', val, len) | ('summ', pat, cons, len) | ('txt', key, len)"""
    return mk('seq', segs, ln, ety)


def LIT(vals):
    return mk('lit', tuple(vals))


def SeqLit(vals, ety):
    vals = tuple(vals)
    return mk('seq', (LIT(vals),) if vals else (), I(len(vals)), ety)


def SeqOp(idk, ety, ln):
    return mk('seq', (mk('sub', mk('op', idk, ety), ZERO, ln),), ln, ety)


def seglen(s):
    k = s.k
    if k == 'lit':
        return I(len(s.a[0]))
    if k == 'sub':
        return s.a[2]
    if k == 'rep':
        return s.a[1]
    if k == 'summ':
        return s.a[2]
    if k == 'txt':
        return s.a[1]
    raise AssertionError(k)


def Sym(idk, ty):
    return mk('sym', idk, ty)


def Fn(key):
    return mk('fn', key)


def Zst(ty):
    return mk('zst', ty)


TOP = mk('top')
UNIT_T = None


def fl(key):
    return mk('fl', key)


def OBJ(*a):
    return mk('obj', *a)


IDX = atom(('IDX',), 0, None)
IDXL = of_atom(IDX)


def atoms_of(v):
    """frozenset of atoms / boolean atoms / opaque ids occurring in a value"""
    if isinstance(v, tuple):
        s = set()
        _collect(v, s)
        return s
    if v._at is not None:
        return v._at
    s = set()
    _collect(v, s)
    v._at = frozenset(s)
    return v._at


def _collect(v, s):
    if isinstance(v, tuple):
        for x in v:
            _collect(x, s)
        return
    if not isinstance(v, Obj):
        return
    k = v.k
    if v._at is not None:
        s |= v._at
        return
    if k == 'atom':
        s.add(v)
        _collect(v.a[0], s)
    else:
        if k in ('ba', 'op', 'obj', 'fl', 'sym'):
            s.add(v)
        _collect(v.a, s)


def subst(v, m):
    """replace objects according to dict m (atoms map to lin terms), rebuilding polynomials"""
    if not m:
        return v
    return _subst(v, m, {})


def _subst(v, m, memo):
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            y = _subst(x, m, memo)
            ch = ch or (y is not x)
            out.append(y)
        return tuple(out) if ch else v
    if not isinstance(v, Obj):
        return v
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    k = v.k
    if k == 'lin':
        if not v.a[1]:
            r = v
        else:
            r = None
            acc = None
            ch = False
            for a, c in v.a[1]:
                if a.a[0][0] == 'mono':
                    p = ONE
                    c2 = False
                    for f in a.a[0][1]:
                        g = m.get(f)
                        if g is None:
                            g2 = _subst(f, m, memo)
                            g = g2 if g2.k == 'lin' else of_atom(g2)
                            if g2 is not f:
                                c2 = True
                        else:
                            c2 = True
                        p = mul(p, g)
                    if c2:
                        ch = True
                    t = scale(p, c)
                else:
                    g = m.get(a)
                    if g is None:
                        g2 = _subst(a, m, memo)
                        if g2 is not a:
                            ch = True
                        g = g2 if g2.k == 'lin' else of_atom(g2)
                    else:
                        ch = True
                    t = scale(g, c)
                acc = t if acc is None else add(acc, t)
            r = add(acc, I(v.a[0])) if ch else v
    elif k == 'atom':
        nk = _subst(v.a[0], m, memo)
        if nk is v.a[0]:
            r = v
        else:
            lo, hi = BOUNDS[v]
            r = reatom(nk, lo, hi, DOMS.get(v))
    elif k == 'ge':
        n = _subst(v.a[0], m, memo)
        r = v if n is v.a[0] else ge0(n)
    elif k == 'eq':
        n = _subst(v.a[0], m, memo)
        r = v if n is v.a[0] else eq0(n)
    elif k == 'ne':
        n = _subst(v.a[0], m, memo)
        r = v if n is v.a[0] else ne0(n)
    elif k == 'not':
        n = _subst(v.a[0], m, memo)
        r = v if n is v.a[0] else bnot(n)
    elif k == 'and' or k == 'or':
        n = _subst(v.a[0], m, memo)
        r = v if n is v.a[0] else (band if k == 'and' else bor)(*n)
    else:
        na = _subst(v.a, m, memo)
        if na is not v.a and k == 'ba' and na[0][0] == 'seqeq' and na[0][1].uid > na[0][2].uid:
            na = (('seqeq', na[0][2], na[0][1]),)
        r = v if na is v.a else mk(k, *na)
    memo[v] = r
    return r


def reatom(nk, lo, hi, dom):
    """atom for a rebuilt key; div/rem/… are re-normalised"""
    if nk[0] == 'div':
        q = exact_div(nk[1], nk[2])
        if q is not None:
            return q
    return atom(nk, lo, hi, dom)


# ---------------------------------------------------------------- display
def show(v, depth=0):
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, depth + 1) for x in v) + ')'
    if not isinstance(v, Obj):
        return str(v)
    if depth > 12:
        return '..'
    k = v.k
    if k == 'lin':
        if not v.a[1]:
            return str(v.a[0])
        s = '+'.join((('' if c == 1 else str(c) + '*') + show(a, depth + 1)) for a, c in v.a[1])
        return s if v.a[0] == 0 else '%s%+d' % (s, v.a[0])
    if k == 'atom':
        key = v.a[0]
        if key[0] == 'mono':
            return '*'.join(show(x, depth + 1) for x in key[1])
        return '<' + show_key(key, depth) + '>'
    if k == 'b':
        return str(v.a[0])
    if k in ('ge', 'eq', 'ne'):
        return '(%s %s 0)' % (show(v.a[0], depth + 1), {'ge': '>=', 'eq': '==', 'ne': '!='}[k])
    if k == 'agg':
        return 'T%s#%s{%s}' % (v.a[0], show(v.a[1], depth + 1),
                               '|'.join('%s:%s' % (i, show(f, depth + 1)) for i, f in v.a[2]))
    if k == 'lit':
        try:
            cs = [cval(x) for x in v.a[0]]
            if cs and all(c is not None and 9 <= c < 127 for c in cs):
                return repr(''.join(map(chr, cs)))
        except Exception:
            pass
    return k + show(v.a, depth + 1)


def show_key(key, depth):
    return ','.join(show(x, depth + 1) if isinstance(x, (Obj, tuple)) else str(x) for x in key)


# ---------------------------------------------------------------- facts
class Infeasible(Exception):
    pass


class Facts:
    __slots__ = ('sub', 'ge', 'ne', 'ba', 'dom', 'ors', '_memo')

    def __init__(self):
        self.sub = {}
        self.ge = {}
        self.ne = {}
        self.ba = {}
        self.dom = {}
        self.ors = {}
        self._memo = {}

    def copy(self):
        f = Facts()
        f.sub = self.sub.copy()
        f.ge = self.ge.copy()
        f.ne = self.ne.copy()
        f.ba = self.ba.copy()
        f.dom = self.dom.copy()
        f.ors = self.ors.copy()
        return f

    def key(self):
        return (frozenset(self.sub.items()), frozenset(self.ge), frozenset(self.ne),
                frozenset(self.ba.items()), frozenset(self.dom.items()), frozenset(self.ors))

    # -- normal form of a term under the known equalities
    def norm(self, v):
        s = self.sub
        if not s:
            return v
        at = atoms_of(v)
        if not any(a in s for a in at):
            return v
        for _ in range(6):
            n = subst(v, s)
            if n is v:
                break
            v = n
        return v

    def lower(self, l):
        """cheap lower bound of a polynomial, or None"""
        r = l.a[0]
        for a, c in l.a[1]:
            lo, hi = BOUNDS[a]
            b = lo if c > 0 else hi
            if b is None:
                return None
            r += c * b
        return r

    def ent_ge(self, l):
        """is l >= 0 on every valuation satisfying the facts?"""
        l = self.norm(l)
        if not l.a[1]:
            return l.a[0] >= 0
        # nested queries reason less deeply: what they fail to show says nothing about an outer query
        r = self._memo.get(l)
        if r is None and _depth[0]:
            r = self._memo.get((_depth[0], l))
        if r is None:
            r = self._ent_ge(l)
            self._memo[l if r or not _depth[0] else (_depth[0], l)] = r
        return r

    def _ent_ge(self, l):
        lb = self.lower(l)
        if lb is not None and lb >= 0:
            return True
        for g in self.ge:
            d = sub(l, g)
            if not d.a[1]:
                if d.a[0] >= 0:
                    return True
            else:
                lb = self.lower(d)
                if lb is not None and lb >= 0:
                    return True
        for a, c in l.a[1]:
            if a in self.dom and len(l.a[1]) == 1:
                return all(l.a[0] + c * v >= 0 for v in self.dom[a])
        if fm_infeasible(self, add(neg(l), I(-1))):
            return True
        if SKOLEM and _cases_on[0] and any(a in SKOLEM for a in atoms_of(l)):
            return self._refute(l)
        return False

    def _refute(self, l):
        """l >= 0, given that l is not much less than 0 and each of the few values below 0 is impossible"""
        for c in (1, 2, 3):
            if self.lower(add(l, I(c))) not in (None,) and self.lower(add(l, I(c))) >= 0 or \
                    add(l, I(c)) in self.ge or fm_infeasible(self, add(neg(l), I(-1 - c))):
                break
        else:
            return False
        _cases_on[0] = False
        try:
            for j in range(1, c + 1):
                f = self.copy()
                try:
                    f.assume(eq0(add(l, I(j))))
                except Infeasible:
                    continue
                return False
            return True
        finally:
            _cases_on[0] = True

    def ent(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        b = self.norm(b)
        k = b.k
        if k == 'b':
            return b.a[0]
        if k == 'ge':
            l = b.a[0]
            if self.ent_ge(l):
                return True
            if self.ent_ge(add(neg(l), I(-1))):
                return False
            return None
        if k in ('eq', 'ne'):
            r = self._ent_eq(b.a[0])
            if r is None:
                return None
            return r if k == 'eq' else (not r)
        if k == 'not':
            r = self.ent(b.a[0])
            return None if r is None else (not r)
        if k == 'and':
            rs = [self.ent(x) for x in b.a[0]]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if k == 'or':
            if b in self.ors:
                return True
            rs = [self.ent(x) for x in b.a[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            if any(g is not b and set(g.a[0]) <= set(b.a[0]) for g in self.ors):
                return True
            return self._cases(b, rs)
        if k == 'ba':
            return self.ba.get(b)
        return None

    def _ent_eq(self, l):
        l = self.norm(l)
        if not l.a[1]:
            return l.a[0] == 0
        l = _sgn(l)
        if l in self.ne:
            return False
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            d = self.dom.get(a, DOMS.get(a))
            if d is not None:
                if l.a[0] % c or (-l.a[0] // c) not in d:
                    return False
                if len(d) == 1:
                    return True
        if self.ent_ge(add(l, I(-1))) or self.ent_ge(add(neg(l), I(-1))):
            return False
        if self.ent_ge(l) and self.ent_ge(neg(l)):
            return True
        return None

    def _cases(self, b, rs):
        """a disjunction: suppose all but one of its undecided parts fail, and look whether the last one follows"""
        parts = [x for x, r in zip(b.a[0], rs) if r is None]
        if not (KEEP_OR[0] and _cases_on[0]) or len(parts) > 3:
            return None
        for i, x in enumerate(parts):
            f = self.copy()
            _cases_on[0] = False
            try:
                for j, y in enumerate(parts):
                    if j != i:
                        f.assume(bnot(y))
                if f.ent(x):
                    return True
            except Infeasible:
                return True
            finally:
                _cases_on[0] = True
        return None

    # -- assuming a condition; raises Infeasible
    def assume(self, b):
        if not self.ors:
            return self._assume(b)
        self._assume(b)
        for _ in range(4):
            again = False
            for o in list(self.ors):
                if o not in self.ors:
                    continue
                live = []
                for x in o.a[0]:
                    r = self.ent(x)
                    if r is True:
                        live = None
                        break
                    if r is None:
                        live.append(x)
                if live is not None and len(live) == len(o.a[0]):
                    continue
                del self.ors[o]
                if live is None:
                    continue
                if not live:
                    raise Infeasible()
                if len(live) == 1:
                    again = True
                    self._assume(live[0])
                else:
                    self.ors[bor(*live)] = None
            if not again:
                return

    def _assume(self, b):
        if b is TRUE:
            return
        if b is FALSE:
            raise Infeasible()
        b = self.norm(b)
        k = b.k
        if k == 'b':
            if not b.a[0]:
                raise Infeasible()
            return
        if k != 'ge':
            self._forget()
        if k == 'and':
            for x in b.a[0]:
                self.assume(x)
            return
        if k == 'ba':
            if self.ba.get(b) is False:
                raise Infeasible()
            self.ba[b] = True
            return
        if k == 'not':
            x = b.a[0]
            if x.k == 'ba':
                if self.ba.get(x) is True:
                    raise Infeasible()
                self.ba[x] = False
            return
        if k == 'or':
            live = [x for x in b.a[0] if self.ent(x) is not False]
            if not live:
                raise Infeasible()
            if len(live) == 1:
                self.assume(live[0])
            elif KEEP_OR[0] and len(live) <= 4 and not any(self.ent(x) for x in live):
                self.ors[bor(*live)] = None
            return
        if k == 'ge':
            l = b.a[0]
            if self.ent_ge(l):
                if self.ent_ge(add(neg(l), I(-1))):
                    raise Infeasible()
                return
            if _TRUSTED[0]:
                if neg(l) in self.ge:
                    return self._eq(l)
                self._add_ge(l)
                return
            if self.ent_ge(add(neg(l), I(-1))):
                raise Infeasible()
            if self.ent_ge(neg(l)):
                return self._eq(l)
            self._add_ge(l)
            return
        if k == 'eq':
            if self._ent_eq(b.a[0]) is False:
                raise Infeasible()
            return self._eq(b.a[0])
        if k == 'ne':
            return self._ne(b.a[0])

    def _forget(self):
        """what could not be shown may be shown with a new fact"""
        if self._memo:
            self._memo = {k: v for k, v in self._memo.items() if v}

    def _add_ge(self, l):
        self.ge[l] = None
        self._forget()
        n = _sgn(l)
        # l >= 0 and l != 0  =>  l >= 1
        if n in self.ne:
            del self.ne[n]
            del self.ge[l]
            self._add_ge(ge0(add(l, I(-1))).a[0])

    def _ne(self, l):
        l = _sgn(self.norm(l))
        if not l.a[1]:
            if l.a[0] == 0:
                raise Infeasible()
            return
        if self.ent_ge(l) and self.ent_ge(neg(l)):
            raise Infeasible()
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            d = self.dom.get(a, DOMS.get(a))
            if d is not None:
                if l.a[0] % c == 0:
                    d = d - {-l.a[0] // c}
                    if not d:
                        raise Infeasible()
                    self.dom[a] = d
                    if len(d) == 1:
                        self._eq(sub(of_atom(a), I(next(iter(d)))))
                return
        if self.ent_ge(l):
            self._add_ge(add(l, I(-1)))
        elif self.ent_ge(neg(l)):
            self._add_ge(add(neg(l), I(-1)))
        else:
            self.ne[l] = None

    def _eq(self, l):
        l = self.norm(l)
        if not l.a[1]:
            if l.a[0] != 0:
                raise Infeasible()
            return
        # choose an atom to eliminate: unit coefficient, not inside another monomial of l, newest first
        best = None
        for a, c in l.a[1]:
            if abs(c) != 1 or a.a[0][0] == 'mono':
                continue
            rest = [x for x, _ in l.a[1] if x is not a]
            if any(a in atoms_of(x) for x in rest):
                continue
            pr = _prio(a)
            if best is None or pr > best[0]:
                best = (pr, a, c)
        if best is None:
            self._add_ge(l)
            self._add_ge(neg(l))
            return
        _, a, c = best
        rhs = scale(sub(l, of_atom(a, c)), -c)
        rc = cval(rhs)
        lo, hi = BOUNDS[a]
        d = self.dom.get(a, DOMS.get(a))
        if rc is not None:
            if (lo is not None and rc < lo) or (hi is not None and rc > hi):
                raise Infeasible()
            if d is not None and rc not in d:
                raise Infeasible()
        m = {a: rhs}
        self.sub = {x: subst(y, m) for x, y in self.sub.items()}
        self.sub[a] = rhs
        self._memo = {}
        if rc is None:
            for bnd in (lo, hi):
                if bnd is None:
                    continue
                g = sub(rhs, I(lo)) if bnd is lo else sub(I(hi), rhs)
                if not self.ent_ge(g):
                    self._add_ge(g)
        old_ge, self.ge = self.ge, {}
        old_ne, self.ne = self.ne, {}
        for g in old_ge:
            n = subst(g, m)
            if not n.a[1]:
                if n.a[0] < 0:
                    raise Infeasible()
                continue
            b = ge0(n)
            if b.k == 'ge':
                self.ge[b.a[0]] = None
        for g in old_ne:
            n = subst(g, m)
            self._ne(n)
        if self.ors:
            old_ors, self.ors = self.ors, {}
            for g in old_ors:
                n = subst(g, m)
                if n is FALSE:
                    raise Infeasible()
                if n.k == 'or':
                    self.ors[n] = None
                elif n is not TRUE:
                    self.assume(n)
        # an unknown that depends on the one eliminated is the same as the unknown it turns into
        for x, y in list(self.sub.items()):
            if x is not a and a in _inner(x):
                z = subst(of_atom(x), m)
                if z is not y and not (z.k == 'lin' and z.a[1] and z.a[1][0][0] is x):
                    self.assume(eq0(sub(z, y)))
        for x, d in list(self.dom.items()):
            if x is not a and x not in self.sub and a in _inner(x):
                z = subst(of_atom(x), m)
                if len(z.a[1]) == 1 and z.a[0] == 0 and z.a[1][0][1] == 1:
                    y = z.a[1][0][0]
                    e = self.dom.get(y, DOMS.get(y, d)) & d
                    if not e:
                        raise Infeasible()
                    self.dom[y] = e
                elif cval(z) is not None and cval(z) not in d:
                    raise Infeasible()
        old_ba, self.ba = self.ba, {}
        for x, v in old_ba.items():
            y = subst(x, m)
            if y is not x and self.ba.get(y, old_ba.get(y, v)) != v:
                raise Infeasible()
            self.ba[y] = v


_cases_on = [True]
# keep disjunctions as facts and look for disjunctive invariants (switched on by the analyses that need it)
KEEP_OR = [False]
# freely chosen positions: an inequality about one of them is also tried by refutation
SKOLEM = set()
_INNER = {}


def _inner(a):
    """the unknowns inside the description of the unknown a"""
    r = _INNER.get(a)
    if r is None:
        r = _INNER[a] = frozenset(atoms_of(of_atom(a))) - {a}
    return r


def _prio(a):
    k = a.a[0][0]
    base = {'phi': 3, 's': 2, 'fresh': 4}.get(k, 1)
    return (base, a.uid)


def fm_infeasible(facts, goal, limit=70):
    """Fourier-Motzkin: is  goal >= 0  together with the facts infeasible over the rationals?"""
    rel = dict.fromkeys(a for a, _ in goal.a[1])
    pool = list(facts.ge)
    nl = any(a.a[0][0] == 'mono' for a in rel) or any(a.a[0][0] == 'mono' for g in pool for a, _ in g.a[1])
    if nl:
        near = set(rel)
        for a in rel:
            near.update(factors(a))
    else:
        near = set(rel)
    cons = [goal]
    used = [False] * len(pool)
    for _ in range(4):
        ch = False
        for i, g in enumerate(pool):
            if not used[i] and any(a in near or (nl and any(x in near for x in factors(a))) for a, _ in g.a[1]):
                used[i] = True
                cons.append(g)
                for a, _ in g.a[1]:
                    rel[a] = None
                    if a not in near:
                        near.add(a)
                        if nl:
                            near.update(factors(a))
                        ch = True
        if not ch:
            break
    if len(cons) > 60:
        cons = cons[:60]
    # products: for monomials sharing a non-negative factor, order of the other factors carries over
    monos = [a for a in rel if a.a[0][0] == 'mono'] if not _TRUSTED[0] else ()
    if monos:
        def nonneg(c):
            lo = BOUNDS[c][0]
            return (lo is not None and lo >= 0) or any(g.a[0] <= 0 and len(g.a[1]) == 1 and g.a[1][0][0] is c and g.a[1][0][1] > 0
                                                       for g in pool)
        extra = []
        mset = set(monos)
        cf = []
        for m in monos:
            for c in factors(m):
                if c not in cf and nonneg(c):
                    cf.append(c)
        whole = []      # comparisons of a monomial with a part of itself: always useful
        for i, m1 in enumerate(monos):
            f1 = list(factors(m1))
            for m2 in list(rel):
                if m2 is m1:
                    continue
                f2 = list(factors(m2))
                for c in dict.fromkeys(f1):
                    if c in f2 and nonneg(c):
                        r1 = list(f1)
                        r1.remove(c)
                        r2 = list(f2)
                        r2.remove(c)
                        if r2 and len(rel) > 14:
                            continue
                        to = whole if not r2 else extra
                        l1 = of_atom(mono(r1)) if r1 else ONE
                        l2 = of_atom(mono(r2)) if r2 else ONE
                        dl = sub(l1, l2)
                        if _lin_ge(facts, dl):
                            to.append(sub(of_atom(m1), of_atom(m2)))
                            # strictly greater: differ by at least the shared factor
                            if _lin_ge(facts, add(dl, I(-1))):
                                to.append(sub(sub(of_atom(m1), of_atom(m2)), of_atom(c)))
                        elif m2.a[0][0] != 'mono' or m1.uid < m2.uid:
                            if _lin_ge(facts, neg(dl)):
                                to.append(sub(of_atom(m2), of_atom(m1)))
                                if _lin_ge(facts, add(neg(dl), I(-1))):
                                    to.append(sub(sub(of_atom(m2), of_atom(m1)), of_atom(c)))
        for g in cons[:40]:
            if any(a.a[0][0] == 'mono' for a, _ in g.a[1]) or len(g.a[1]) > 5:
                continue
            for c in cf:
                p = mul(g, of_atom(c))
                ms = [a for a, _ in p.a[1] if a.a[0][0] == 'mono']
                if ms and all(a in mset for a in ms):
                    extra.append(p)
        extra = list(dict.fromkeys(whole + extra))[:90]
        if extra[len(whole):] and _fm(cons + whole, limit):
            return True
        cons.extend(extra)
    return _fm(cons, limit)


def _fm(cons, limit):
    cons = list(cons)
    for a in dict.fromkeys(a for l in cons for a, _ in l.a[1]):
        lo, hi = BOUNDS[a]
        if lo is not None:
            cons.append(sub(of_atom(a), I(lo)))
        if hi is not None:
            cons.append(sub(I(hi), of_atom(a)))
    # linear part -> (constant, constraints it was derived from); of two with the same linear part only the
    # stronger one matters
    if _witnessed(cons):
        return False
    cs = {}
    steps = []

    def put(d, l, h):
        o = d.get(l.a[1])
        if o is None or l.a[0] < o[0].a[0] or (l.a[0] == o[0].a[0] and h.bit_count() < o[1].bit_count()):
            d[l.a[1]] = (l, h)
    nb = 0
    for l in cons:
        b = ge0(l)
        if b is FALSE:
            return True
        if b.k == 'ge':
            put(cs, b.a[0], 1 << nb)
            nb += 1
    atoms = dict.fromkeys(a for l, _ in cs.values() for a, _ in l.a[1])
    k = 1
    while atoms:
        P, N = dict.fromkeys(atoms, 0), dict.fromkeys(atoms, 0)
        for l, _ in cs.values():
            for x, c in l.a[1]:
                if c > 0:
                    P[x] += 1
                else:
                    N[x] += 1
        a = min(atoms, key=lambda x: (P[x] * N[x] - P[x] - N[x], x.uid))
        del atoms[a]
        pos, negs, out = [], [], {}
        for l, h in cs.values():
            c = 0
            for x, y in l.a[1]:
                if x is a:
                    c = y
                    break
            if c > 0:
                pos.append((l, c, h))
            elif c < 0:
                negs.append((l, c, h))
            else:
                out[l.a[1]] = (l, h)
        if not pos and not negs:
            continue
        k += 1
        steps.append((a, pos, negs))
        for l, c, h in pos:
            for m, d, g in negs:
                hg = h | g
                if hg.bit_count() > k:
                    continue        # redundant (Kohler)
                b = ge0(add(scale(l, -d), scale(m, c)))
                if b is FALSE:
                    return True
                if b.k == 'ge':
                    put(out, b.a[0], hg)
        if len(out) > limit * 6:
            return False
        cs = out
    _witness(cons, steps)
    return False


_WIT = []       # recent whole-number solutions of constraint systems: most systems met later have one of them


def _solves(cons, w):
    for l in cons:
        v = l.a[0]
        for a, c in l.a[1]:
            x = w.get(a)
            if x is None:
                lo, hi = BOUNDS[a]
                x = lo if lo is not None else hi if hi is not None and hi < 0 else 0
            v += c * x
        if v < 0:
            return False
    return True


def _witnessed(cons):
    for n, w in enumerate(_WIT):
        if _solves(cons, w):
            if n:
                _WIT.insert(0, _WIT.pop(n))
            return True
    return False


def _witness(cons, steps):
    """remember a whole-number solution, if going back through the eliminations finds one"""
    w = {}
    for a, pos, negs in reversed(steps):
        lo = hi = None
        for l, c, _ in pos:
            v = l.a[0]
            for x, y in l.a[1]:
                if x is not a:
                    v += y * w.get(x, 0)
            b = -(v // c)
            if lo is None or b > lo:
                lo = b
        for l, c, _ in negs:
            v = l.a[0]
            for x, y in l.a[1]:
                if x is not a:
                    v += y * w.get(x, 0)
            b = v // -c
            if hi is None or b < hi:
                hi = b
        if lo is not None and hi is not None and lo > hi:
            return
        if lo is not None and hi is not None:
            w[a] = lo + min(hi - lo, 1000 + 7 * len(w)) // 2
        elif lo is not None:
            w[a] = lo + 3 + len(w)
        else:
            w[a] = hi - 3 - len(w)
    if _solves(cons, w):
        _WIT.insert(0, w)
        del _WIT[24:]


_depth = [0]
_TRUSTED = [False]     # facts known to hold together are being put together


def _lin_ge(facts, l):
    if not l.a[1]:
        return l.a[0] >= 0
    if any(a.a[0][0] == 'mono' for a, _ in l.a[1]):
        return False
    if _depth[0] > 1:
        return False
    _depth[0] += 1
    try:
        return facts.ent_ge(l)
    finally:
        _depth[0] -= 1
