"""The program under analysis: types and monomorphic MIR bodies read from the driver's dump, with the control
flow structure (dominators, natural loops, liveness) each body needs."""
import json
from .terms import *


class Body:
    __slots__ = ('key', 'f', 'blocks', 'argc', 'locals', 'names', 'succ', 'rpo', 'order', 'headers',
                 'loop_of', 'loops', 'live_in', 'kills', 'addr', 'spread', 'path')


class World:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.F = d['fns']
        self.roots = d['roots']
        self.defs = d['defs']
        self.bodies = {}
        self.objty = {}
        self.by_path = {}
        for k, f in self.F.items():
            self.by_path.setdefault(f['path'], []).append(k)
        self.U8 = self._find(lambda t: t['k'] == 'uint' and t['b'] == 8)
        self.USIZE = self._find(lambda t: t['k'] == 'uint' and t['b'] == 64)
        self.F32 = self._find(lambda t: t['k'] == 'float' and t['n'] == 'F32')
        self.F64 = self._find(lambda t: t['k'] == 'float' and t['n'] == 'F64')
        self.BOOL = self._find(lambda t: t['k'] == 'bool')
        self.UNIT = self._find(lambda t: t['k'] == 'tuple' and not t['f'])
        self.STR = self._find(lambda t: t['k'] == 'str')
        self._tyname = {}
        self._symcache = {}

    def _find(self, p):
        for i, t in enumerate(self.T):
            if p(t):
                return i
        return None

    def find_ty(self, pred):
        return self._find(pred)

    def ty(self, i):
        return self.T[i]

    def tname(self, i):
        r = self._tyname.get(i)
        if r is not None:
            return r
        t = self.T[i]
        k = t['k']
        self._tyname[i] = '..'
        if k in ('ref', 'ptr'):
            r = ('&' if k == 'ref' else '*') + ('mut ' if t['mut'] else '') + self.tname(t['e'])
        elif k == 'slice':
            r = '[' + self.tname(t['e']) + ']'
        elif k == 'array':
            r = '[%s; %s]' % (self.tname(t['e']), t['len'])
        elif k == 'tuple':
            r = '(' + ', '.join(self.tname(x) for x in t['f']) + ')'
        elif k in ('int', 'uint'):
            r = ('i' if k == 'int' else 'u') + str(t['b'])
        elif k == 'float':
            r = t['n'].lower()
        else:
            r = t.get('n', k)
        self._tyname[i] = r
        return r

    def adt(self, i):
        t = self.T[i]
        return t.get('def') if t['k'] in ('struct', 'enum', 'union') else None

    def is_vec(self, i):
        return self.adt(i) == 'std::vec::Vec'

    def seq_elem(self, i):
        """element type if values of this type are modelled as owned sequences"""
        t = self.T[i]
        k = t['k']
        if k == 'array' or k == 'slice':
            return t['e']
        if k == 'str':
            return self.U8
        if k == 'struct':
            d = t['def']
            if d == 'std::vec::Vec':
                return t['args'][0]
            if d == 'smallvec::SmallVec':
                return self.T[t['args'][0]]['e']
            if d == 'bstr::BStr':
                return self.U8
        return None

    def field_index(self, ty, name, variant=0):
        for j, (n, _) in enumerate(self.T[ty]['v'][variant]['f']):
            if n == name:
                return j
        raise KeyError((self.tname(ty), name))

    def variant_index(self, ty, name):
        for i, v in enumerate(self.T[ty]['v']):
            if v['n'].split('::')[-1] == name:
                return i
        raise KeyError((self.tname(ty), name))

    def field_tys(self, ty, v=0):
        t = self.T[ty]
        k = t['k']
        if k in ('struct', 'enum', 'union'):
            return [x[1] for x in t['v'][v]['f']] if v < len(t['v']) else []
        if k in ('tuple', 'closure'):
            return t['f']
        if k == 'array':
            return [t['e']] * t['len']
        return []

    # ---- symbolic values of a type
    def symval(self, idk, ty):
        key = (idk, ty)
        r = self._symcache.get(key)
        if r is None:
            r = self._symval(idk, ty)
            self._symcache[key] = r
        return r

    def _symval(self, idk, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'uint':
            return lin_atom(('s', idk), 0, 2 ** t['b'] - 1)
        if k == 'int':
            return lin_atom(('s', idk), -2 ** (t['b'] - 1), 2 ** (t['b'] - 1) - 1)
        if k == 'char':
            return lin_atom(('s', idk), 0, 0x10ffff)
        if k == 'bool':
            return batom(('s', idk))
        if k == 'float':
            return fl(('s', idk))
        if k in ('ref', 'ptr'):
            e = t['e']
            ek = self.T[e]['k']
            o = OBJ('so', idk)
            self.objty[o] = e
            if ek in ('slice', 'str') or self.adt(e) == 'bstr::BStr':
                return SRef(o, (), ZERO, lin_atom(('len', idk), 0, 2 ** 63 - 1))
            return Ref(o)
        if k == 'array':
            return SeqOp(idk, t['e'], I(t['len']))
        se = self.seq_elem(ty)
        if se is not None:
            return SeqOp(idk, se, lin_atom(('len', idk), 0, 2 ** 63 - 1))
        if k == 'fndef':
            return Fn(t['fn'])
        if k == 'struct' and t.get('def') == 'std::num::NonZero' and t['args'] and self.T[t['args'][0]]['k'] == 'uint':
            return lin_atom(('s', idk), 1, 2 ** self.T[t['args'][0]]['b'] - 1)
        if k == 'tuple' and not t['f']:
            return self.unit()
        return Sym(idk, ty)

    def unit(self):
        return Struct(self.UNIT, ())

    def expand(self, v):
        """one-level expansion of an opaque aggregate"""
        if v.k != 'sym':
            return v
        idk, ty = v.a
        t = self.T[ty]
        k = t['k']
        if k == 'struct':
            return Struct(ty, [self.symval((idk, 'f', n), ft) for n, ft in t['v'][0]['f']])
        if k in ('tuple', 'closure'):
            return Struct(ty, [self.symval((idk, 'f', str(i)), ft) for i, ft in enumerate(t['f'])])
        if k == 'enum' and t['v']:
            dom = frozenset(self.sdisc(ty, x) for x in range(len(t['v'])))
            d = lin_atom(('s', (idk, 'd')), min(dom), max(dom), dom)
            fs = tuple((i, tuple(self.symval((idk, 'v', vv['n'].split('::')[-1], n), ft) for n, ft in vv['f']))
                       for i, vv in enumerate(t['v']))
            if len(dom) == 1:
                d = I(next(iter(dom)))
            return Agg(ty, d, fs)
        return v

    def sdisc(self, ty, v):
        return self.T[ty]['v'][v]['d']

    def variant_of(self, ty, d):
        for i, v in enumerate(self.T[ty]['v']):
            if v['d'] == d:
                return i
        return None

    def mkenum(self, ty, variant, fields=()):
        return Agg(ty, I(self.sdisc(ty, variant)), ((variant, tuple(fields)),))

    # ---- bodies
    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            f = self.F.get(key)
            if f is None or 'blocks' not in f:
                return None
            b = self._build(key, f)
            self.bodies[key] = b
        return b

    def _build(self, key, f):
        b = Body()
        b.key = key
        b.f = f
        b.path = f['path']
        b.blocks = f['blocks']
        b.argc = f['argc']
        b.locals = f['locals']
        b.names = {int(k): v for k, v in f['names'].items()}
        b.spread = f.get('spread')
        n = len(b.blocks)
        b.succ = [succs(x['t']) for x in b.blocks]
        # RPO
        seen = set()
        post = []
        stack = [(0, iter(b.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(b.succ[y])))
                    break
            else:
                post.append(x)
                stack.pop()
        b.rpo = post[::-1]
        b.order = {x: i for i, x in enumerate(b.rpo)}
        preds = {x: [] for x in b.rpo}
        for x in b.rpo:
            for y in b.succ[x]:
                preds[y].append(x)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in b.rpo[1:]:
                ps = [p for p in preds[x] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while b.order[a] > b.order[c]:
                            a = idom[a]
                        while b.order[c] > b.order[a]:
                            c = idom[c]
                    new = a
                if idom.get(x) != new:
                    idom[x] = new
                    ch = True

        def dom(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        loops = {}
        for x in b.rpo:
            for h in b.succ[x]:
                if b.order[h] <= b.order[x] and dom(h, x):
                    body = loops.setdefault(h, {h})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(preds[y])
        b.loops = loops
        # liveness
        addr = set()
        use, de = [], []
        for blk in b.blocks:
            u, d = set(), set()

            def us(l):
                if l not in d:
                    u.add(l)

            def rplace(p):
                us(p[0])
                for e in p[1]:
                    if e[0] == 'i':
                        us(e[1])

            def rop(o):
                if o[0] in ('cp', 'mv'):
                    rplace(o[1])

            def wplace(p):
                if p[1]:
                    rplace(p)
                else:
                    d.add(p[0])

            def rrv(r):
                k = r[0]
                if k == 'use':
                    rop(r[1])
                elif k == 'ref':
                    rplace(r[1])
                    if not (r[1][1] and r[1][1][0] == '*'):
                        addr.add(r[1][0])
                elif k in ('bin', 'cbin'):
                    rop(r[2])
                    rop(r[3])
                elif k in ('un', 'cast'):
                    rop(r[2] if k == 'un' else r[2])
                elif k in ('discr', 'len'):
                    rplace(r[1])
                elif k == 'rep':
                    rop(r[1])
                elif k == 'agg':
                    for o in r[2]:
                        rop(o)
            for s in blk['s']:
                if s[0] == '=':
                    rrv(s[2])
                    wplace(s[1])
                elif s[0] == 'setd':
                    rplace(s[1])
                elif s[0] == 'assume':
                    rop(s[1])
                elif s[0] == 'copynon':
                    for o in s[1:]:
                        rop(o)
                elif s[0] in ('live', 'dead'):
                    d.add(s[1])
            t = blk['t']
            if t[0] == 'switch':
                rop(t[1])
            elif t[0] == 'call':
                rop(t[1])
                for o in t[2]:
                    rop(o)
                wplace(t[3])
            elif t[0] == 'assert':
                rop(t[1])
                for o in t[4]:
                    rop(o)
            elif t[0] == 'drop':
                pass
            elif t[0] == 'ret':
                us(0)
            use.append(u)
            de.append(d)
        live_in = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for x in reversed(b.rpo):
                o = set()
                for y in b.succ[x]:
                    o |= live_in[y]
                nw = use[x] | (o - de[x])
                if nw != live_in[x]:
                    live_in[x] = nw
                    ch = True
        b.live_in = live_in
        b.addr = addr
        b.kills = {}
        for x in b.rpo:
            for y in b.succ[x]:
                b.kills[(x, y)] = tuple((live_in[x] | de[x] | use[x]) - live_in[y] - addr)
        return b

    # ---- constants
    def const(self, c):
        k = c[0]
        if k == 'i':
            ty = self.T[c[2]]
            if ty['k'] == 'bool':
                return B(int(c[1]))
            return I(int(c[1]))
        if k == 'f':
            return fl(('c', c[1]))
        if k == 'bytes':
            o = OBJ('k', SeqLit([I(x) for x in c[1]], self.U8))
            t = self.T[c[2]]
            if t['k'] in ('ref', 'ptr') and self.T[t['e']]['k'] == 'array':
                return Ref(o)
            return SRef(o, (), ZERO, I(len(c[1])))
        if k == 'slice':
            ety = self.T[self.T[c[2]]['e']].get('e', self.U8)
            o = OBJ('k', SeqLit([self.const(x) for x in c[1]], ety))
            return SRef(o, (), ZERO, I(len(c[1])))
        if k == 'arr':
            return SeqLit([self.const(x) for x in c[1]], self.T[c[2]]['e'])
        if k == 'ref':
            return Ref(OBJ('k', self.const(c[1])))
        if k == 'adt':
            ty = self.T[c[3]]
            if ty['k'] == 'enum':
                return self.mkenum(c[3], c[1], [self.const(x) for x in c[2]])
            if self.seq_elem(c[3]) is not None:
                return SeqLit((), self.seq_elem(c[3]))
            return Struct(c[3], [self.const(x) for x in c[2]])
        if k == 'fn':
            return Fn(c[1])
        if k == 'zst':
            t = self.T[c[1]]
            if t['k'] == 'fndef':
                return Fn(t['fn'])
            if t['k'] in ('struct', 'tuple', 'closure'):
                return Struct(c[1], [self.const(['zst', x]) for x in self.field_tys(c[1])])
            if t['k'] == 'array':
                return SeqLit((), t['e'])
            return Zst(c[1])
        return None


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []
