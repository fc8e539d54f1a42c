"""Joint queries and navigation."""
from .simple import *
from ..interp_base import OBJ
from .frames import check_spec
from ..models import bseq

NSEEN = OBJ('g', 'jseen')      # has the chosen joint been visited
LASTJ = OBJ('g', 'jlast')      # position of the joint visited last


def jslice(ctx, ip, st, v, *names):
    """the joint array behind a view"""
    x = ctx.fld(st, ip, v, *names)
    return seqval(ip, st, x) if x is not TOP else None


def child_of(ctx, ip, st, d, p):
    """condition: the joint data d is a child of joint number p; None if not known"""
    e = ctx.W.expand(d) if d.k == 'sym' else d
    if e.k != 'agg':
        return None
    W = ctx.W
    vi = variants(W, e.a[0]).index('Child')
    isc = eq0(sub(e.a[1], I(W.sdisc(e.a[0], vi))))
    for i, fs in e.a[2]:
        if i == vi:
            pr = fs[[n for n, _ in W.T[e.a[0]]['v'][vi]['f']].index('private')]
            pi = ctx.fld(st, ip, pr, 'parent_index')
            return band(isc, eq0(sub(pi, p)))
    return B(False)


def int_parts(W, v, depth=0, out=None):
    """the integers a value holds directly"""
    out = [] if out is None else out
    if v.k == 'sym':
        v = W.expand(v)
    if v.k == 'lin':
        out.append(v)
    elif v.k == 'agg' and depth < 4:
        for _, fs in v.a[2]:
            for x in fs:
                int_parts(W, x, depth + 1, out)
    return out


GREL = lambda n, w: OBJ('g', 'jrel', n, w)


def m_before(ip, st, fx, f, args, site, dty, line):
    """the iterator is about to be asked for the next joint: distinguish whether the chosen position lies before, at
    or after each position the iterator holds"""
    out = [st]
    moving = [x for x in int_parts(ip.W, ip.deref(st, args[0])) if any(a.a[0][0] in ('phi', 'fresh') for a, _ in x.a[1]) or not x.a[1]]
    for n, x in enumerate(moving[:2]):
        nxt = []
        for s in out:
            for w, c in enumerate((ge0(sub(sub(T, x), ONE)), eq0(sub(T, x)), ge0(sub(sub(x, T), ONE)))):
                z = ip.assuming(s, c)
                if z is not None:
                    for k in range(3):
                        z.mem[GREL(n, k)] = B(k == w)
                    nxt.append(z)
        out = nxt
    return [(s, ip.W.unit()) for s in out]


def m_nothing(ip, st, fx, f, args, site, dty, line):
    return ip.W.unit()


def forget(st):
    for n in range(3):
        for k in range(3):
            st.mem.pop(GREL(n, k), None)


T = lin_atom(('s', 'target'), 0, 2 ** 60)


def j02(ctx, rep):
    """Children: for an arbitrary joint and an arbitrarily chosen child of it, every walk over the children visits
    only joints whose parent it is, at increasing positions, and ends having visited the chosen one.  Parent: the
    joint at the stored parent position.  Panic sites on the way are discharged."""
    SKOLEM.add(T.a[1][0][0])
    for case in ('a chosen child', 'no assumption'):
        box = {}

        def setup(c, ip, st, args, case=case, box=box):
            idx = c.fld(st, ip, args[0], 'index')
            J = jslice(c, ip, st, args[0], 'joints')
            box['idx'], box['J'] = idx, J
            st.f.assume(ge0(sub(sub(J.a[1], idx), ONE)))
            st.mem[LASTJ] = I(-1)
            st.mem[NSEEN] = B(case != 'a chosen child')
            if case == 'a chosen child':
                st.f.assume(ge0(sub(sub(J.a[1], T), ONE)))
                st.f.assume(child_of(c, ip, st, ip.seq_get(st, J, T), idx))

        def m_joint(ip, st, fx, f, args, site, dty, line, box=box):
            j = args[1]
            unit = ip.W.unit()
            i = ctx.fld(st, ip, j, 'index')
            J = jslice(ctx, ip, st, j, 'joints')
            ip.oblige('spec', st, fx, line, 'a child is a view of the same skeleton', J is not None and ip.seq_eq(st, J, st.f.norm(box['J'])))
            ip.oblige('spec', st, fx, line, 'a child is within the skeleton', ge0(sub(sub(box['J'].a[1], i), ONE)))
            ip.oblige('spec', st, fx, line, 'children come in order, each once', ge0(sub(sub(i, ip.load(st, LASTJ)), ONE)))
            if case == 'no assumption':
                ip.oblige('spec', st, fx, line, 'a child has the joint as its parent',
                          child_of(ctx, ip, st, ip.seq_get(st, st.f.norm(box['J']), i), box['idx']))
            st.mem[LASTJ] = i
            forget(st)
            if st.mem[NSEEN] is B(True):
                return unit
            a, b = ip.assuming(st, eq0(sub(i, T))), ip.assuming(st, bnot(eq0(sub(i, T))))
            out = []
            if a is not None:
                a.mem[NSEEN] = B(True)
                out.append((a, unit))
            if b is not None:
                out.append((b, unit))
            return out

        def h_end(ip, st, fx, f, args, line):
            ip.oblige('spec', st, fx, line, 'every child is visited', st.mem[NSEEN] is B(True))
        KEEP_OR[0] = case == 'no assumption'
        sp = {'bvh_roots::see_joint': m_joint, 'bvh_roots::before_joint': m_before if case != 'no assumption' else m_nothing}
        r = ctx.analyse('root_walk_children', setup, hooks={'bvh_roots::see_joints_end': h_end}, special=sp)
        KEEP_OR[0] = False
        g = check_spec(rep, r, case)
        rep.count('child walks')
        rep.ob('walk|%s|all observed' % case, len(g) >= 4, str(sorted(g)), [r.giveup] if r.giveup else ())
        check_panics(rep, r)
    for r, st, v, d, J, idx, lim in each_joint(ctx, rep, 'root_joint_parent'):
        vn, fs = ctx.variant(st, v)
        kind, df = d
        if kind == 'Root':
            rep.ob('parent|the root has none', vn == 'None', 'gives %s' % vn, lim)
        else:
            good = vn == 'Some' and same(st, ctx.fld(st, r.ip, fs[0], 'index'), ctx.fld(st, r.ip, df['private'], 'parent_index'))
            rep.ob('parent|of a child is the joint at the stored position', good, '', lim)
            if vn == 'Some':
                K = jslice(ctx, r.ip, st, fs[0], 'joints')
                rep.ob('parent|is a view of the same skeleton', K is not None and r.ip.seq_eq(st, K, st.f.norm(J)), '', lim)
    rep.floor('child walks', 2)
    rep.floor('root_joint_parent', 2)


def each_joint(ctx, rep, root):
    """runs an accessor on an arbitrary joint view of each kind; yields its return paths"""
    W = ctx.W
    for kind in ('Root', 'Child'):
        box = {}

        def setup(c, ip, st, args, kind=kind, box=box):
            idx = c.fld(st, ip, args[0], 'index')
            J = jslice(c, ip, st, args[0], 'joints')
            st.f.assume(ge0(sub(sub(J.a[1], idx), ONE)))
            d = W.expand(ip.seq_get(st, J, idx))
            vi = variants(W, d.a[0]).index(kind)
            st.f.assume(eq0(sub(d.a[1], I(W.sdisc(d.a[0], vi)))))
            names = [n for n, _ in W.T[d.a[0]]['v'][vi]['f']]
            box['J'], box['idx'] = J, idx
            box['d'] = (kind, dict(zip(names, [f for i, f in d.a[2] if i == vi][0])))
        r = ctx.analyse(root, setup, cache=False)
        check_panics(rep, r)
        lim = r.limits()
        for st, v in r.rets:
            rep.count(root)
            yield r, st, v, box['d'], box['J'], box['idx'], lim


def bytes_of(ctx, r, st, v):
    """the sequence a field holds, through wrappers"""
    for _ in range(4):
        if v.k == 'seq':
            return v
        if v.k == 'sym':
            v = ctx.W.expand(v)
        if v.k == 'agg' and v.a[2] and v.a[2][0][1]:
            v = v.a[2][0][1][0]
        else:
            break
    return v if v.k == 'seq' else None


def seq_same(r, st, a, b):
    return a is not None and b is not None and bool(r.ip.seq_eq(st, st.f.norm(a), st.f.norm(b)))


def j01(ctx, rep):
    """Walk: the n-th joint visited is joint n of the object, and the walk ends after the last.  Lookup: a result
    carries the name asked for and does not come after an arbitrarily chosen joint of that name; with such a joint
    there is a result.  Accessors: for a joint of either kind, the field of that name of the joint at the view's
    position."""
    W = ctx.W
    box = {}

    def setup(c, ip, st, args):
        box['J'] = c.fld(st, ip, args[0], 'joints')

    def h_joint(ip, st, fx, f, args, line):
        n, j = args[0], args[1]
        i = ctx.fld(st, ip, j, 'index')
        J = jslice(ctx, ip, st, j, 'joints')
        ip.oblige('spec', st, fx, line, 'joints come in order, each once', eq0(sub(i, n)))
        ip.oblige('spec', st, fx, line, 'a joint is a view of the object', J is not None and ip.seq_eq(st, J, st.f.norm(box['J'])))

    def h_end(ip, st, fx, f, args, line):
        ip.oblige('spec', st, fx, line, 'every joint is visited', eq0(sub(args[0], box['J'].a[1])))
    r = ctx.analyse('root_walk_joints', setup, hooks={'bvh_roots::see_joint': h_joint, 'bvh_roots::see_joints_end': h_end},
                    special={'bvh_roots::before_joint': m_nothing})
    g = check_spec(rep, r, 'all')
    rep.ob('walk|all observed', len(g) >= 3, str(sorted(g)), [r.giveup] if r.giveup else ())
    check_panics(rep, r)

    def named(ip, st, J, i, n):
        """condition: joint i is called n (for both kinds of joint)"""
        d = W.expand(ip.seq_get(st, J, i))
        out = []
        for vi, fs in d.a[2]:
            names = [m for m, _ in W.T[d.a[0]]['v'][vi]['f']]
            b = bytes_of(ctx, None, st, fs[names.index('name')])
            out.append((eq0(sub(d.a[1], I(W.sdisc(d.a[0], vi)))), bseq(ip, st, b, n)))
        return out

    SKOLEM.add(T.a[1][0][0])
    for case in ('none', 'Root', 'Child'):
        def setup(c, ip, st, args, case=case):
            J = c.fld(st, ip, args[0], 'joints')
            box['J'] = J
            if case != 'none':
                st.f.assume(ge0(sub(sub(J.a[1], T), ONE)))
                isv, nm = named(ip, st, J, T, seqval(ip, st, args[1]))[case == 'Child']
                st.f.assume(isv)
                st.f.assume(nm)
        r = ctx.analyse('root_find_joint', setup, cache=False)
        check_panics(rep, r)
        lim = r.limits()
        for st, v in r.rets:
            rep.count('lookups')
            vn, fs = ctx.variant(st, v)
            if vn == 'Some':
                i = ctx.fld(st, r.ip, fs[0], 'index')
                if case == 'none':
                    J = jslice(ctx, r.ip, st, fs[0], 'joints')
                    rep.ob('lookup|the result is a joint of the object', seq_same(r, st, J, box['J']), '', lim)
                    ok = any(st.f.ent(a) is True and st.f.ent(b) is True
                             for a, b in named(r.ip, st, st.f.norm(box['J']), i, seqval(r.ip, st, r.args[1])))
                    rep.ob('lookup|the result has the name asked for', ok, '', lim)
                else:
                    rep.ob('lookup|the result is the first of that name|%s' % case, st.f.ent(ge0(sub(T, i))) is True, '', lim)
            else:
                rep.ob('lookup|a joint of that name is found|%s' % case, case == 'none' and vn == 'None', '', lim)
    for root, what in (('root_joint_name', 'name'), ('root_joint_channels', 'channels')):
        for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, root):
            s = seqval(r.ip, st, v)
            rep.ob('%s|%s' % (what, kind), seq_same(r, st, s, bytes_of(ctx, r, st, df[what])), show(v)[:200], lim)
    for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, 'root_joint_offset'):
        rep.ob('offset|%s' % kind, same_value(ctx, r, st, target(r.ip, st, v), df['offset']), show(v)[:200], lim)
    for root in ('root_joint_end_site', 'root_joint_has_end_site'):
        for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, root):
            if kind == 'Root' and 'end_site_offset' not in df:
                want = None
            else:
                e = W.expand(df['end_site_offset']) if df['end_site_offset'].k == 'sym' else df['end_site_offset']
                want = 'Some' if st.f.ent(eq0(sub(e.a[1], ONE))) is True else 'None' if st.f.ent(eq0(e.a[1])) is True else '?'
            if root == 'root_joint_has_end_site':
                rep.ob('has_end_site|%s' % kind, st.f.ent(v) is (want == 'Some') and want != '?', show(v)[:200], lim)
            else:
                vn, fs = ctx.variant(st, v)
                rep.ob('end_site|%s|present as stored' % kind, vn == (want or 'None'), '%s, stored %s' % (vn, want), lim)
                if vn == 'Some' and want == 'Some':
                    inner = [f for i, f in e.a[2] if f][0][0]
                    rep.ob('end_site|%s|the stored one' % kind, same_value(ctx, r, st, target(r.ip, st, fs[0]), inner), '', lim)
    for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, 'root_joint_index'):
        rep.ob('index|%s' % kind, same(st, v, idx), show(v)[:200], lim)
    for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, 'root_joint_parent_index'):
        vn, fs = ctx.variant(st, v)
        if kind == 'Root':
            rep.ob('parent_index|Root', vn == 'None', show(v)[:200], lim)
        else:
            rep.ob('parent_index|Child', vn == 'Some' and same(st, fs[0], ctx.fld(st, r.ip, df['private'], 'parent_index')), show(v)[:200], lim)
    for root, k in (('root_joint_is_root', 'Root'), ('root_joint_is_child', 'Child')):
        for r, st, v, (kind, df), J, idx, lim in each_joint(ctx, rep, root):
            rep.ob('%s|%s' % (root, kind), st.f.ent(v) is (kind == k), show(v)[:200], lim)
    rep.floor('lookups', 4)
    for n in ('name', 'channels', 'offset', 'end_site', 'has_end_site', 'index', 'parent_index', 'is_root', 'is_child'):
        rep.floor('root_joint_' + n, 2)


def same_value(ctx, r, st, a, b):
    """equal values, looking through sequences"""
    if same(st, a, b):
        return True
    x, y = bytes_of(ctx, r, st, a), bytes_of(ctx, r, st, b)
    return seq_same(r, st, x, y)


PROPS = {'J01': j01, 'J02': j02}
