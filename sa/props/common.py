"""Shared pieces of the property specifications."""
from ..terms import *
from ..run import *
from ..models import seqval, view, content

FMAX = 2 ** 59     # no more values than fit in the address space


def root_ref(ctx, ip, st, v):
    """the Bvh object behind a value holding a reference to it"""
    return ctx.fld(st, ip, v)


def nframes(root):
    return lin_atom(('s', ('F', root)), 0, FMAX)


def assume_bvh(ctx, ip, st, bref, root, zero):
    """the data invariant of a Bvh: motion values are a whole number F of frames of C channels (no frames exist
    when there are no channels)"""
    C = ctx.fld(st, ip, bref, 'num_channels')
    mv = ctx.fld(st, ip, bref, 'motion_values')
    F = nframes(root)
    if zero:
        st.f.assume(eq0(C))
        st.f.assume(eq0(F))
        st.f.assume(eq0(mv.a[1]))
    else:
        st.f.assume(ge0(sub(C, ONE)))
        st.f.assume(ge0(sub(I(FMAX), C)))
        st.f.assume(eq0(sub(mv.a[1], mul(F, C))))
        st.f.assume(ge0(sub(I(FMAX), mul(F, C))))
    return C, F


def cursor_setup(zero):
    def setup(ctx, ip, st, args):
        root = None
        cur = args[0]
        b = ctx.fld(st, ip, cur, 'bvh')
        C, F = assume_bvh(ctx, ip, st, b, 'cur', zero)
        i = ctx.fld(st, ip, cur, 'index')
        st.f.assume(ge0(sub(F, i)))
    return setup


CUR_POS = cursor_setup(False)
CUR_ZERO = cursor_setup(True)


def bvh_setup(zero, root='bvh'):
    def setup(ctx, ip, st, args):
        assume_bvh(ctx, ip, st, args[0], root, zero)
    return setup


BVH_POS = bvh_setup(False)
BVH_ZERO = bvh_setup(True)


class Cur:
    """observed cursor state"""
    def __init__(self, ctx, run, st):
        ip = run.ip
        cur = run.args[0]
        self.C = ctx.fld(st, ip, cur, 'bvh', 'num_channels')
        self.mv = ctx.fld(st, ip, cur, 'bvh', 'motion_values')
        self.i = ctx.fld(st, ip, cur, 'index')


def eqv(st, a, b):
    if a.k != 'lin' or b.k != 'lin':
        return None
    return st.f.ent(eq0(sub(a, b)))


def whole(st, mv, C):
    """number of whole frames in mv, or None"""
    if mv.k != 'seq' or C.k != 'lin':
        return None
    L, C = st.f.norm(mv.a[1]), st.f.norm(C)
    if C is ZERO:
        return ZERO if st.f.ent(eq0(L)) else None
    return exact_div(L, C)
