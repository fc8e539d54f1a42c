"""Compile-time witnesses and crate inventory: what no program can do with the library, and what it does not contain."""
import glob
import json
import os
import subprocess
import tempfile

from .. import build

BORROW = {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0515', 'E0716', 'E0713', 'E0503', 'E0521', 'E0594', 'E0596'}
MOVED = {'E0382', 'E0505', 'E0507'}
BOUND = {'E0277', 'E0599'}

HEAD = '''#![allow(unused, dead_code)]
extern crate bvh_anim;
use bvh_anim::{frames::*, joint::*, Bvh, Channel, ChannelType, Joint, JointMut, Joints, JointsMut};
use std::time::Duration;
fn keep<T>(_: &T) {}
fn need_clone<T: Clone>() {}
fn need_copy<T: Copy>() {}
fn threads<T: Send + Sync>() {}
'''

# name -> (expression giving a view of the object `b`, exclusive?)
VIEWS = [
    ('frames', 'b.frames()', False), ('frame of frames', 'b.frames().next()', False),
    ('last frame of frames', 'b.frames().next_back()', False),
    ('values of a frame', 'b.frames().next().unwrap().as_slice().len()', None),
    ('joints', 'b.joints()', False), ('joint', 'b.joints().next()', False), ('root joint', 'b.root_joint()', False),
    ('joint by name', 'b.joints().find_by_name("x")', False), ('frame time', 'b.frame_time()', False),
    ('frames_mut', 'b.frames_mut()', True), ('frame of frames_mut', 'b.frames_mut().next()', True),
    ('last frame of frames_mut', 'b.frames_mut().next_back()', True),
    ('nth frame of frames_mut', 'b.frames_mut().nth(1)', True),
    ('joints_mut', 'b.joints_mut()', True), ('joint of joints_mut', 'b.joints_mut().next()', True),
    ('cursor', 'b.frame_cursor()', True), ('cursor from a reference', 'FrameCursor::from(&mut b)', True),
    ('frames of a cursor', 'b.frame_cursor().into_frames()', True),
    ('frames_mut of a cursor', 'b.frame_cursor().into_frames_mut()', True),
    ('frames converted from a cursor', 'Frames::from(b.frame_cursor())', True),
    ('frames_mut converted from a cursor', 'FramesMut::from(b.frame_cursor())', True),
    ('frame of frames_mut of a cursor', 'b.frame_cursor().into_frames_mut().next()', True),
]
USES_SHARED = [('reading frames', 'keep(&b.frames())'), ('reading the channel count', 'keep(&b.num_channels())'),
               ('reading joints', 'keep(&b.joints())'), ('comparing', 'keep(&(b == Bvh::new()))')]
USES_EXCL = [('setting the frame time', 'b.set_frame_time(Duration::from_secs(1))'), ('mutable frames', 'keep(&b.frames_mut())'),
             ('a cursor', 'keep(&b.frame_cursor())'), ('mutable joints', 'keep(&b.joints_mut())'),
             ('taking the values', 'keep(&b.extract_frames())')]
ENDS = [('moving the object away', 'drop(b)'), ('replacing the object', 'b = Bvh::new()')]

# name, set-up, view, conflicting use
INNER = [
    ('peeked frame, then removal', 'let mut c = b.frame_cursor();', 'c.peek_next()', 'keep(&c.remove_frame().is_ok())'),
    ('peeked previous frame, then removal', 'let mut c = b.frame_cursor();', 'c.peek_prev()', 'keep(&c.remove_all_frames().len())'),
    ('peeked frame, then insertion', 'let mut c = b.frame_cursor();', 'c.peek_next()', 'keep(&c.try_insert_frame(&vec![1.0f32]).is_ok())'),
    ('surrounding frames, then a move', 'let mut c = b.frame_cursor();', 'c.surrounding_frames()', 'keep(&c.move_next().index())'),
    ('peeked mutable frame, then a peek', 'let mut c = b.frame_cursor();', 'c.peek_next_mut()', 'keep(&c.peek_next().is_some())'),
    ('peeked mutable previous frame, then a peek', 'let mut c = b.frame_cursor();', 'c.peek_prev_mut()', 'keep(&c.peek_next_mut().is_some())'),
    ('two mutable peeks', 'let mut c = b.frame_cursor();', 'c.peek_next_mut()', 'keep(&c.peek_next_mut().is_some())'),
    ('inserting returns the cursor itself', 'let mut c = b.frame_cursor();', 'c.try_insert_frame(&vec![1.0f32])', 'keep(&c.index())'),
    ('slice of a mutable frame, then a change', 'let mut f = b.frames_mut().next().unwrap();', 'f.as_slice()', 'f.as_mut_slice()[0] = 1.0'),
    ('mutable slice of a frame, then reading', 'let mut f = b.frames_mut().next().unwrap();', 'f.as_mut_slice()', 'keep(&f.as_slice()[0])'),
    ('two mutable slices', 'let mut f = b.frames_mut().next().unwrap();', 'f.as_mut_slice()', 'keep(&f.as_mut_slice()[0])'),
    ('value of a mutable frame, then a change', 'let mut f = b.frames_mut().next().unwrap();', 'f.get(0)', 'keep(&f.try_set_motion(0, 1.0).is_ok())'),
    ('indexed value of a mutable frame, then a change', 'let mut f = b.frames_mut().next().unwrap();', '&f[0]', 'f[0] = 1.0'),
    ('shared view of a mutable frame, then a change', 'let mut f = b.frames_mut().next().unwrap();', 'AsRef::<[f32]>::as_ref(&f)', 'f[0] = 1.0'),
    ('borrowed view of a mutable frame, then a change', 'let mut f = b.frames_mut().next().unwrap();', 'std::borrow::Borrow::<[f32]>::borrow(&f)', 'f[0] = 1.0'),
    ('exclusive view of a mutable frame, then reading', 'let mut f = b.frames_mut().next().unwrap();', 'AsMut::<[f32]>::as_mut(&mut f)', 'keep(&f[0])'),
    ('borrowed exclusive view of a mutable frame, then reading', 'let mut f = b.frames_mut().next().unwrap();', 'std::borrow::BorrowMut::<[f32]>::borrow_mut(&mut f)', 'keep(&f[0])'),
    ('mutable frame outlives its iterator being used as shared', 'let mut m = b.frames_mut();', 'm.next()', 'keep(&b.num_frames())'),
    ('name of a joint, after the object moved', 'let j = b.joints().next().unwrap();', 'j.name()', 'drop(b)'),
    ('children of a joint, after the object moved', 'let j = b.joints().next().unwrap();', 'j.children()', 'drop(b)'),
    ('parent of a joint, after the object moved', 'let j = b.joints().next().unwrap();', 'j.parent()', 'drop(b)'),
    ('channels of a joint, after the object moved', 'let j = b.joints().next().unwrap();', 'j.channels()', 'drop(b)'),
    ('name of a joint, then mutation', 'let j = b.joints().next().unwrap();', 'j.name()', 'keep(&b.frames_mut())'),
    ('values of a frame, after the object moved', 'let f = b.frames().next().unwrap();', 'f.as_slice()', 'drop(b)'),
    ('value of a frame, then mutation', 'let f = b.frames().next().unwrap();', '&f[0]', 'keep(&b.frames_mut())'),
]
# statements that use something after it has been given away
GIVEN = [
    ('cursor used after becoming frames', 'let c = b.frame_cursor();', 'c.into_frames()', 'keep(&c.len())'),
    ('cursor used after becoming mutable frames', 'let c = b.frame_cursor();', 'c.into_frames_mut()', 'keep(&c.len())'),
    ('mutable frame used after becoming shared', 'let mut f = b.frames_mut().next().unwrap();', 'Frame::from(f)', 'keep(&f.len())'),
]
NOT_COPIED = [('FrameMut', "FrameMut<'static>"), ('FramesMut', "FramesMut<'static>"), ('FrameCursor', "FrameCursor<'static>")]
ESCAPES = [
    ('frames', "fn e() -> Frames<'static> { let mut b = Bvh::new(); b.frames() }", "fn e(b: &mut Bvh) -> Frames<'_> { b.frames() }"),
    ('mutable frames', "fn e() -> FramesMut<'static> { let mut b = Bvh::new(); b.frames_mut() }", "fn e(b: &mut Bvh) -> FramesMut<'_> { b.frames_mut() }"),
    ('cursor', "fn e() -> FrameCursor<'static> { let mut b = Bvh::new(); b.frame_cursor() }", "fn e(b: &mut Bvh) -> FrameCursor<'_> { b.frame_cursor() }"),
    ('joints', "fn e() -> Joints<'static> { let mut b = Bvh::new(); b.joints() }", "fn e(b: &mut Bvh) -> Joints<'_> { b.joints() }"),
    ('mutable joints', "fn e() -> JointsMut<'static> { let mut b = Bvh::new(); b.joints_mut() }", "fn e(b: &mut Bvh) -> JointsMut<'_> { b.joints_mut() }"),
    ('root joint', "fn e() -> Option<Joint<'static>> { let mut b = Bvh::new(); b.root_joint() }", "fn e(b: &mut Bvh) -> Option<Joint<'_>> { b.root_joint() }"),
    ('frame', "fn e() -> Option<Frame<'static>> { let mut b = Bvh::new(); b.frames().next() }", "fn e(b: &mut Bvh) -> Option<Frame<'_>> { b.frames().next() }"),
    ('mutable frame', "fn e() -> Option<FrameMut<'static>> { let mut b = Bvh::new(); b.frames_mut().next() }", "fn e(b: &mut Bvh) -> Option<FrameMut<'_>> { b.frames_mut().next() }"),
    ('mutable frames of a cursor', "fn e() -> FramesMut<'static> { let mut b = Bvh::new(); b.frame_cursor().into_frames_mut() }", "fn e(b: &mut Bvh) -> FramesMut<'_> { b.frame_cursor().into_frames_mut() }"),
]


def witnesses():
    """[(key, error codes, bad function, good twin)], each function on one line"""
    out = []

    def w(key, codes, pre, view, use):
        out.append((key, codes, 'fn w(mut b: Bvh) { %s let v = %s; %s; keep(&v); }' % (pre, view, use),
                    'fn w(mut b: Bvh) { %s let v = %s; keep(&v); drop(v); %s; }' % (pre, view, use)))
    for n, v, ex in VIEWS:
        if ex is None:
            continue
        for m, u in (USES_SHARED if ex else []) + USES_EXCL + ENDS:
            w('%s|%s' % (n, m), BORROW, '', v, u)
    for n, p, v, u in INNER:
        out.append((n, BORROW, 'fn w(mut b: Bvh) { %s let v = %s; %s; keep(&v); }' % (p, v, u),
                    'fn w(mut b: Bvh) { %s { let v = %s; keep(&v); } %s; }' % (p, v, u)))
    for n, p, v, u in GIVEN:
        out.append((n, MOVED, 'fn w(mut b: Bvh) { %s let v = %s; %s; }' % (p, v, u), 'fn w(mut b: Bvh) { %s %s; let v = %s; }' % (p, u, v)))
    for n, bad, good in ESCAPES:
        out.append(('escape of %s' % n, BORROW, bad.replace('fn e', 'fn w'), good.replace('fn e', 'fn w')))
    return out


def typed():
    out = []
    for n, t in NOT_COPIED:
        out.append(('%s is not duplicable' % n, BOUND, 'fn w() { need_clone::<%s>(); }' % t, 'fn w() { keep::<Option<%s>>(&None); }' % t))
        out.append(('%s is not copyable' % n, BOUND, 'fn w() { need_copy::<%s>(); }' % t, 'fn w() { keep::<Option<%s>>(&None); }' % t))
    return out


THREADS = ['Bvh', 'Channel', 'ChannelType', 'bvh_anim::Axis', "Frame<'static>", "FrameMut<'static>", "Frames<'static>",
           "FramesMut<'static>", "FrameCursor<'static>", "Joint<'static>", "Joints<'static>", "JointMut<'static>", "JointsMut<'static>",
           'bvh_anim::errors::LoadError', 'bvh_anim::write::WriteOptions']


def compile_all(lib, funcs):
    """compiles all functions in one crate; -> {function number: set of error codes}, {-1: …} for errors elsewhere"""
    src = HEAD
    base = src.count('\n') + 1
    for n, f in enumerate(funcs):
        src += f.replace('fn w(', 'fn w%d(' % n, 1) + '\n'
    d = tempfile.mkdtemp(prefix='bvhw')
    try:
        p = os.path.join(d, 'w.rs')
        with open(p, 'w') as f:
            f.write(src)
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--error-format', 'json',
               '--out-dir', d, '--extern', 'bvh_anim=' + lib]
        for x in sorted(glob.glob(os.path.join(build.TGT, 'roots', 'debug', 'build', '*', '*', 'out'))):
            cmd += ['-L', 'dependency=' + x]
        cmd += ['-L', 'dependency=' + os.path.join(build.TGT, 'roots', 'debug', 'deps'), p]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.env_base())
        out = {}
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') != 'error':
                continue
            sp = [s for s in m['spans'] if s['is_primary']]
            n = sp[0]['line_start'] - base if sp else -1
            if not sp and 'aborting' in m['message']:
                continue
            code = (m.get('code') or {}).get('code') or m['message']
            out.setdefault(n if 0 <= n < len(funcs) else -1, set()).add(code)
        if r.returncode and not out:
            out[-1] = {r.stderr[-500:]}
        return out
    finally:
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)


def lib():
    c = glob.glob(os.path.join(build.TGT, 'roots', '**', 'libbvh_anim-*.rmeta'), recursive=True)
    return max(c, key=os.path.getmtime) if c else None


def a01(ctx, rep):
    """Borrow-checker witnesses: for each public way to obtain a view and each conflicting use, the program that keeps
    the view across the use must not compile, for an ownership or borrowing reason, and its twin that ends the view
    first must.  As borrow checking looks at signatures only, each rejected program stands for all programs using those
    two signatures.  Together with the absence of unsafe code, which alone could void the signatures."""
    p = lib()
    rep.ob('library metadata found', p is not None)
    if p is None:
        return
    for ws in (witnesses(), typed()):
        good = compile_all(p, [g for _, _, _, g in ws])
        bad = compile_all(p, [b for _, _, b, _ in ws])
        for n, (key, codes, b, g) in enumerate(ws):
            rep.count('witness pairs')
            t = good.get(n, set()) | good.get(-1, set())
            rep.ob('%s|twin compiles' % key, not t, 'accepted use is rejected: %s' % sorted(t))
            e = bad.get(n, set())
            rep.ob('%s|rejected' % key, bool(e & codes), 'conflicting use gives %s' % (sorted(e) or 'no error'))
    rep.floor('witness pairs', 150)
    unsafe_free(rep)


a01.technique = 'compile-fail witnesses (rejected program and accepted twin per signature) decided by the borrow checker, and an audit of the checked syntax tree'


def unsafe_free(rep):
    a = build.audit()
    rep.count('function bodies audited', a['bodies'])
    rep.count('items audited', a['items'])
    rep.floor('function bodies audited', 100)
    rep.ob('no unsafe code or global state found', True)
    for x in a['found']:
        rep.ob('%s|%s' % (x['kind'], x['in']), False, 'at %s' % x['at'])


def a02(ctx, rep):
    """Audit of the crate's checked syntax tree after macro expansion: no unsafe block, function, trait or impl, no foreign
    item, no `static mut` and no static whose type has interior mutability; and every public data type is Send and
    Sync, witnessed by instantiating a bounded function with it."""
    unsafe_free(rep)
    p = lib()
    r = compile_all(p, ['fn w() { threads::<%s>(); }' % t for t in THREADS])
    for n, t in enumerate(THREADS):
        rep.count('types checked for Send and Sync')
        e = r.get(n, set()) | r.get(-1, set())
        rep.ob('Send and Sync|%s' % t, not e, str(sorted(e)))
    rep.floor('types checked for Send and Sync', 15)


a02.technique = 'audit of the checked syntax tree of the crate (unsafe code, statics) and trait-bound witnesses'

PROPS = {'A01': a01, 'A02': a02}
