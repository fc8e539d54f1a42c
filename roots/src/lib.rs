//! Analysis harness: one monomorphic `root_*` function per public entry point of bvh_anim.  It is only
//! ever type-checked and lowered to MIR; nothing in it is run.
#![allow(deprecated, non_snake_case)]
use bstr::BStr;
use bvh_anim::errors::*;
use bvh_anim::frames::*;
use bvh_anim::joint::*;
use bvh_anim::write::*;
use bvh_anim::*;
use std::convert::TryFrom;
use std::io::{self, BufRead, Read, Write};
use std::str::FromStr;
use std::time::Duration;

extern "Rust" {
    fn opaque_read(buf: &mut [u8]) -> io::Result<usize>;
    fn opaque_fill() -> io::Result<&'static [u8]>;
    fn opaque_write(buf: &[u8]) -> io::Result<usize>;
    fn opaque_flush() -> io::Result<()>;
    fn opaque_next() -> Option<&'static [f32]>;
    fn opaque_hint() -> (usize, Option<usize>);
    /// an arbitrary decision
    fn opaque_more() -> bool;
    /// observations: the analysis checks the values that reach these calls
    fn see_front(front: usize, back: usize, frame: &[f32]);
    fn see_back(front: usize, back: usize, frame: &[f32]);
    fn see_end(front: usize, back: usize);
    fn see_joint(n: usize, joint: &Joint<'_>);
    fn see_joints_end(n: usize);
    fn before_joint(i: &Joints<'_>);
    fn see_len(front: usize, back: usize, len: usize, hint: (usize, Option<usize>));
}

pub struct OpaqueReader(u8);
impl Read for OpaqueReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        unsafe { opaque_read(buf) }
    }
}
impl BufRead for OpaqueReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        unsafe { opaque_fill() }
    }
    fn consume(&mut self, _: usize) {}
}
pub struct OpaqueWriter(u8);
impl Write for OpaqueWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        unsafe { opaque_write(buf) }
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { opaque_flush() }
    }
}
pub struct OpaqueIter(u8);
impl Iterator for OpaqueIter {
    type Item = &'static [f32];
    fn next(&mut self) -> Option<&'static [f32]> {
        unsafe { opaque_next() }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unsafe { opaque_hint() }
    }
}

// ---- loading ---------------------------------------------------------------------------------
pub fn root_load_reader(r: OpaqueReader) -> Result<Bvh, LoadError> {
    bvh_anim::from_reader(r)
}
pub fn root_load_reader_m(r: OpaqueReader) -> Result<Bvh, LoadError> {
    Bvh::from_reader(r)
}
pub fn root_load_bytes(b: &[u8]) -> Result<Bvh, LoadError> {
    bvh_anim::from_bytes(b)
}
pub fn root_load_bytes_m(b: &[u8]) -> Result<Bvh, LoadError> {
    Bvh::from_bytes(b)
}
pub fn root_load_str(s: &str) -> Result<Bvh, LoadError> {
    bvh_anim::from_str(s)
}
pub fn root_load_fromstr(s: &str) -> Result<Bvh, LoadError> {
    <Bvh as FromStr>::from_str(s)
}
pub fn root_load_try_str(s: &str) -> Result<Bvh, LoadError> {
    Bvh::try_from(s)
}
pub fn root_load_try_bstr(s: &BStr) -> Result<Bvh, LoadError> {
    Bvh::try_from(s)
}
pub fn root_load_try_bytes(s: &[u8]) -> Result<Bvh, LoadError> {
    Bvh::try_from(s)
}

// ---- writing ---------------------------------------------------------------------------------
pub fn root_write(o: &WriteOptions, b: &Bvh, w: &mut OpaqueWriter) -> io::Result<()> {
    o.write(b, w)
}
pub fn root_write_to_string(o: &WriteOptions, b: &Bvh) -> Vec<u8> {
    o.write_to_string(b)
}
pub fn root_bvh_write_to(b: &Bvh, w: &mut OpaqueWriter) -> io::Result<()> {
    b.write_to(w)
}
pub fn root_bvh_to_string(b: &Bvh) -> Vec<u8> {
    b.to_string()
}
pub fn root_wo_new() -> WriteOptions {
    WriteOptions::new()
}
pub fn root_wo_default() -> WriteOptions {
    WriteOptions::default()
}
pub fn root_wo_indent(o: WriteOptions, i: IndentStyle) -> WriteOptions {
    o.with_indent(i)
}
pub fn root_wo_term(o: WriteOptions, t: LineTerminator) -> WriteOptions {
    o.with_line_terminator(t)
}
pub fn root_wo_offset(o: WriteOptions, n: Option<usize>) -> WriteOptions {
    o.with_offset_significant_figures(n)
}
pub fn root_wo_frametime(o: WriteOptions, n: Option<usize>) -> WriteOptions {
    o.with_frame_time_significant_figures(n)
}
pub fn root_wo_motion(o: WriteOptions, n: Option<usize>) -> WriteOptions {
    o.with_motion_values_significant_figures(n)
}
pub fn root_wo_offset_n(o: WriteOptions, n: usize) -> WriteOptions {
    o.with_offset_significant_figures(n)
}
pub fn root_wo_frametime_n(o: WriteOptions, n: usize) -> WriteOptions {
    o.with_frame_time_significant_figures(n)
}
pub fn root_wo_motion_n(o: WriteOptions, n: usize) -> WriteOptions {
    o.with_motion_values_significant_figures(n)
}
pub fn root_indent_spaces(n: usize) -> IndentStyle {
    IndentStyle::with_spaces(n)
}
pub fn root_indent_default() -> IndentStyle {
    IndentStyle::default()
}
pub fn root_lt_native() -> LineTerminator {
    LineTerminator::native()
}
pub fn root_lt_default() -> LineTerminator {
    LineTerminator::default()
}
pub fn root_lt_as_str(t: &LineTerminator) -> &str {
    t.as_str()
}
pub fn root_lt_as_escaped_str(t: &LineTerminator) -> &str {
    t.as_escaped_str()
}
pub fn root_lt_as_bytes(t: &LineTerminator) -> &[u8] {
    t.as_bytes()
}
pub fn root_lt_as_escaped_bytes(t: &LineTerminator) -> &[u8] {
    t.as_escaped_bytes()
}
pub fn root_lt_display(t: &LineTerminator, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(t, f)
}

// ---- Bvh accessors -----------------------------------------------------------------------------
pub fn root_bvh_new() -> Bvh {
    Bvh::new()
}
pub fn root_bvh_default() -> Bvh {
    Bvh::default()
}
pub fn root_bvh_frames(b: &Bvh) -> Frames<'_> {
    b.frames()
}
pub fn root_bvh_frames_mut(b: &mut Bvh) -> FramesMut<'_> {
    b.frames_mut()
}
pub fn root_bvh_extract_frames(b: &mut Bvh) -> Vec<f32> {
    b.extract_frames()
}
pub fn root_bvh_num_frames(b: &Bvh) -> usize {
    b.num_frames()
}
pub fn root_bvh_frames_len(b: &Bvh) -> usize {
    b.frames().len()
}
pub fn root_bvh_num_channels(b: &Bvh) -> usize {
    b.num_channels()
}
pub fn root_bvh_frame_time(b: &Bvh) -> &Duration {
    b.frame_time()
}
pub fn root_bvh_set_frame_time(b: &mut Bvh, d: Duration) {
    b.set_frame_time(d)
}
pub fn root_bvh_frame_cursor(b: &mut Bvh) -> FrameCursor<'_> {
    b.frame_cursor()
}
pub fn root_bvh_root_joint(b: &Bvh) -> Option<Joint<'_>> {
    b.root_joint()
}
pub fn root_bvh_joints(b: &Bvh) -> Joints<'_> {
    b.joints()
}
pub fn root_bvh_joints_mut(b: &mut Bvh) -> JointsMut<'_> {
    b.joints_mut()
}
pub fn root_bvh_clone(b: &Bvh) -> Bvh {
    b.clone()
}

// ---- cursor ------------------------------------------------------------------------------------
pub fn root_cur_index(c: &FrameCursor<'_>) -> usize {
    c.index()
}
pub fn root_cur_len(c: &FrameCursor<'_>) -> usize {
    c.len()
}
pub fn root_cur_num_channels(c: &FrameCursor<'_>) -> usize {
    c.num_channels()
}
pub fn root_cur_move_next(c: &mut FrameCursor<'_>) {
    c.move_next();
}
pub fn root_cur_move_prev(c: &mut FrameCursor<'_>) {
    c.move_prev();
}
pub fn root_cur_move_first(c: &mut FrameCursor<'_>) {
    c.move_first();
}
pub fn root_cur_move_last(c: &mut FrameCursor<'_>) {
    c.move_last();
}
pub fn root_cur_peek_next<'a>(c: &'a FrameCursor<'_>) -> Option<Frame<'a>> {
    c.peek_next()
}
pub fn root_cur_peek_prev<'a>(c: &'a FrameCursor<'_>) -> Option<Frame<'a>> {
    c.peek_prev()
}
pub fn root_cur_peek_next_mut<'a>(c: &'a mut FrameCursor<'_>) -> Option<FrameMut<'a>> {
    c.peek_next_mut()
}
pub fn root_cur_peek_prev_mut<'a>(c: &'a mut FrameCursor<'_>) -> Option<FrameMut<'a>> {
    c.peek_prev_mut()
}
pub fn root_cur_surrounding<'a>(c: &'a FrameCursor<'_>) -> (Option<Frame<'a>>, Option<Frame<'a>>) {
    c.surrounding_frames()
}
pub fn root_cur_insert(c: &mut FrameCursor<'_>, f: &[f32]) -> Result<(), FrameInsertError> {
    c.try_insert_frame(f).map(|_| ())
}
pub fn root_cur_insert_vec(c: &mut FrameCursor<'_>, f: &Vec<f32>) -> Result<(), FrameInsertError> {
    c.try_insert_frame(f).map(|_| ())
}
pub fn root_cur_insert_frame(c: &mut FrameCursor<'_>, f: &Frame<'_>) -> Result<(), FrameInsertError> {
    c.try_insert_frame(f).map(|_| ())
}
pub fn root_cur_insert_many(c: &mut FrameCursor<'_>, f: OpaqueIter) -> Result<(), FrameInsertError> {
    c.try_insert_frames(f).map(|_| ())
}
pub fn root_cur_remove(c: &mut FrameCursor<'_>) -> Result<(), FrameRemoveError> {
    c.remove_frame().map(|_| ())
}
pub fn root_cur_remove_all(c: &mut FrameCursor<'_>) {
    c.remove_all_frames();
}
pub fn root_cur_shrink(c: &mut FrameCursor<'_>) {
    c.shrink_to_fit()
}
pub fn root_cur_into_frames<'b>(c: FrameCursor<'b>) -> Frames<'b> {
    c.into_frames()
}
pub fn root_cur_into_frames_mut<'b>(c: FrameCursor<'b>) -> FramesMut<'b> {
    c.into_frames_mut()
}
pub fn root_cur_frames_from<'b>(c: FrameCursor<'b>) -> Frames<'b> {
    Frames::from(c)
}
pub fn root_cur_frames_mut_from<'b>(c: FrameCursor<'b>) -> FramesMut<'b> {
    FramesMut::from(c)
}
pub fn root_cur_from<'b>(b: &'b mut Bvh) -> FrameCursor<'b> {
    FrameCursor::from(b)
}

// ---- frames ------------------------------------------------------------------------------------
pub fn root_frames_next<'a>(f: &mut Frames<'a>) -> Option<Frame<'a>> {
    f.next()
}
pub fn root_frames_next_back<'a>(f: &mut Frames<'a>) -> Option<Frame<'a>> {
    f.next_back()
}
pub fn root_frames_size_hint(f: &Frames<'_>) -> (usize, Option<usize>) {
    f.size_hint()
}
pub fn root_frames_len(f: &Frames<'_>) -> usize {
    f.len()
}
pub fn root_frames_nth<'a>(f: &mut Frames<'a>, n: usize) -> Option<Frame<'a>> {
    f.nth(n)
}
pub fn root_framesmut_next<'a>(f: &mut FramesMut<'a>) -> Option<FrameMut<'a>> {
    f.next()
}
pub fn root_framesmut_next_back<'a>(f: &mut FramesMut<'a>) -> Option<FrameMut<'a>> {
    f.next_back()
}
pub fn root_framesmut_size_hint(f: &FramesMut<'_>) -> (usize, Option<usize>) {
    f.size_hint()
}
pub fn root_framesmut_len(f: &FramesMut<'_>) -> usize {
    f.len()
}
pub fn root_framesmut_nth<'a>(f: &mut FramesMut<'a>, n: usize) -> Option<FrameMut<'a>> {
    f.nth(n)
}
macro_rules! walk {
    ($name:ident, $b:ident: $t:ty, $make:expr) => {
        pub fn $name($b: $t) {
            let mut it = $make;
            let (mut front, mut back) = (0usize, 0usize);
            unsafe {
                while opaque_more() {
                    see_len(front, back, it.len(), it.size_hint());
                    if opaque_more() {
                        match it.next() {
                            Some(f) => {
                                see_front(front, back, f.as_slice());
                                front += 1;
                            }
                            None => see_end(front, back),
                        }
                    } else {
                        match it.next_back() {
                            Some(f) => {
                                see_back(front, back, f.as_slice());
                                back += 1;
                            }
                            None => see_end(front, back),
                        }
                    }
                }
            }
        }
    };
}
walk!(root_walk_frames, b: &Bvh, b.frames());
walk!(root_walk_frames_mut, b: &mut Bvh, b.frames_mut());
walk!(root_walk_cur_into, c: FrameCursor<'_>, c.into_frames());
walk!(root_walk_cur_into_mut, c: FrameCursor<'_>, c.into_frames_mut());
walk!(root_walk_cur_from, c: FrameCursor<'_>, Frames::from(c));
walk!(root_walk_cur_from_mut, c: FrameCursor<'_>, FramesMut::from(c));
macro_rules! skip {
    ($name:ident, $b:ident: $t:ty, $make:expr) => {
        pub fn $name($b: $t, n: usize) {
            let mut it = $make;
            unsafe {
                match it.nth(n) {
                    Some(f) => see_front(n, 0, f.as_slice()),
                    None => see_end(n, 0),
                }
            }
        }
    };
}
skip!(root_skip_frames, b: &Bvh, b.frames());
skip!(root_skip_frames_mut, b: &mut Bvh, b.frames_mut());
pub fn root_frame_len(f: &Frame<'_>) -> usize {
    f.len()
}
pub fn root_frame_is_empty(f: &Frame<'_>) -> bool {
    f.is_empty()
}
pub fn root_frame_as_slice<'a>(f: &'a Frame<'_>) -> &'a [f32] {
    f.as_slice()
}
pub fn root_frame_as_ref<'a>(f: &'a Frame<'_>) -> &'a [f32] {
    f.as_ref()
}
pub fn root_frame_borrow<'a>(f: &'a Frame<'_>) -> &'a [f32] {
    std::borrow::Borrow::borrow(f)
}
pub fn root_frame_get_usize<'a>(f: &'a Frame<'_>, i: usize) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_frame_get_channel<'a>(f: &'a Frame<'_>, i: Channel) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_frame_get_channel_ref<'a>(f: &'a Frame<'_>, i: &Channel) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_frame_index_usize<'a>(f: &'a Frame<'_>, i: usize) -> &'a f32 {
    &f[i]
}
pub fn root_frame_index_channel<'a>(f: &'a Frame<'_>, i: Channel) -> &'a f32 {
    &f[i]
}
pub fn root_frame_index_channel_ref<'a>(f: &'a Frame<'_>, i: &Channel) -> &'a f32 {
    &f[i]
}
pub fn root_framemut_len(f: &FrameMut<'_>) -> usize {
    f.len()
}
pub fn root_framemut_is_empty(f: &FrameMut<'_>) -> bool {
    f.is_empty()
}
pub fn root_framemut_as_slice<'a>(f: &'a FrameMut<'_>) -> &'a [f32] {
    f.as_slice()
}
pub fn root_framemut_as_ref<'a>(f: &'a FrameMut<'_>) -> &'a [f32] {
    f.as_ref()
}
pub fn root_framemut_borrow<'a>(f: &'a FrameMut<'_>) -> &'a [f32] {
    std::borrow::Borrow::borrow(f)
}
pub fn root_framemut_as_mut_slice<'a>(f: &'a mut FrameMut<'_>) -> &'a mut [f32] {
    f.as_mut_slice()
}
pub fn root_framemut_as_mut<'a>(f: &'a mut FrameMut<'_>) -> &'a mut [f32] {
    f.as_mut()
}
pub fn root_framemut_borrow_mut<'a>(f: &'a mut FrameMut<'_>) -> &'a mut [f32] {
    std::borrow::BorrowMut::borrow_mut(f)
}
pub fn root_framemut_get_usize<'a>(f: &'a FrameMut<'_>, i: usize) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_framemut_get_channel<'a>(f: &'a FrameMut<'_>, i: Channel) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_framemut_get_channel_ref<'a>(f: &'a FrameMut<'_>, i: &Channel) -> Option<&'a f32> {
    f.get(i)
}
pub fn root_framemut_get_mut_usize<'a>(f: &'a mut FrameMut<'a>, i: usize) -> Option<&'a mut f32> {
    f.get_mut(i)
}
pub fn root_framemut_get_mut_channel<'a>(f: &'a mut FrameMut<'a>, i: Channel) -> Option<&'a mut f32> {
    f.get_mut(i)
}
pub fn root_framemut_get_mut_channel_ref<'a>(f: &'a mut FrameMut<'a>, i: &Channel) -> Option<&'a mut f32> {
    f.get_mut(i)
}
pub fn root_framemut_index_usize<'a>(f: &'a FrameMut<'_>, i: usize) -> &'a f32 {
    &f[i]
}
pub fn root_framemut_index_channel<'a>(f: &'a FrameMut<'_>, i: Channel) -> &'a f32 {
    &f[i]
}
pub fn root_framemut_index_channel_ref<'a>(f: &'a FrameMut<'_>, i: &Channel) -> &'a f32 {
    &f[i]
}
pub fn root_framemut_index_mut_usize<'a>(f: &'a mut FrameMut<'_>, i: usize) -> &'a mut f32 {
    &mut f[i]
}
pub fn root_framemut_index_mut_channel<'a>(f: &'a mut FrameMut<'_>, i: Channel) -> &'a mut f32 {
    &mut f[i]
}
pub fn root_framemut_index_mut_channel_ref<'a>(f: &'a mut FrameMut<'_>, i: &Channel) -> &'a mut f32 {
    &mut f[i]
}
pub fn root_framemut_set_usize(f: &mut FrameMut<'_>, i: usize, v: f32) -> Result<f32, SetMotionError> {
    f.try_set_motion(i, v)
}
pub fn root_framemut_set_channel(f: &mut FrameMut<'_>, i: Channel, v: f32) -> Result<f32, SetMotionError> {
    f.try_set_motion(i, v)
}
pub fn root_framemut_set_channel_ref(f: &mut FrameMut<'_>, i: &Channel, v: f32) -> Result<f32, SetMotionError> {
    f.try_set_motion(i, v)
}
pub fn root_frame_from_mut_ref<'a>(f: &'a FrameMut<'a>) -> Frame<'a> {
    Frame::from(f)
}
pub fn root_frame_from_mut<'a>(f: FrameMut<'a>) -> Frame<'a> {
    Frame::from(f)
}

// ---- joints ------------------------------------------------------------------------------------
pub fn root_joints_next<'a>(j: &mut Joints<'a>) -> Option<Joint<'a>> {
    j.next()
}
pub fn root_joints_find<'a>(j: &mut Joints<'a>, n: &[u8]) -> Option<Joint<'a>> {
    j.find_by_name(n)
}
pub fn root_walk_joints(b: &Bvh) {
    let mut it = b.joints();
    let mut n = 0usize;
    unsafe {
        loop {
            before_joint(&it);
            match it.next() {
                Some(j) => see_joint(n, &j),
                None => break,
            }
            n += 1;
        }
        see_joints_end(n);
    }
}
pub fn root_walk_children(j: &Joint<'_>) {
    let mut it = j.children();
    let mut n = 0usize;
    unsafe {
        loop {
            before_joint(&it);
            match it.next() {
                Some(c) => see_joint(n, &c),
                None => break,
            }
            n += 1;
        }
        see_joints_end(n);
    }
}
pub fn root_find_joint<'a>(b: &'a Bvh, n: &[u8]) -> Option<Joint<'a>> {
    b.joints().find_by_name(n)
}
pub fn root_jointsmut_next<'a>(j: &mut JointsMut<'a>) -> Option<JointMut<'a>> {
    j.next()
}
pub fn root_joint_is_root(j: &Joint<'_>) -> bool {
    j.is_root()
}
pub fn root_joint_is_child(j: &Joint<'_>) -> bool {
    j.is_child()
}
pub fn root_joint_name<'a>(j: &'a Joint<'_>) -> &'a [u8] {
    j.name()
}
pub fn root_joint_offset<'a>(j: &'a Joint<'_>) -> &'a Offset {
    j.offset()
}
pub fn root_joint_end_site<'a>(j: &'a Joint<'_>) -> Option<&'a Offset> {
    j.end_site()
}
pub fn root_joint_has_end_site(j: &Joint<'_>) -> bool {
    j.has_end_site()
}
pub fn root_joint_channels<'a>(j: &'a Joint<'_>) -> &'a [Channel] {
    j.channels()
}
pub fn root_joint_index(j: &Joint<'_>) -> usize {
    j.index()
}
pub fn root_joint_parent_index(j: &Joint<'_>) -> Option<usize> {
    j.parent_index()
}
pub fn root_joint_parent<'a>(j: &'a Joint<'_>) -> Option<Joint<'a>> {
    j.parent()
}
pub fn root_joint_children<'a>(j: &'a Joint<'_>) -> Joints<'a> {
    j.children()
}
pub fn root_joint_eq(j: &Joint<'_>, k: &Joint<'_>) -> bool {
    j == k
}

// ---- channels and axes -------------------------------------------------------------------------
pub fn root_ch_type(c: &Channel) -> ChannelType {
    c.channel_type()
}
pub fn root_ch_motion_index(c: &Channel) -> usize {
    c.motion_index()
}
pub fn root_ct_from_bytes(b: &[u8]) -> Result<ChannelType, ParseChannelError> {
    ChannelType::from_bytes(b)
}
pub fn root_ct_try_bytes(b: &[u8]) -> Result<ChannelType, ParseChannelError> {
    ChannelType::try_from(b)
}
pub fn root_ct_try_str(b: &str) -> Result<ChannelType, ParseChannelError> {
    ChannelType::try_from(b)
}
pub fn root_ct_fromstr(b: &str) -> Result<ChannelType, ParseChannelError> {
    b.parse()
}
pub fn root_ct_is_rotation(c: &ChannelType) -> bool {
    c.is_rotation()
}
pub fn root_ct_is_position(c: &ChannelType) -> bool {
    c.is_position()
}
pub fn root_ct_axis(c: &ChannelType) -> Axis {
    c.axis()
}
pub fn root_ct_as_str(c: &ChannelType) -> &'static str {
    c.as_str()
}
pub fn root_ct_display(c: &ChannelType, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(c, f)
}
pub fn root_axis_vector(a: &Axis) -> Offset {
    a.vector()
}
pub fn root_axis_display(a: &Axis, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(a, f)
}
pub fn root_pce_into_inner(e: ParseChannelError) -> Vec<u8> {
    e.into_inner()
}

// ---- errors ------------------------------------------------------------------------------------
pub fn root_le_line(e: &LoadError) -> Option<usize> {
    e.line()
}
pub fn root_le_kind(e: &LoadError) -> &LoadErrorKind {
    e.kind()
}
pub fn root_le_into_kind(e: LoadError) -> LoadErrorKind {
    e.into_kind()
}
pub fn root_le_from_joints(e: LoadJointsError) -> LoadError {
    LoadError::from(e)
}
pub fn root_le_from_motion(e: LoadMotionError) -> LoadError {
    LoadError::from(e)
}
pub fn root_lje_line(e: &LoadJointsError) -> Option<usize> {
    e.line()
}
pub fn root_lme_line(e: &LoadMotionError) -> Option<usize> {
    e.line()
}
pub fn root_lje_from_io(e: io::Error) -> LoadJointsError {
    LoadJointsError::from(e)
}
pub fn root_lme_from_io(e: io::Error) -> LoadMotionError {
    LoadMotionError::from(e)
}
pub fn root_le_source(e: &LoadError) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
pub fn root_lje_source(e: &LoadJointsError) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
pub fn root_lme_source(e: &LoadMotionError) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
pub fn root_le_display(e: &LoadError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_lje_display(e: &LoadJointsError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_lme_display(e: &LoadMotionError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_sme_display(e: &SetMotionError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_pce_display(e: &ParseChannelError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_fie_display(e: &FrameInsertError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn root_fre_display(e: &FrameRemoveError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
