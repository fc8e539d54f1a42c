From 58713c82ba9a226be3b909cdb5091ed88bc2c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 01/16] fix: keep the order of the following frames when
 inserting a frame

---
 src/frame_cursor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..9281ece 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -567,9 +567,7 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
     vec.resize_with(new_len, T::default);
 
     // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
-    }
+    vec[index..].rotate_right(new_len - old_len);
 
     // Clone the slice into the new area
     for (i, item) in slice.iter().enumerate() {
-- 
2.43.0


From 2e456c59f7314c74a6c3bba6358690a28cd6dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 02/16] fix: report an error when there is no frame after the
 cursor to remove

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 9281ece..b139da1 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From d71cedb9d52d8ce621660ff6289b3dc1737b9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 03/16] fix: move the cursor to the start when all frames are
 removed

---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index b139da1..5136d24 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From 1ea66e22412cad115b7924653be142783a1b389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 04/16] fix: do not panic when the number of frames to insert
 is unbounded

---
 src/frame_cursor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 5136d24..4c1b048 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,13 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The size hint is only a hint: a failure to reserve is not an error here.
+        let _ = self
+            .bvh
+            .motion_values
+            .try_reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From 9a581df713df665d98fc98e238ed74e13134d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 05/16] fix: iterate over exactly the children of a joint
 instead of panicking

---
 src/joint.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..3d1741e 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -392,6 +392,7 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
+    // Index of the joint to whose children the iteration is restricted.
     pub(crate) from_child: Option<usize>,
 }
 
@@ -424,21 +425,20 @@ impl<'a> Joints<'a> {
         let first_child = joint
             .joints
             .iter()
-            .find(|jd| {
+            .position(|jd| {
                 if let Some(p) = jd.private_data() {
                     p.parent_index == joint.index
                 } else {
                     false
                 }
             })
-            .map(JointData::index)
-            .unwrap();
+            .unwrap_or(joint.joints.len());
 
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: first_child,
+            from_child: Some(joint.index),
         }
     }
 
@@ -471,10 +471,14 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
+        self.current_joint += 1;
+
+        if let Some(parent) = self.from_child {
+            while self.current_joint < self.joints.len()
+                && self.joints[self.current_joint].parent_index() != Some(parent)
+            {
+                self.current_joint += 1;
+            }
         }
 
         joint
-- 
2.43.0


From ea5943550bfabf7273b14c312393208870cbf2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 06/16] fix: close the blocks of joints without an end site
 when writing

---
 src/write.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..a7571ca 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,28 +267,27 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference =
+                                    depth_difference.and_then(|d| d.checked_sub(1));
                             }
+
                             *wrote_name = false;
                             *wrote_offset = false;
                             *wrote_channels = false;
-- 
2.43.0


From db116f9de704d0650314b7bb7222c1fd5d6bd116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 07/16] fix: limit the number of written digits to what can be
 formatted

---
 src/write.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index a7571ca..921800b 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -218,7 +218,7 @@ impl WriteOptions {
                             chunk.extend(self.indent.prefix_chars(depth));
 
                             let [x, y, z] = joint_data.offset();
-                            let offset_str = match self.offset_significant_figures {
+                            let offset_str = match max_precision(self.offset_significant_figures) {
                                 Some(sf) => {
                                     format!("OFFSET {:.*} {:.*} {:.*}", sf, x, sf, y, sf, z,)
                                 }
@@ -255,7 +255,7 @@ impl WriteOptions {
                                 chunk.extend_from_slice(terminator);
 
                                 chunk.extend(self.indent.prefix_chars(depth + 1));
-                                let offset_str = match self.offset_significant_figures {
+                                let offset_str = match max_precision(self.offset_significant_figures) {
                                     Some(sf) => {
                                         format!("OFFSET {:.*} {:.*} {:.*}", sf, x, sf, y, sf, z)
                                     }
@@ -315,7 +315,7 @@ impl WriteOptions {
             }
             WriteOptionsIterState::WriteFrameTime { ref mut written } => {
                 if !*written {
-                    *chunk = match self.frame_time_significant_figures {
+                    *chunk = match max_precision(self.frame_time_significant_figures) {
                         Some(sf) => {
                             format!("Frame Time: {:.*}", sf, bvh.frame_time().as_secs_f64())
                                 .into_bytes()
@@ -338,7 +338,7 @@ impl WriteOptions {
                         let motion_values = frame
                             .as_slice()
                             .iter()
-                            .map(|motion| match self.motion_values_significant_figures {
+                            .map(|motion| match max_precision(self.motion_values_significant_figures) {
                                 Some(sf) => format!("{:.*}", sf, motion),
                                 None => format!("{:.}", motion),
                             })
@@ -356,6 +356,12 @@ impl WriteOptions {
     }
 }
 
+/// Limits the number of digits to the most which can be formatted.
+#[inline]
+fn max_precision(significant_figures: Option<usize>) -> Option<usize> {
+    significant_figures.map(|sf| sf.min(usize::from(u16::MAX)))
+}
+
 enum WriteOptionsIterState<'a> {
     WriteHierarchy {
         written: bool,
-- 
2.43.0


From c4dbc9957c332e95d572cf7731cd729459b05ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 08/16] fix: report impossible frame counts instead of
 panicking

---
 src/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..e545c93 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -594,9 +594,10 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
-        self.motion_values.reserve(expected_total_motion_values);
+        // The announced count may be wrong, in which case there is no need for that much space.
+        let _ = self.motion_values.try_reserve(expected_total_motion_values);
 
         for (line_num, line) in lines {
             let line = line?;
@@ -612,7 +613,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From 2267bcc45da0c314c0db0a1d0ace05e59fdf5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 09/16] fix: report negative and infinite frame times instead
 of panicking

---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index e545c93..415f309 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -575,7 +575,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From 2065f7df70a0d353782be0d65e05e5577d43e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 10/16] fix: a missing frame time is not a missing number of
 frames

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 415f309..f4efcdc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -592,7 +592,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From f4051ef3a6ddb07cbb943b4d9d208048d41b7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 11/16] fix: do not reserve space for an announced number of
 channels

---
 src/parse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index f4efcdc..eff90c3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -430,7 +430,6 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
-- 
2.43.0


From 9a68839b15ea0defef2f4f4e7fbdc0ba6e88538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 12/16] fix: report misplaced keywords, braces and missing
 names instead of panicking

---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 30 ++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..196894f 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -96,6 +96,11 @@ pub enum LoadJointsError {
     Io(io::Error),
     /// The skeletal hierarchy is missing the `Root` joint.
     MissingRoot,
+    /// A keyword or brace was encountered in the wrong location.
+    UnexpectedKeyword {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A name could not be found for the `Joint`.
     MissingJointName {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +155,7 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedKeyword { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -174,6 +180,9 @@ impl fmt::Display for LoadJointsError {
         match *self {
             LoadJointsError::Io(ref e) => fmt::Display::fmt(&e, f),
             LoadJointsError::MissingRoot => f.write_str("The root heirarchy could not be found"),
+            LoadJointsError::UnexpectedKeyword { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword or brace", line)
+            }
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
diff --git a/src/parse.rs b/src/parse.rs
index eff90c3..7ffd714 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -298,7 +298,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,19 +307,27 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
+                    next_expected_line = NextExpectedLine::ClosingBrace;
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -344,15 +352,20 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-                    if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
+                    if next_expected_line == NextExpectedLine::ClosingBrace
+                        && !in_end_site
+                        && !pushed_end_site_joint
+                        && tokens.next() == Some(ENDSITE_KEYWORDS[1])
+                    {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,8 +389,9 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
                     if curr_mode != ParseMode::InHeirarchy {
-- 
2.43.0


From 5fbb49d3630e23c03564bd3104ab37a1695a4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 13/16] fix: keep joints which have neither an end site nor
 children

---
 src/parse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7ffd714..1cc1529 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -334,14 +334,16 @@ impl Bvh {
                         curr_mode = ParseMode::Finished;
                     }
 
-                    if in_end_site {
+                    // A joint ends with its end site, or with its own block if it has none.
+                    if in_end_site || !pushed_end_site_joint {
+                        let inner_depth = if in_end_site { curr_depth } else { curr_depth + 1 };
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
                         {
                             private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            private.parent_index = get_parent_index(&joints, inner_depth);
+                            private.depth = inner_depth - 1;
                         }
 
                         let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
-- 
2.43.0


From f7b103b457cef77f81532175216bfea917bf5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 14/16] fix: do not give offsets and channels to a joint they
 are not stated for

---
 src/parse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1cc1529..5937daf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -396,7 +396,7 @@ impl Bvh {
                     next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace || pushed_end_site_joint {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -427,7 +427,11 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || !curr_joint.channels().is_empty()
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From cadbbb2ccb53edb289a8c4e96ef2beadf7506476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 15/16] fix: an end site does not replace the offset of the
 root

---
 src/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint.rs b/src/joint.rs
index 3d1741e..1a6f55d 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -170,6 +170,7 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
+            JointData::Root { .. } if is_site => {}
             JointData::Root { ref mut offset, .. } => *offset = new_offset,
             JointData::Child {
                 ref mut offset,
-- 
2.43.0


From dc1cb3d0421074c32ca1eac27b5f7164f4cd0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 16/16] fix: the literal macro accepts joints with four, five
 and seven channels

---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0

