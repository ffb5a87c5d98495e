From 5062ff0401dc5d8277b3f57390ea9f4aeb1282da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 01/23] fix: refuse to extend a SameStageVec from rows of
 another stage

extend_range_transposed (and so extend_transposed) only checked the stage of
the transposition, so rows of another stage were appended, leaving a buffer
which doesn't hold a whole number of valid rows.
---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 03f393fd9a1a4e9d639181c0d1d7453141def4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 02/23] fix: extend blocks with only the annotations in the
 given range

AnnotBlock::extend_range copied every annotation of the other block, whatever
the range, so rows and annotations got out of step.  Invalid ranges also
panicked (or not) after the rows had been changed; check them first.
---
 src/block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..24dfcc4 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -323,6 +323,9 @@ impl<A> AnnotBlock<A> {
         // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
         let transposition =
             Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
+        // Take the annotations before modifying `self`, so that an invalid range panics without
+        // leaving `self` with mismatched rows and annotations
+        let annots = &other.annots[range.clone()];
 
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
@@ -332,7 +335,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(annots.iter().cloned());
 
         Ok(())
     }
@@ -344,6 +347,14 @@ impl<A> AnnotBlock<A> {
     {
         // Clamp open ranges to `0..self.len()`, so our code only has to handle concrete `Range`s
         let range = utils::clamp_range(range, self.len());
+        // Check the range before modifying `self`, so that an invalid range panics without leaving
+        // `self` with mismatched rows and annotations
+        assert!(
+            range.start <= range.end && range.end <= self.len(),
+            "range {:?} is out of bounds of a block of length {}",
+            range,
+            self.len()
+        );
 
         // Compute the pre-transposition required to make the chunk start at `self.leftover_row`
         let first_row_of_chunk = self.get_row(range.start).unwrap();
-- 
2.43.0


From 0d0b7c446e25897917efbc19919cde7fdeb73da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 03/23] fix: make Mask::as_row and is_subset_of agree with the
 rows matched

as_row returned an invalid Row for masks with repeated or out-of-range bells
(which match no rows), and nothing for masks with one unspecified place
(which match exactly one row).
---
 src/mask.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..d7cf458 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,16 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
+        if self.unspecified_places().count() > 1 {
+            return None; // The unfixed bells could be rung in more than one order
         }
+        // If one place is unspecified, only the one remaining bell can fill it
+        let remaining_bell = (0..self.bells.len())
+            .map(Bell::from_index)
+            .find(|&b| self.place_of(b).is_none());
+        // Nothing stops `Mask::parse` creating masks with repeated or out-of-range bells.  Such
+        // masks don't match any rows, and are rejected here.
+        RowBuf::from_bell_iter(self.bells.iter().filter_map(|b| b.or(remaining_bell))).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
@@ -180,6 +183,11 @@ impl Mask {
             return false;
         }
 
+        // If `self` only matches one row, then that row must be matched by `other`
+        if let Some(row) = self.as_row() {
+            return other.matches(&row);
+        }
+
         // Now check that every bell required by `other` is also required by `self`
         for (b1, b2) in self.bells.iter().zip_eq(&other.bells) {
             match (*b1, *b2) {
-- 
2.43.0


From 1b36c16b8e54a35f28b329a1d5d3a023a8aff178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 04/23] fix: compare masks of no places without panicking

Mask::parse returns a mask with no places for text without any, and every
query on it panicked by asking for its (non-existent) stage.
---
 src/mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index d7cf458..e0947e4 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -101,7 +101,7 @@ impl Mask {
     /// Tests whether or not a [`Row`] satisfies this `Mask`.
     pub fn matches(&self, row: &Row) -> bool {
         // Rows can't match masks of different stages
-        if self.stage() != row.stage() {
+        if self.bells.len() != row.stage().num_bells() {
             return false;
         }
 
@@ -179,7 +179,7 @@ impl Mask {
     /// `other`.
     pub fn is_subset_of(&self, other: &Mask) -> bool {
         // Two rows which are of different stages can't have a superset/subset relation
-        if self.stage() != other.stage() {
+        if self.bells.len() != other.bells.len() {
             return false;
         }
 
@@ -213,7 +213,7 @@ impl Mask {
     /// `a.combine(b).is_some()`.
     pub fn is_compatible_with(&self, other: &Mask) -> bool {
         // Masks of different stages are always incompatible
-        if self.stage() != other.stage() {
+        if self.bells.len() != other.bells.len() {
             return false;
         }
 
-- 
2.43.0


From d425c832c6eb02c7f6954631d237a68a6294f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 05/23] fix: don't overflow when looking up huge indices in a
 SameStageVec

get, get_mut, indexing and split multiplied the index by the stage, which
panicked (or wrapped round to an existing row in release builds) instead of
finding nothing.
---
 src/row/same_stage_vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..42d2b0b 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -364,7 +364,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.saturating_mul(self.stage.num_bells()))?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -389,8 +389,9 @@ impl SameStageVec {
 
     /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
     fn get_range_of_row(&self, index: usize) -> Range<usize> {
+        // Saturate so that huge indices give a range which is (also) out of bounds, instead of wrapping
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        index.saturating_mul(s)..index.saturating_add(1).saturating_mul(s)
     }
 }
 
-- 
2.43.0


From d0dd7fcffe3c6c1e39914867966f93505552a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 06/23] fix: return an error when parsing rows from the empty
 string

str::lines yields nothing for the empty string, so SameStageVec::parse and
AnnotBlock::parse panicked on it.
---
 src/row/same_stage_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 42d2b0b..510cc18 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,7 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        let (_one, first_line) = line_iter.next().ok_or(ParseError::ZeroStage)?;
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 934cf6de9db9f1362294092663b6640f14a4a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 07/23] fix: give same_stage_vec::Iter an exact size_hint

It implements ExactSizeIterator, whose contract requires one; zip, rev,
enumerate().rev() and collect all rely on it.
---
 src/row/same_stage_vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 510cc18..57a1bca 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -452,6 +452,12 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    // Required for `ExactSizeIterator`
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From 38a7107a0bb5c353b6385652d1ed39b1a26cb35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 08/23] fix: don't panic on overflow in Row::fast_hash

The multiplier overflows on every stage from 16 bells, which panicked in
debug builds even on 16 bells (where the hash is documented to be perfect).
---
 src/row/borrowed.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..630e6a5 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,12 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        // Overflow is expected on big stages (and makes this a normal, imperfect, hash)
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From 9213cbd9718a340e433f072ca2ca3c5fccfc7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 09/23] fix: serialise bells as the numbers they are read back
 from

---
 src/bell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..66ed633 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,7 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        // Deserialising reads bell numbers, so serialise as a number (i.e. **not** the index)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From 9118e1e8b599c5fe13077d3e67d7ea721adbba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 10/23] fix: report an error when deserialising a Stage of zero
 bells

---
 src/stage.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..0d26204 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage_unsigned(v as u64)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage_unsigned(v as u64)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage_unsigned(v as u64)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage_unsigned(v as u64)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,12 +445,19 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        try_parse_stage_unsigned(val as u64)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
 }
 
+/// Helper function to attempt to parse a [`Stage`] from a [`u64`], reporting zero-bell [`Stage`]s
+#[cfg(feature = "serde")]
+#[inline(always)]
+fn try_parse_stage_unsigned<E: Error>(val: u64) -> Result<Stage, E> {
+    Stage::try_from(val as usize).map_err(|_| E::custom("can't have a Stage of zero bells"))
+}
+
 #[cfg(feature = "serde")]
 impl<'de> Deserialize<'de> for Stage {
     fn deserialize<D>(deserializer: D) -> Result<Stage, D::Error>
-- 
2.43.0


From 534641b87ccdf4993e736af289e4172e0157c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 11/23] fix: deserialise bells and stages from their names

---
 src/bell.rs  | 7 ++++++-
 src/stage.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index 66ed633..aa3c761 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -389,7 +389,12 @@ impl<'de> Deserialize<'de> for Bell {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(BellVisitor)
+        if deserializer.is_human_readable() {
+            // Self-describing formats know whether they contain a name or a number
+            deserializer.deserialize_any(BellVisitor)
+        } else {
+            deserializer.deserialize_u64(BellVisitor)
+        }
     }
 }
 
diff --git a/src/stage.rs b/src/stage.rs
index 0d26204..506b3f2 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -464,7 +464,12 @@ impl<'de> Deserialize<'de> for Stage {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(StageVisitor)
+        if deserializer.is_human_readable() {
+            // Self-describing formats know whether they contain a name or a number
+            deserializer.deserialize_any(StageVisitor)
+        } else {
+            deserializer.deserialize_u64(StageVisitor)
+        }
     }
 }
 
-- 
2.43.0


From 8ba906b8f379e0d866a6886475cd42628a3bbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 12/23] fix: return an error for library JSON with invalid
 stages or class IDs

---
 src/method_lib/lib_serde.rs | 22 +++++++++++++---------
 src/method_lib/mod.rs       |  4 +++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..ca66ae8 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,9 +1,9 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
-use serde_crate::{Deserialize, Serialize};
+use serde_crate::{de::Error, Deserialize, Serialize};
 
 use crate::{
     method::{
@@ -78,18 +78,22 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = serde_json::Error;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, Self::Error> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(Self::Error::custom)?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id).ok_or_else(|| {
+                    Self::Error::custom(format!("invalid class ID {}", group.class_id))
+                })?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +124,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +203,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..68c051a 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -1,4 +1,6 @@
 use std::{cmp::Ordering, collections::HashMap};
+#[cfg(feature = "method_lib_serde")]
+use std::convert::TryFrom;
 
 use edit_distance::edit_distance;
 use itertools::Itertools;
@@ -166,7 +168,7 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json).and_then(Self::try_from)
     }
 }
 
-- 
2.43.0


From 58cbfe770adf97d7466dd9acdd77d1ed16e26ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 13/23] fix: generate titles for methods on unnamed stages

---
 src/method/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..efeb483 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -215,8 +215,8 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         // If the class made the string longer, we need another space before the stage
         s.push(' ');
     }
-    // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    // Always push the stage (stages without a name are written as e.g. `30 bells`)
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From e253de62e9ce7da8ba28365f824e63fb181691b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 14/23] fix: report the right byte positions in place notation
 errors

---
 src/place_not.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..af535b3 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,7 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +536,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From b39270b3e88951a78853e668a755c2e24e7e01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 15/23] fix: don't panic when asked for no (or far too many)
 suggestions

---
 src/method_lib/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 68c051a..b35423c 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -123,6 +123,14 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // We can't suggest more methods than the library contains, and `Shortlist`s can't have zero
+        // capacity
+        let num_methods = self.method_map.values().map(HashMap::len).sum::<usize>();
+        let num_suggestions = num_suggestions.min(num_methods);
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
+
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0


From cc80fb9c403b815385911fc9d0fc69e541faf7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 16/23] fix: count the rows matching a pattern correctly

---
 src/music.rs | 51 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..72cba30 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fmt::{Debug, Display, Formatter},
     iter::once,
 };
@@ -291,11 +292,11 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
-        // simple, but nonetheless there is a nice way to re-frame the problem: instead of
-        // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
-        // `j - 1` identical barriers.
+        // The number of assignments of `n` bells into `i` 'x's is `n! / (n - i)!` (because swapping the
+        // bells in two 'x's gives a different row).  Now we're left with the remaining `n - i` bells
+        // to distribute into `j` '*'s.  This step is not as simple, but nonetheless there is a nice
+        // way to re-frame the problem: instead of distributing the bells into `j` '*'s, we choose to
+        // split the bells up by inserting `j - 1` identical barriers.
         //
         // For example, if we have bells 1,2,3,4,5,6 to split into 3 '*'s, we instead insert two
         // barriers (denoted with `|`) into the sequence of bells being permuted.  So now, we are
@@ -308,31 +309,47 @@ impl Regex {
         // assigning bells to 'x's there are `(n - i + j - 1)! / (j - 1)!` ways to distribute the
         // remaining bells into the '*'s.
         //
-        // Multiplying both of these terms will give the total number of matching `Row`s
+        // Multiplying both of these terms will give the total number of matching `Row`s:
+        //
+        //      n!       (n - i + j - 1)!        (n - i + j - 1)!
+        //   -------- * ------------------ = n! * ------------------- = n! * (n - i + j - 1 choose j - 1)
+        //   (n - i)!        (j - 1)!            (n - i)! * (j - 1)!
+        //
+        // If there are no '*'s, then the 'x's must use up all the unfixed bells.
 
         // Compute the values of `n` (num_unfixed), `i` (num_wildcards) and `j` (num_globs) by
         // iterating over the regex and counting.
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
         let mut num_wildcards = 0usize; // `i`
         let mut num_globs = 0usize; // `j`
+        let mut fixed_bells = HashSet::<Bell>::new();
         for e in &self.elems {
             match e {
-                RegexElem::Bell(_) => num_unfixed -= 1,
+                RegexElem::Bell(b) => {
+                    if b.index() >= stage.num_bells() || !fixed_bells.insert(*b) {
+                        // No `Row` contains a bell outside its stage, or the same bell twice
+                        return Some(0);
+                    }
+                    num_unfixed -= 1;
+                }
                 RegexElem::Any => num_wildcards += 1,
                 RegexElem::Glob => num_globs += 1,
             }
         }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
-
-        // TODO: Compute the fraction directly to limit potential for overflow
-        let num_bells_in_globs = num_unfixed - num_wildcards;
-        let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
-        let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
-        let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
-
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        let num_bells_in_globs = match num_unfixed.checked_sub(num_wildcards) {
+            Some(n) => n,
+            None => return Some(0), // Not enough bells to fill every 'x'
+        };
+        let ways_to_divide_globs = match num_globs {
+            0 if num_bells_in_globs > 0 => return Some(0), // Too many bells with nowhere to put them
+            0 => 1,
+            _ => utils::choice(num_bells_in_globs + num_globs - 1, num_globs - 1)?,
+        };
+
+        num_unfixed
+            .checked_factorial()?
+            .checked_mul(ways_to_divide_globs)
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
-- 
2.43.0


From 00ff212bf2d3df6f0adbe85aa6f6a308806f0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 17/23] fix: normalise the patterns for internal runs of no
 bells

---
 src/music.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 72cba30..15b8e91 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -227,24 +227,21 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
-                // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
-                // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone().rev())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
+            // These patterns must be normalised, because runs of length 0 would otherwise produce
+            // two consecutive globs
+
+            // Descending runs (e.g. `*1234*`)
+            let descending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone())
+                    .chain(once(RegexElem::Glob)),
+            );
+            // Ascending runs (e.g. `*4321*`)
+            let ascending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone().rev())
+                    .chain(once(RegexElem::Glob)),
+            );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From f04299831e71ad0d72c32eb6be706f35d030bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 18/23] fix: read back bells and stages which are used as keys

---
 src/bell.rs  | 9 ++++++++-
 src/stage.rs | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index aa3c761..1f09112 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -361,7 +361,14 @@ impl<'de> Visitor<'de> for BellVisitor {
         E: Error,
     {
         if v.len() != 1 {
-            return Err(E::custom(format!("'{}' is not a bell name", v)));
+            // Some formats (e.g. JSON) only allow strings as keys, and so write the numbers of
+            // bells used as keys as strings.  No number is also the name of a different bell,
+            // because bell names are single characters and `0` isn't the number of a bell.
+            return v
+                .parse()
+                .ok()
+                .and_then(Bell::from_number)
+                .ok_or_else(|| E::custom(format!("'{}' is not a bell name", v)));
         }
 
         v.chars()
diff --git a/src/stage.rs b/src/stage.rs
index 506b3f2..1adba32 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -436,6 +436,9 @@ impl<'de> Visitor<'de> for StageVisitor {
     {
         let lower_str = v.to_lowercase();
         Stage::from_lower_case_name(&lower_str)
+            // Some formats (e.g. JSON) only allow strings as keys, and so write the numbers of
+            // stages used as keys as strings.
+            .or_else(|| Stage::try_from(v.parse::<usize>().ok()?).ok())
             .ok_or_else(|| E::custom(format!("'{}' is not a stage name", v)))
     }
 }
-- 
2.43.0


From ff19cf0b17695de2ad1744c7ebf0af8469b43275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 19/23] fix: make the cc_lib_gen feature compile and key its
 methods by lower-case title

---
 src/method_lib/parse_cc_lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/method_lib/parse_cc_lib.rs b/src/method_lib/parse_cc_lib.rs
index 01ade15..acc6c85 100644
--- a/src/method_lib/parse_cc_lib.rs
+++ b/src/method_lib/parse_cc_lib.rs
@@ -3,7 +3,7 @@
 
 #![cfg(feature = "cc_lib_gen")]
 
-use crate::method::Class;
+use crate::method::class::Class;
 
 use super::*;
 use minidom::Element;
@@ -80,9 +80,10 @@ fn read_methods(root: &Element) -> LibraryMap {
 
             // Push the newly parsed method onto the map corresponding to the correct stage
             method_map.insert(
-                title,
+                title.to_lowercase(),
                 CompactMethod {
                     name,
+                    title,
                     full_class,
                     place_notation,
                 },
@@ -95,13 +96,13 @@ fn read_methods(root: &Element) -> LibraryMap {
 
 /// Read the `<properties>` element
 fn read_properties(properties: &Element) -> (Stage, FullClass) {
-    let stage: Stage = properties
+    let num_bells = properties
         .get_child("stage", NAMESPACE)
         .expect("Couldn't find `stage` element")
         .text()
         .parse::<usize>()
-        .expect("Stage wasn't a valid number")
-        .into();
+        .expect("Stage wasn't a valid number");
+    let stage = Stage::try_from(num_bells).expect("Stage can't have zero bells");
 
     let classification_elem = properties
         .get_child("classification", NAMESPACE)
-- 
2.43.0


From 82ea3c21dbeb64b1606afe97320b7bfd85f87811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 20/23] fix: keep a block's rows and annotations in step when
 an annotation's clone panics

---
 src/block.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 24dfcc4..22e6e06 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -323,9 +323,9 @@ impl<A> AnnotBlock<A> {
         // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
         let transposition =
             Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
-        // Take the annotations before modifying `self`, so that an invalid range panics without
-        // leaving `self` with mismatched rows and annotations
-        let annots = &other.annots[range.clone()];
+        // Clone the annotations before modifying `self`, so that an invalid range (or an annotation
+        // which can't be cloned) panics without leaving `self` with mismatched rows and annotations
+        let annots = other.annots[range.clone()].to_vec();
 
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
@@ -335,7 +335,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(annots.iter().cloned());
+        self.annots.extend(annots);
 
         Ok(())
     }
@@ -362,6 +362,9 @@ impl<A> AnnotBlock<A> {
         // `SameStageVec`
         let transposition =
             Row::solve_xa_equals_b(first_row_of_chunk, self.leftover_row()).unwrap();
+        // Clone the annotations before modifying `self`, so that an annotation which can't be
+        // cloned panics without leaving `self` with mismatched rows and annotations
+        let annots = self.annots[range.clone()].to_vec();
 
         // Extend the rows
         self.rows
@@ -370,7 +373,7 @@ impl<A> AnnotBlock<A> {
             .extend_transposed_from_within(range.start + 1..range.end + 1, &transposition)
             .unwrap(); // Stages must match because `transposition` comes from `self.row_buffer`
                        // Extend the annots
-        self.annots.extend_from_within(range);
+        self.annots.extend(annots);
     }
 
     ///////////////////////////////////
-- 
2.43.0


From 5d274aa6862b7e51d46782b900911cacf7970fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 21/23] fix: get the rows of a least group only once, since
 they're multiplied unchecked

---
 src/row/borrowed.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 630e6a5..db51268 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -709,6 +709,9 @@ impl Row {
     where
         Self: 'a,
     {
+        // The rows are multiplied unchecked and are gone through many times, so get them only once:
+        // nothing guarantees that a clone of `rows` yields the same rows as `rows` itself.
+        let rows: Vec<&Self> = rows.into_iter().collect();
         // The algorithm used here is to expand every possible way of expanding the input elements,
         // in depth first order.
         let mut set = HashSet::<RowBuf>::new();
@@ -717,7 +720,7 @@ impl Row {
         // We seed the frontier and `set` manually the first time round to avoid checking the
         // stages all the time (if the input rows are all compatible, then so will any finite
         // product of them).
-        for r in rows.clone().into_iter() {
+        for &r in &rows {
             IncompatibleStages::test_err_opt(&mut stage, r.stage())?;
             if set.insert(r.to_owned()) {
                 frontier.push_back(r.to_owned());
@@ -729,7 +732,7 @@ impl Row {
         // because at each iteration the number of unexpanded nodes in the tree decreases and that
         // number is bounded by the size of the resulting group (which is finite).
         while let Some(r) = frontier.pop_front() {
-            for r2 in rows.clone().into_iter() {
+            for &r2 in &rows {
                 // This unsafety is OK because we checked that all Rows in `rows` have equal stages
                 let new_row = unsafe { r.mul_unchecked(r2) };
                 if !set.contains(&new_row) {
-- 
2.43.0


From 7c79421f27ebdd22acd9cf567563f963daf2b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 22/23] fix: keep huge range bounds out of range instead of
 wrapping to the start

---
 src/row/same_stage_vec.rs | 5 +++--
 src/utils.rs              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 57a1bca..93bffc8 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -382,8 +382,9 @@ impl SameStageVec {
     #[allow(clippy::let_and_return)]
     fn to_bell_range(&self, range: impl RangeBounds<usize>) -> Range<usize> {
         let row_range = utils::clamp_range(range, self.len());
-        let bell_range =
-            row_range.start * self.stage.num_bells()..row_range.end * self.stage.num_bells();
+        // Saturate so that huge bounds stay out of range, instead of wrapping
+        let s = self.stage.num_bells();
+        let bell_range = row_range.start.saturating_mul(s)..row_range.end.saturating_mul(s);
         bell_range
     }
 
diff --git a/src/utils.rs b/src/utils.rs
index 7c08383..a51f370 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -22,11 +22,12 @@ pub fn run_len(iter: impl IntoIterator<Item = Bell>) -> usize {
 pub fn clamp_range(range: impl RangeBounds<usize>, length: usize) -> Range<usize> {
     let range_min_inclusive = match range.start_bound() {
         Bound::Included(v) => *v,
-        Bound::Excluded(v) => *v + 1,
+        // (saturate, so that the largest bounds are out of range instead of wrapping to zero)
+        Bound::Excluded(v) => v.saturating_add(1),
         Bound::Unbounded => 0,
     };
     let range_max_exclusive = match range.end_bound() {
-        Bound::Included(v) => *v + 1,
+        Bound::Included(v) => v.saturating_add(1),
         Bound::Excluded(v) => *v,
         Bound::Unbounded => length,
     };
-- 
2.43.0


From bacbaaac890673af212ee2cb2f4737303d6086e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 23/23] fix: refuse ranges past the end in
 extend_transposed_from_within, instead of copying the added rows

---
 src/row/same_stage_vec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 93bffc8..5f7efac 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -321,9 +321,17 @@ impl SameStageVec {
         transposition: &Row,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        let bell_range = self.to_bell_range(range);
+        // Check the range before adding any rows, otherwise a range past the end of `self` would
+        // go on to copy the rows that we're adding
+        assert!(
+            bell_range.start <= bell_range.end && bell_range.end <= self.bells.len(),
+            "range of rows is out of bounds of a `SameStageVec` of length {}",
+            self.len()
+        );
         // Copy the bells one-by-one, because otherwise we'd have to borrow `self.bells` twice and
         // the borrow checker doesn't like that.
-        for i in self.to_bell_range(range) {
+        for i in bell_range {
             let transposed_bell = transposition[self.bells[i].index()];
             self.bells.push(transposed_bell);
         }
-- 
2.43.0

