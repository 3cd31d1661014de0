From 69bd8e2e1aa48e45a754a95f9daf504f3d6e41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 01/11] fix: compute right-hand subslices of more than one
 element without running past the end

---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From 109e8b9adab690dfd8fbd7d458b726bdbb371c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 02/11] fix: hash the right-hand slice of a key instead of an
 inverted out-of-bounds range

---
 .../src/specialized_maps/right_slice_map.rs               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..7091cba 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,7 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                k.hash(&bh, k.len() - range.end..k.len() - range.start)
             }),
             bh,
             range,
@@ -76,10 +76,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From 13e4da7d10a6351d20ee54812392842a7bde066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/11] fix: do not slice keys shorter than the hashed range
 when building slice maps

---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 .../src/specialized_maps/right_slice_map.rs                 | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 7091cba..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
-- 
2.43.0


From 234f8678f57c4469525346d98b98cb56db690e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/11] fix: set iterator count() no longer subtracts the
 consumed items twice

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From e51ac7de7a19886f5aef1a12636aa208c3108c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 05/11] fix: union size_hint() lower bound accounts for the
 items already returned

---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..10a0966 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        // everything left in the set being iterated first, plus possibly everything left in the other one
+        let (s1_lower, s1_upper) = self.s1_iter.size_hint();
+        let (s2_lower, s2_upper) = self.s2_iter.size_hint();
+
+        let lower = if self.s1.len() > self.s2.len() {
+            s1_lower
+        } else {
+            s2_lower
+        };
+
+        let upper = match (s1_upper, s2_upper) {
+            (Some(s1_upper), Some(s2_upper)) => s1_upper.checked_add(s2_upper),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From 9960e1fa7e6c9ebae26e69042411e464cc394af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 06/11] fix: looking up key 0 in an empty IntegerRangeMap no
 longer panics

---
 .../src/specialized_maps/integer_range_map.rs                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..a2a47ff 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -28,7 +28,7 @@ where
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
             return Self {
-                min: K::zero(),
+                min: K::one(), // min > max, such that no key is ever in range
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From 26d461590fe53c03ddebf86b578a70f255bf9c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 07/11] fix: reject repeated keys hiding a gap in
 IntegerRangeMap

---
 .../src/specialized_maps/integer_range_map.rs                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index a2a47ff..1f8f58d 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -44,6 +44,10 @@ where
             payload.len() - 1,
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
+        assert!(
+            payload.windows(2).all(|x| x[0].0 != x[1].0),
+            "IntegerRangeMap requires that the map keys be unique"
+        );
 
         Self {
             min,
-- 
2.43.0


From ca2a7c36136e1c610662f02926b7d1281b3f9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 08/11] fix: support signed ranges wider than the positive half
 of the key type in IntegerRangeMap

---
 .../src/specialized_maps/integer_range_map.rs | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 1f8f58d..8ee46a2 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -17,6 +17,22 @@ pub struct IntegerRangeMap<K, V> {
     pub(crate) entries: Box<[(K, V)]>,
 }
 
+/// The difference between two integers with `min <= key`, which for signed types may not fit in the type itself.
+#[inline]
+fn distance<T>(min: T, key: T) -> Option<usize>
+where
+    T: PrimInt,
+{
+    match key.checked_sub(&min) {
+        Some(distance) => distance.to_usize(),
+        None => {
+            // min < 0 <= key
+            let below_minus_one = (T::zero() - (min + T::one())).to_usize()?;
+            key.to_usize()?.checked_add(below_minus_one)?.checked_add(1)
+        }
+    }
+}
+
 impl<K, V> IntegerRangeMap<K, V>
 where
     K: PrimInt,
@@ -40,7 +56,7 @@ where
         let max = payload[payload.len() - 1].0;
 
         assert_eq!(
-            max.sub(min).to_usize().unwrap(),
+            distance(min, max).unwrap(),
             payload.len() - 1,
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
@@ -66,7 +82,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -81,7 +97,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -123,7 +139,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
-- 
2.43.0


From 4d9bfc77cd16ef9ed5770f04fddbf1db68cb4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 09/11] fix: integer key analysis no longer overflows on widely
 spread signed keys or full ranges

---
 frozen-collections-core/src/analyzers/int_key_analyzer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..873cdc8 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -18,16 +18,16 @@ where
 {
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
+    let mut count: usize = 0;
     for key in keys {
         min = min.min(key);
         max = max.max(key);
-        count = count + K::one();
+        count += 1;
     }
 
-    if count == K::zero() {
+    if count == 0 {
         IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
+    } else if max.checked_sub(&min).and_then(|x| x.to_usize()) == Some(count - 1) {
         IntKeyAnalysisResult::Range
     } else {
         IntKeyAnalysisResult::Normal
-- 
2.43.0


From 8e82fa901f80095224839cacfcaa58be4a9af70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 10/11] fix: frozen_map! with contiguous integer keys generates
 code that compiles

---
 frozen-collections-core/src/macros/frozen_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..43341e8 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -159,6 +159,13 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         }
     );
 
+    // unlike the other map types, IntegerRangeMap isn't parameterized by payload size
+    let generic_args = if map_type == "IntegerRangeMap" {
+        quote!(#ty, _)
+    } else {
+        quote!(#ty, _, #payload_size)
+    };
+
     match slice_analysis {
         SliceKeyAnalysisResult::LeftHandSubslice {
             subslice_index,
@@ -188,7 +195,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
 
         _ => quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#generic_args> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0


From 4d3a117bd7482a4314489ab9b5855909654a8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 11/11] fix: repeated keys given to FrozenMap and FrozenSet
 collapse to one entry, the last one

---
 frozen-collections-core/src/facades/dedup.rs    | 17 +++++++++++++++++
 .../src/facades/frozen_map.rs                   |  5 ++++-
 .../src/facades/frozen_set.rs                   |  5 ++++-
 frozen-collections-core/src/facades/mod.rs      |  1 +
 4 files changed, 26 insertions(+), 2 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/dedup.rs

diff --git a/frozen-collections-core/src/facades/dedup.rs b/frozen-collections-core/src/facades/dedup.rs
new file mode 100644
index 0000000..f637fdc
--- /dev/null
+++ b/frozen-collections-core/src/facades/dedup.rs
@@ -0,0 +1,17 @@
+use std::collections::HashSet;
+use std::hash::Hash;
+
+/// Drops all but the last of the entries sharing the same key, preserving the order of the rest.
+pub fn dedup_by_keep_last<E, K, F>(entries: &mut Vec<E>, key: F)
+where
+    K: Hash + Eq,
+    F: Fn(&E) -> &K,
+{
+    let mut seen = HashSet::with_capacity(entries.len());
+    let mut keep: Vec<bool> = entries.iter().rev().map(|x| seen.insert(key(x))).collect();
+
+    // "keep" was filled back to front, so popping yields the flags in order
+    if keep.contains(&false) {
+        entries.retain(|_| keep.pop().unwrap_or(true));
+    }
+}
diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..cfb5784 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -11,6 +11,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_keep_last;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -209,7 +210,9 @@ where
         Self::from_iter_with_hasher(payload, bh)
     }
 
-    fn new(payload: Vec<(K, V)>, bh: BH) -> Self {
+    fn new(mut payload: Vec<(K, V)>, bh: BH) -> Self {
+        dedup_by_keep_last(&mut payload, |x| &x.0);
+
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index 22cefd9..6559ebf 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -9,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_keep_last;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -194,7 +195,9 @@ where
         Self::new(Vec::from_iter(payload), bh)
     }
 
-    fn new(payload: Vec<T>, bh: BH) -> Self {
+    fn new(mut payload: Vec<T>, bh: BH) -> Self {
+        dedup_by_keep_last(&mut payload, |x| x);
+
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index 4dabde2..e627789 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -1,6 +1,7 @@
 pub use frozen_map::*;
 pub use frozen_set::*;
 
+mod dedup;
 mod frozen_map;
 mod frozen_set;
 
-- 
2.43.0

