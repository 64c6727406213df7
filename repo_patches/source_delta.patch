From 325201df0cddc06cb915f391f7434153b31b9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 1/6] fix: building scalar collections whose keys span the full
 index range no longer overflows

---
 frozen-collections-core/src/analyzers/scalar_key_analyzer.rs | 2 +-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..52bde42 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,7 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    let needed_count = (max - min).saturating_add(1);
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 5e3d9c1ec4d79e38aca326cf722211d0d8e68147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 2/6] fix: lower size bound of a set union no longer exceeds
 the remaining elements

---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..fa3ce28 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // only the larger set, which is returned in full, contributes to the lower bound
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From 3a5db9795b0837055c2ebe601bf4b391a249563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 3/6] fix: string collections deserialize keys that need
 unescaping or aren't borrowed from the input

---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 931c5f48cf30cef76d0eedcaef74ba77586a2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 4/6] fix: do not trust the size a deserializer announces

A size hint is only a hint: allocating whatever a (possibly malformed)
document announces panics with a capacity overflow or aborts before the
first entry is read. Cap the preallocation like serde's own collections do.
---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs    | 2 +-
 frozen-collections-core/src/fz_maps/fz_ordered_map.rs | 2 +-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs  | 2 +-
 frozen-collections-core/src/fz_maps/fz_string_map.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs    | 2 +-
 frozen-collections-core/src/fz_sets/fz_ordered_set.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..52c08d7 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -401,7 +401,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..4ce3c20 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -338,7 +338,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..de5e791 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -423,7 +423,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..96cd7e8 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..2eb3bc6 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -315,7 +315,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..5e271e4 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -261,7 +261,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..40bf215 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -255,7 +255,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..46ff3da 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 1dbf14e11493cbd6057ca564b9c088a038c87a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:37 +0000
Subject: [PATCH 5/6] fix: get_disjoint_mut handed out aliasing references when
 unequal keys are equivalent to the same entry

---
 .../src/maps/decl_macros.rs                   | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..4a62cdb 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -258,11 +258,24 @@ macro_rules! get_disjoint_mut_funcs {
             panic!("duplicate keys found");
         }
 
-        // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        let ptrs = get_disjoint_mut_funcs!(@pointers, $self, $keys);
+
+        // Keys that aren't equal to each other may still both be equivalent to the same key in the map.
+        if ::core::mem::size_of::<V>() != 0 && (1..N).any(|i| ptrs[i].is_some() && ptrs[..i].contains(&ptrs[i])) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
+        return get_disjoint_mut_funcs!(@references, ptrs);
     };
 
     (@unsafe_body, $self:ident, $keys:ident) => {
+        let ptrs = get_disjoint_mut_funcs!(@pointers, $self, $keys);
+
+        return get_disjoint_mut_funcs!(@references, ptrs);
+    };
+
+    (@pointers, $self:ident, $keys:ident) => {{
         let ptrs: [Option<::core::ptr::NonNull<V>>; N] = ::core::array::from_fn(|i| {
             $self.get_mut($keys[i]).map(|value| {
                 let v = value as *mut V;
@@ -270,10 +283,14 @@ macro_rules! get_disjoint_mut_funcs {
             })
         });
 
-        return ptrs.map(|ptr| ptr.map(|mut ptr|
-            // SAFETY: pointers all safely acquired above
+        ptrs
+    }};
+
+    (@references, $ptrs:ident) => {
+        $ptrs.map(|ptr| ptr.map(|mut ptr|
+            // SAFETY: pointers all safely acquired above, and they don't overlap
             unsafe { ptr.as_mut() }
-        ));
+        ))
     };
 }
 
-- 
2.43.0


From c3a6c1c3bd6cd771ff8ad379fd9b96ba7c251eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 6/6] fix: a scalar map trusted Scalar::index to agree with the
 number of entries and could read out of bounds

---
 .../src/maps/dense_scalar_lookup_map.rs                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..5107463 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,13 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        let min = entries[0].0.index();
+
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+            // Lookups rely on there being an entry for everything in this range, so don't leave it to `index`,
+            // which may be any safe code, to agree with the number of entries.
+            max: min.saturating_add(entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0

