From 3d113338d414089c0420525bf49d63419c4958a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 01/55] fix: SparseArray validity and canonical form follow the
 fill value and the patches

---
 vortex-array/src/array/sparse/flatten.rs | 46 ++++++++++++------------
 vortex-array/src/array/sparse/mod.rs     | 32 +++++------------
 2 files changed, 32 insertions(+), 46 deletions(-)

diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..97d6887 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -15,18 +15,25 @@ impl IntoCanonical for SparseArray {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
 
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
+        let validity = if self.dtype().is_nullable() {
+            // Patched positions have the validity of their patch, all others that of the fill value.
+            let mut validity_buffer = BooleanBufferBuilder::new(self.len());
+            validity_buffer.append_n(self.len(), !self.fill_value().is_null());
+            let patch_validity = self
+                .values()
+                .with_dyn(|a| a.logical_validity())
+                .into_validity();
+            for (i, idx) in indices.iter().enumerate() {
+                validity_buffer.set_bit(*idx, patch_validity.is_valid(i));
+            }
+            Validity::from(validity_buffer.finish())
+        } else {
+            Validity::NonNullable
+        };
 
         if matches!(self.dtype(), DType::Bool(_)) {
             let values = self.values().into_bool()?.boolean_buffer();
-            canonicalize_sparse_bools(
-                values,
-                &indices,
-                self.len(),
-                self.fill_value(),
-                validity_buffer,
-            )
+            canonicalize_sparse_bools(values, &indices, self.len(), self.fill_value(), validity)
         } else {
             let values = self.values().into_primitive()?;
             match_each_native_ptype!(values.ptype(), |$P| {
@@ -35,7 +42,7 @@ impl IntoCanonical for SparseArray {
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
@@ -47,7 +54,7 @@ fn canonicalize_sparse_bools(
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,10 +64,8 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
     let bool_values = BoolArray::from_vec(flat_bools, validity);
 
     Ok(Canonical::Bool(bool_values))
@@ -73,7 +78,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +89,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..5e6bc4d 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,28 +190,15 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
-            Self::try_new_with_offset(
-                self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
-            Self::try_new_with_offset(
-                self.indices(),
-                self.values()
-                    .with_dyn(|a| a.logical_validity().into_array()),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        }
+        // Patched positions have the validity of their patch, all others that of the fill value.
+        let validity = Self::try_new_with_offset(
+            self.indices(),
+            self.values()
+                .with_dyn(|a| a.logical_validity().into_array()),
+            self.len(),
+            self.indices_offset(),
+            (!self.fill_value().is_null()).into(),
+        )
         .vortex_expect("Error determining logical validity for sparse array");
         LogicalValidity::Array(validity.into_array())
     }
-- 
2.43.0


From e42927bb9202aa2f972b74e65d96d74014e55bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 02/55] fix: SparseArray search_sorted accounts for a non-null
 fill value and for having no patches

---
 vortex-array/src/array/sparse/compute/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..80c1210 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,8 +6,8 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::{Array, IntoArray, IntoArrayVariant};
 
@@ -54,6 +54,11 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        // The patches alone only decide the position if every other element sorts before them.
+        if self.indices().is_empty() || !self.fill_value().is_null() {
+            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+        }
+
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
-- 
2.43.0


From 9ca6ec6b491b42b1463e6113f21e30375e32a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 03/55] fix: RunEndArray accepts an empty slice at its end

---
 encodings/runend/src/compute.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..6ab29f9 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,12 +96,19 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
-        let slice_begin = self.find_physical_index(start)?;
-        let slice_end = self.find_physical_index(stop)?;
+        // An empty slice covers no runs, and may start past the end of the last one.
+        let (slice_begin, slice_end) = if start == stop {
+            (self.values().len(), self.values().len())
+        } else {
+            (
+                self.find_physical_index(start)?,
+                self.find_physical_index(stop)? + 1,
+            )
+        };
 
         Ok(Self::with_offset_and_length(
-            slice(self.ends(), slice_begin, slice_end + 1)?,
-            slice(self.values(), slice_begin, slice_end + 1)?,
+            slice(self.ends(), slice_begin, slice_end)?,
+            slice(self.values(), slice_begin, slice_end)?,
             self.validity().slice(start, stop)?,
             start + self.offset(),
             stop - start,
-- 
2.43.0


From 9a2f194675ead8ea97f32eb68e8c2538849f2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 04/55] fix: RunEndBoolArray slice, scalar_at and take keep the
 offset and the validity

---
 encodings/runend-bool/src/compute.rs | 32 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..34bf4df 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,13 +62,14 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
-        .to_array())
+        .into_array())
     }
 }
 
@@ -77,9 +81,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From 625a5c21099319f54ff187584541321e5dfb7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 05/55] fix: ByteBoolArray take keeps a non-nullable array
 non-nullable

---
 encodings/bytebool/src/compute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..b408785 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -65,7 +65,7 @@ impl TakeFn for ByteBoolArray {
                     .collect::<Vec<_>>()
                 });
 
-                Self::from(bools).into_array()
+                Self::try_from_vec(bools, validity)?.into_array()
             }
             Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
 
-- 
2.43.0


From 57238e16c7cda41ba2f2669d3fc85663743607f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 06/55] fix: FoRArray search_sorted past the largest
 representable value does not wrap

---
 encodings/fastlanes/src/for/compute.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..d3bfc8f 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -138,19 +138,16 @@ where
     // We first determine whether the value can be represented in the compressed array. For any value that is not
     // representable, it is by definition NotFound. For NotFound values, the correct insertion index is by definition
     // the same regardless of which side we search on.
-    // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
-    // value (i.e., increment the translated value by 1).
+    // However, to correctly handle repeated values in the array, we need to search right on the preceding *representable*
+    // value (i.e., past all of its occurrences).
     let representable = decoded_value == primitive_value;
-    let (side, target) = if representable {
-        (side, encoded_value)
+    let side = if representable {
+        side
     } else {
-        (
-            SearchSortedSide::Left,
-            encoded_value.wrapping_add(&T::one()),
-        )
+        SearchSortedSide::Right
     };
 
-    let target_scalar = Scalar::primitive(target, value.dtype().nullability())
+    let target_scalar = Scalar::primitive(encoded_value, value.dtype().nullability())
         .reinterpret_cast(array.ptype().to_unsigned());
     let search_result = search_sorted(&array.encoded(), target_scalar, side)?;
     Ok(
-- 
2.43.0


From 621de9a5bd8fbad02e1fe2dfa2dd248ffe1aa4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 07/55] fix: search_sorted in an empty ConstantArray finds
 nothing

---
 vortex-array/src/array/constant/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..a986eb4 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -88,6 +88,10 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         match self
             .scalar_value()
             .partial_cmp(value.value())
-- 
2.43.0


From fad9e14d73852134c631db28cf08e9145d6643ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 08/55] fix: ChunkedArray take accepts empty indices

---
 vortex-array/src/array/chunked/compute/take.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..ebf969d 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -24,6 +24,10 @@ impl TakeFn for ChunkedArray {
             return take_strict_sorted(self, indices);
         }
 
+        if indices.is_empty() {
+            return Ok(Self::try_new(vec![], self.dtype().clone())?.into_array());
+        }
+
         let indices = try_cast(indices, PType::U64.into())?.into_primitive()?;
 
         // While the chunk idx remains the same, accumulate a list of chunk indices.
-- 
2.43.0


From c81b23e2ad70613624d80b93d46aa8417f880f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 09/55] fix: comparing scalars ignores their nullability

---
 vortex-array/src/compute/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..bf34b00 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -127,6 +127,8 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
     if lhs.is_null() | rhs.is_null() {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
+        // The operands may differ in nullability, which doesn't take part in the comparison.
+        let (lhs, rhs) = (lhs.value(), rhs.value());
         let b = match operator {
             Operator::Eq => lhs == rhs,
             Operator::NotEq => lhs != rhs,
-- 
2.43.0


From 68a7bd6c8d0b9b2a36edfe448e368e63f1ae70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 10/55] fix: ConstantArray compare, and, or accept empty arrays

---
 vortex-array/src/array/constant/compute.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index a986eb4..d5884c0 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -1,6 +1,6 @@
 use std::cmp::Ordering;
 
-use vortex_dtype::Nullability;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, vortex_err, VortexExpect, VortexResult};
 use vortex_scalar::Scalar;
 
@@ -109,6 +109,12 @@ impl SearchSortedFn for ConstantArray {
 
 impl MaybeCompareFn for ConstantArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
+        if other.is_empty() {
+            // There is no value to compare with.
+            let scalar = Scalar::null(DType::Bool(Nullability::Nullable));
+            return Some(Ok(ConstantArray::new(scalar, 0).into_array()));
+        }
+
         (ConstantArray::try_from(other).is_ok()
             || other
                 .statistics()
@@ -152,7 +158,7 @@ fn constant_array_bool_impl(
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
     // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
-- 
2.43.0


From af51fdbe4aa14d57ef032767e0de602005ee6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 11/55] fix: comparing a PrimitiveArray with a null constant is
 null

---
 vortex-array/src/array/primitive/compute/compare.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index 694dbe3..644b977 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -1,8 +1,8 @@
 use arrow_buffer::bit_util::ceil;
 use arrow_buffer::{BooleanBuffer, MutableBuffer};
-use vortex_dtype::{match_each_native_ptype, NativePType};
+use vortex_dtype::{match_each_native_ptype, DType, NativePType, Nullability};
 use vortex_error::{vortex_err, VortexExpect, VortexResult};
-use vortex_scalar::PrimitiveScalar;
+use vortex_scalar::{PrimitiveScalar, Scalar};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::array::{BoolArray, ConstantArray};
@@ -44,6 +44,12 @@ fn primitive_const_compare(
     let primitive_scalar = PrimitiveScalar::try_new(other.dtype(), other.scalar_value())
         .vortex_expect("Expected a primitive scalar");
 
+    if other.scalar_value().is_null() {
+        // Comparing with null is null in every row.
+        let null = Scalar::null(DType::Bool(Nullability::Nullable));
+        return Ok(ConstantArray::new(null, this.len()).into_array());
+    }
+
     let buffer = match_each_native_ptype!(this.ptype(), |$T| {
         let typed_value = primitive_scalar.typed_value::<$T>()
             .ok_or_else(|| vortex_err!("Type mismatch between array and constant"))?;
-- 
2.43.0


From 75613e4b251fa56273dd131d8d4e771cd35bbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 12/55] fix: PrimitiveArray subtract_scalar keeps the validity

---
 vortex-array/src/array/primitive/compute/subtract_scalar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..c5027a5 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -38,7 +38,7 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
@@ -63,12 +63,13 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
             .collect_vec();
         PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
     } else {
-        PrimitiveArray::from(
+        PrimitiveArray::from_vec(
             subtract_from
                 .maybe_null_slice::<T>()
                 .iter()
                 .map(|&v| v - to_subtract)
                 .collect_vec(),
+            subtract_from.validity(),
         )
     };
     Ok(subtraction_result)
-- 
2.43.0


From a1a32cb254086c5149f5b8f1af31cfcf20bfe5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 13/55] fix: a PrimitiveArray of both 0.0 and -0.0 is not
 constant

---
 vortex-array/src/array/primitive/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
-- 
2.43.0


From b2d32c6167ab3610519f4bae6f531d0d001b3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 14/55] fix: BoolArray min ignores nulls

---
 vortex-array/src/array/bool/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..851c597 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count + self.null_count == self.len).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
-- 
2.43.0


From f42f7d65f1916a123b0df6fa73c0b46d2caaeea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 15/55] fix: merging the bounds of an all-null array keeps the
 other bounds

---
 vortex-array/src/stats/statsset.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..8fe6017 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -121,7 +121,8 @@ impl StatsSet {
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
-                if cmp(ov, e.get()) {
+                // A null bound comes from an array without valid values, which has no say in the result.
+                if !ov.is_null() && (e.get().is_null() || cmp(ov, e.get())) {
                     e.insert(ov.clone());
                 }
             } else {
-- 
2.43.0


From 72c3a56d77b44de7172c8460c0db23e9354b23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 16/55] fix: DictArray logical validity follows the validity of
 its values

---
 encodings/dict/src/array.rs | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/encodings/dict/src/array.rs b/encodings/dict/src/array.rs
index 598aa96..041bd58 100644
--- a/encodings/dict/src/array.rs
+++ b/encodings/dict/src/array.rs
@@ -1,19 +1,14 @@
 use std::fmt::{Debug, Display};
 
-use arrow_buffer::BooleanBuffer;
 use serde::{Deserialize, Serialize};
 use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
-use vortex::array::BoolArray;
 use vortex::compute::take;
 use vortex::compute::unary::scalar_at;
 use vortex::encoding::ids;
 use vortex::stats::StatsSet;
 use vortex::validity::{ArrayValidity, LogicalValidity};
-use vortex::{
-    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
-    IntoCanonical,
-};
-use vortex_dtype::{match_each_integer_ptype, DType, PType};
+use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
+use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
 impl_encoding!("vortex.dict", ids::DICT, Dict);
@@ -85,21 +80,13 @@ impl ArrayValidity for DictArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        if self.dtype().is_nullable() {
-            let primitive_codes = self
-                .codes()
-                .into_primitive()
-                .vortex_expect("Failed to convert DictArray codes to primitive array");
-            match_each_integer_ptype!(primitive_codes.ptype(), |$P| {
-                let is_valid = primitive_codes
-                    .maybe_null_slice::<$P>();
-                let is_valid_buffer = BooleanBuffer::collect_bool(is_valid.len(), |idx| {
-                    is_valid[idx] != 0
-                });
-                LogicalValidity::Array(BoolArray::from(is_valid_buffer).into_array())
-            })
-        } else {
-            LogicalValidity::AllValid(self.len())
+        match self.values().with_dyn(|a| a.logical_validity()) {
+            LogicalValidity::AllValid(_) => LogicalValidity::AllValid(self.len()),
+            LogicalValidity::AllInvalid(_) => LogicalValidity::AllInvalid(self.len()),
+            LogicalValidity::Array(values_validity) => LogicalValidity::Array(
+                take(values_validity, self.codes())
+                    .vortex_expect("Failed to take the validity of DictArray values"),
+            ),
         }
     }
 }
-- 
2.43.0


From 32be708e1ee471711adc076631a36890c646b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 17/55] fix: DictArray null count counts the null rows

---
 encodings/dict/src/stats.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..b9e5174 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::validity::{ArrayValidity, LogicalValidity};
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
@@ -22,8 +23,16 @@ impl ArrayStatisticsCompute for DictArray {
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
             stats.insert(Stat::IsConstant, is_constant);
         }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
+        let null_count = match self.logical_validity() {
+            LogicalValidity::AllValid(_) => Some(0),
+            LogicalValidity::AllInvalid(len) => Some(len),
+            LogicalValidity::Array(a) => a
+                .statistics()
+                .compute_true_count()
+                .map(|valid| a.len() - valid),
+        };
+        if let Some(null_count) = null_count {
+            stats.insert(Stat::NullCount, null_count.into());
         }
 
         // if dictionary is sorted
-- 
2.43.0


From c43821333cd304c8267c2c4e22221601ce956dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 18/55] fix: merging constant arrays of unknown value is not
 known to be constant

---
 vortex-array/src/stats/statsset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 8fe6017..0b19334 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -134,7 +134,11 @@ impl StatsSet {
     fn merge_is_constant(&mut self, other: &Self) {
         if let Some(is_constant) = self.get_as(Stat::IsConstant) {
             if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
+                if is_constant
+                    && other_is_constant
+                    && self.get(Stat::Min).is_some()
+                    && self.get(Stat::Min) == other.get(Stat::Min)
+                {
                     return;
                 }
             }
-- 
2.43.0


From 149c68931cfdbc1ec971298479e5848742a026d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 19/55] fix: run-end encoding keeps 0.0 and -0.0 apart

---
 encodings/runend/src/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..0bd5f37 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,7 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From 062f49b590fd9002ba05cd35194936af6fc77d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 20/55] fix: DictArray with one repeated code is bounded by its
 value

---
 encodings/dict/src/stats.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index b9e5174..e56b12d 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use vortex::compute::unary::scalar_at;
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity};
 use vortex_error::VortexResult;
@@ -21,6 +22,12 @@ impl ArrayStatisticsCompute for DictArray {
             stats.insert(Stat::Max, max);
         }
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
+            if !self.is_empty() && self.codes().statistics().compute_is_constant() == Some(true) {
+                // Every row has the same value, which is then both bounds.
+                let value = scalar_at(self.as_ref(), 0)?;
+                stats.insert(Stat::Min, value.clone());
+                stats.insert(Stat::Max, value);
+            }
             stats.insert(Stat::IsConstant, is_constant);
         }
         let null_count = match self.logical_validity() {
-- 
2.43.0


From f4ea196714cf90553e358ea0e078f95d44634079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 21/55] fix: PrimitiveArray cast ignores the values behind
 nulls

---
 vortex-array/src/array/primitive/compute/cast.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 7db3ed3..13ffb82 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -3,7 +3,7 @@ use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::CastFn;
-use crate::validity::Validity;
+use crate::validity::{ArrayValidity, Validity};
 use crate::{Array, ArrayDType, IntoArray};
 
 impl CastFn for PrimitiveArray {
@@ -46,15 +46,18 @@ impl CastFn for PrimitiveArray {
 }
 
 fn cast<T: NativePType>(array: &PrimitiveArray) -> VortexResult<Vec<T>> {
+    let is_valid = array.logical_validity().to_null_buffer()?;
     match_each_native_ptype!(array.ptype(), |$E| {
         array
             .maybe_null_slice::<$E>()
             .iter()
+            .enumerate()
             // TODO(ngates): allow configurable checked/unchecked casting
-            .map(|&v| {
-                T::from(v).ok_or_else(|| {
-                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)
-                })
+            .map(|(idx, &v)| match T::from(v) {
+                Some(v) => Ok(v),
+                // The value behind a null is arbitrary
+                None if is_valid.as_ref().is_some_and(|b| b.is_null(idx)) => Ok(T::default()),
+                None => Err(vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)),
             })
             .collect()
     })
-- 
2.43.0


From ccbc669c8e15dcb7f6338daa2c6b2c696403e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 22/55] fix: ALPArray comparison with a constant accounts for
 patches, nulls and all operators

---
 encodings/alp/src/alp/compute.rs | 56 +++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..4063519 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -4,8 +4,9 @@ use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use vortex::stats::{ArrayStatistics, Stat};
-use vortex::validity::Validity;
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::validity::ArrayValidity;
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{VortexExpect, VortexResult};
 use vortex_scalar::{PValue, Scalar};
 
@@ -94,11 +95,12 @@ impl FilterFn for ALPArray {
 
 impl MaybeCompareFn for ALPArray {
     fn maybe_compare(&self, array: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        if ConstantArray::try_from(array).is_ok()
-            || array
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default()
+        if !array.is_empty()
+            && (ConstantArray::try_from(array).is_ok()
+                || array
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default())
         {
             let rhs = scalar_at(array, 0).vortex_expect("should be scalar");
             let pvalue = rhs
@@ -109,9 +111,9 @@ impl MaybeCompareFn for ALPArray {
             match pvalue {
                 Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
                 Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
-                    vec![false; self.len()],
-                    Validity::AllValid,
+                Some(_) | None => Some(Ok(ConstantArray::new(
+                    Scalar::null(DType::Bool(Nullability::Nullable)),
+                    self.len(),
                 )
                 .into_array())),
             }
@@ -129,21 +131,31 @@ fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
 where
     F::ALPInt: Into<Scalar>,
 {
-    let encoded = F::encode_single(value, alp.exponents());
-    match encoded {
-        Ok(encoded) => {
-            let s = ConstantArray::new(encoded, alp.len());
-            compare(alp.encoded(), s.as_ref(), operator)
-        }
-        Err(exception) => {
-            if let Some(patches) = alp.patches().as_ref() {
-                let s = ConstantArray::new(exception, alp.len());
-                compare(patches, s.as_ref(), operator)
-            } else {
-                Ok(BoolArray::from_vec(vec![false; alp.len()], Validity::AllValid).into_array())
+    // The encoded values of patched rows are placeholders, so only without patches do they decide.
+    if alp.patches().is_none() {
+        match (F::encode_single(value, alp.exponents()), operator) {
+            (Ok(encoded), _) => {
+                let s = ConstantArray::new(encoded, alp.len());
+                return compare(alp.encoded(), s.as_ref(), operator);
+            }
+            // Without patches, no value in the array equals one that cannot be encoded.
+            (Err(_), Operator::Eq | Operator::NotEq) => {
+                return Ok(BoolArray::from_vec(
+                    vec![operator == Operator::NotEq; alp.len()],
+                    alp.logical_validity().into_validity(),
+                )
+                .into_array());
             }
+            (Err(_), _) => {}
         }
     }
+
+    let s = ConstantArray::new(value, alp.len());
+    compare(
+        alp.clone().into_array().into_primitive()?,
+        s.as_ref(),
+        operator,
+    )
 }
 
 #[cfg(test)]
-- 
2.43.0


From cd9068385862591bed83bb8e880d3781e513d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 23/55] fix: comparing an FSSTArray with a null constant is a
 boolean null

---
 encodings/fsst/src/compute.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..56ee5dd 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -6,7 +6,7 @@ use vortex::compute::{
 };
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -82,7 +82,8 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            let null = Scalar::null(DType::Bool(Nullability::Nullable));
+            Ok(ConstantArray::new(null, left.len()).into_array())
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 632645d7fb04a69707b0ab19331c1bdbe98f8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 24/55] fix: BitPackedArray take puts patches at their rows
 when many rows are taken

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..20b79b7 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -136,11 +136,11 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
         patches: &SparseArray,
         indices: &PrimitiveArray,
         output: &mut [T],
+        position: impl Fn(usize) -> usize,
     ) -> VortexResult<()> {
         let taken_patches = take(patches.as_ref(), indices.as_ref())?;
         let taken_patches = SparseArray::try_from(taken_patches)?;
 
-        let base_index = output.len() - indices.len();
         let output_patches = taken_patches
             .values()
             .into_primitive()?
@@ -148,7 +148,7 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
         taken_patches
             .resolved_indices()
             .iter()
-            .map(|idx| base_index + *idx)
+            .map(|idx| position(*idx))
             .zip_eq(output_patches.maybe_null_slice::<T>())
             .for_each(|(idx, val)| {
                 output[idx] = *val;
@@ -162,25 +162,25 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
     // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
     let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
     if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
+        return inner_patch(patches, indices, output, |idx| idx);
     }
 
     let min_index = patches.min_index().unwrap_or_default();
     let max_index = patches.max_index().unwrap_or_default();
 
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
+    // Group indices into 1024-element chunks, along with their positions in the output
     let chunked_indices = &indices
         .maybe_null_slice::<I>()
         .iter()
         .map(|i| {
             i.to_usize()
                 .vortex_expect("index must be expressible as usize")
-                + offset
         })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
+        .enumerate()
+        .filter(|(_, i)| *i >= min_index && *i <= max_index) // short-circuit
+        .chunk_by(|(_, idx)| (idx + offset) / 1024);
 
-    for (chunk, offsets) in chunked_indices {
+    for (chunk, indices_in_chunk) in chunked_indices {
         // NOTE: we need to subtract the array offset before slicing into the patches.
         // This is because BitPackedArray is rounded to block boundaries, but patches
         // is sliced exactly.
@@ -192,21 +192,27 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
         let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
         let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
         let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
+        let (Some(min_index), Some(max_index)) =
+            (patches_slice.min_index(), patches_slice.max_index())
+        else {
             continue;
-        }
+        };
 
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
+        // relativize indices to the start of the sliced patches
+        let (positions, offsets): (Vec<usize>, Vec<u16>) = indices_in_chunk
+            .map(|(position, i)| (position, (i - patches_start) as u16))
+            .filter(|(_, i)| *i as usize >= min_index && *i as usize <= max_index)
+            .unzip();
         if offsets.is_empty() {
             continue;
         }
 
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
+        inner_patch(
+            &patches_slice,
+            &PrimitiveArray::from(offsets),
+            output,
+            |idx| positions[idx],
+        )?;
     }
 
     Ok(())
-- 
2.43.0


From dde5f8019f95dc18365929da3d247f6f93302630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 25/55] fix: ALPRDArray rows and decoded form keep the array's
 nullability

---
 encodings/alp/src/alp_rd/array.rs             | 4 ++--
 encodings/alp/src/alp_rd/compute/scalar_at.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..bb01077 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -214,7 +214,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                left_parts.validity(),
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +226,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                left_parts.validity(),
             )
         };
 
diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
-- 
2.43.0


From 394a9e1c76df07be41d90d0288c9f1866b604f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 26/55] fix: VarBinArray of binary decodes to binary

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From 1e1eb3be74d65d606c0a6888abd060e3ba210383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 27/55] fix: VarBinViewArray take keeps the array's nullability

---
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From f9f61114bdcc04331fa5519d15082a03e72db494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 28/55] fix: ALPArray rows held as patches keep the array's
 nullability

---
 encodings/alp/src/alp/compute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index 4063519..92ce147 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -43,7 +43,10 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                return Scalar::new(
+                    self.dtype().clone(),
+                    scalar_at_unchecked(&patches, index).into_value(),
+                );
             }
         }
 
-- 
2.43.0


From 00e4f57275f78cbb01fbfc946c777bb897eefa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 29/55] fix: ALP encoding keeps negative zeros

---
 encodings/alp/src/alp/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..1fd313d 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -173,6 +173,12 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     }
 }
 
+/// Whether two floats are equal and, for zeros, have the same sign.
+#[inline(always)]
+fn same_float<T: ALPFloat>(a: T, b: T) -> bool {
+    a == b && a.is_sign_negative() == b.is_sign_negative()
+}
+
 fn encode_chunk_unchecked<T: ALPFloat>(
     chunk: &[T],
     exp: Exponents,
@@ -191,7 +197,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !same_float(decoded, *v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +219,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !same_float(decoded, chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
-- 
2.43.0


From f202ea87c1663d942efd785591d18fe1b5ca01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 30/55] fix: DateTimePartsArray decodes parts of any integer
 type

---
 encodings/datetime-parts/src/compute.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/encodings/datetime-parts/src/compute.rs b/encodings/datetime-parts/src/compute.rs
index 5e57800..4ffb6d1 100644
--- a/encodings/datetime-parts/src/compute.rs
+++ b/encodings/datetime-parts/src/compute.rs
@@ -1,6 +1,6 @@
 use itertools::Itertools as _;
 use vortex::array::{PrimitiveArray, TemporalArray};
-use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::compute::unary::{scalar_at, try_cast, ScalarAtFn};
 use vortex::compute::{slice, take, ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::ArrayValidity;
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
@@ -77,9 +77,14 @@ impl ScalarAtFn for DateTimePartsArray {
             TimeUnit::D => vortex_bail!("Invalid time unit D"),
         };
 
-        let days: i64 = scalar_at(self.days(), index)?.try_into()?;
-        let seconds: i64 = scalar_at(self.seconds(), index)?.try_into()?;
-        let subseconds: i64 = scalar_at(self.subsecond(), index)?.try_into()?;
+        // The parts may be held in any integer type.
+        let part_dtype = DType::Primitive(PType::I64, nullability);
+        let part = |part: Array| -> VortexResult<i64> {
+            scalar_at(part, index)?.cast(&part_dtype)?.try_into()
+        };
+        let days = part(self.days())?;
+        let seconds = part(self.seconds())?;
+        let subseconds = part(self.subsecond())?;
 
         let scalar = days * 86_400 * divisor + seconds * divisor + subseconds;
 
@@ -114,9 +119,14 @@ pub fn decode_to_temporal(array: &DateTimePartsArray) -> VortexResult<TemporalAr
         TimeUnit::D => vortex_bail!(InvalidArgument: "cannot decode into TimeUnit::D"),
     };
 
-    let days_buf = array.days().into_primitive()?;
-    let seconds_buf = array.seconds().into_primitive()?;
-    let subsecond_buf = array.subsecond().into_primitive()?;
+    // The parts may be held in any integer type.
+    let decode_part = |part: Array| -> VortexResult<PrimitiveArray> {
+        let part_dtype = DType::Primitive(PType::I64, part.dtype().nullability());
+        try_cast(part.into_primitive()?, &part_dtype)?.into_primitive()
+    };
+    let days_buf = decode_part(array.days())?;
+    let seconds_buf = decode_part(array.seconds())?;
+    let subsecond_buf = decode_part(array.subsecond())?;
 
     let values = days_buf
         .maybe_null_slice::<i64>()
-- 
2.43.0


From f58d167a6b3722f5c558408f91693129eac5edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 31/55] fix: searching a BitPackedArray for many values
 accounts for patches and wide values

---
 .../src/bitpacking/compute/search_sorted.rs    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..a781387 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -28,7 +28,7 @@ impl SearchSortedFn for BitPackedArray {
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             // NOTE: conversion may truncate silently.
             if let Some(pvalue) = num_traits::cast::<u64, $P>(value) {
-                search_sorted_native(self, pvalue, side)
+                search_sorted_native(self, &BitPackedSearch::new(self), pvalue, side)
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
                 // the right end of the array.
@@ -52,7 +52,7 @@ impl SearchSortedFn for BitPackedArray {
                     // Unwrap to native value
                     let unwrapped_value: $P = value.cast(self.dtype())?.try_into()?;
 
-                    Ok(searcher.search_sorted(&unwrapped_value, side))
+                    search_sorted_native(self, &searcher, unwrapped_value, side)
                 })
                 .try_collect()
         })
@@ -70,10 +70,9 @@ impl SearchSortedFn for BitPackedArray {
                 .iter()
                 .copied()
                 .zip(sides.iter().copied())
-                .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                .map(|(value, side)| match num_traits::cast::<u64, $P>(value) {
+                    Some(pvalue) => search_sorted_native(self, &searcher, pvalue, side),
+                    None => Ok(SearchResult::NotFound(self.len())),
                 })
                 .try_collect()
         })
@@ -93,12 +92,13 @@ where
         + AsPrimitive<u64>,
 {
     let native_value: T = value.cast(array.dtype())?.try_into()?;
-    search_sorted_native(array, native_value, side)
+    search_sorted_native(array, &BitPackedSearch::new(array), native_value, side)
 }
 
 /// Native variant of search_sorted that operates over Rust unsigned integer types.
 fn search_sorted_native<T>(
     array: &BitPackedArray,
+    searcher: &BitPackedSearch<'_, T>,
     value: T,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult>
@@ -112,10 +112,10 @@ where
         if usize_value > array.max_packed_value() {
             search_sorted_u64(&patches_array, value.as_(), side)
         } else {
-            Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+            Ok(searcher.search_sorted(&value, side))
         }
     } else {
-        Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+        Ok(searcher.search_sorted(&value, side))
     }
 }
 
-- 
2.43.0


From 8cf104806fefd44accfd29f761258efaac79304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 32/55] fix: FSSTArray decodes lengths of any integer type

---
 encodings/fsst/src/canonical.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/encodings/fsst/src/canonical.rs b/encodings/fsst/src/canonical.rs
index 6dd9138..696691d 100644
--- a/encodings/fsst/src/canonical.rs
+++ b/encodings/fsst/src/canonical.rs
@@ -1,5 +1,6 @@
 use vortex::array::{PrimitiveArray, VarBinArray};
 use vortex::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
+use vortex_dtype::match_each_integer_ptype;
 use vortex_error::VortexResult;
 
 use crate::FSSTArray;
@@ -34,12 +35,14 @@ impl IntoCanonical for FSSTArray {
                 .uncompressed_lengths()
                 .into_canonical()?
                 .into_primitive()?;
-            let uncompressed_lens_slice = uncompressed_lens_array.maybe_null_slice::<i32>();
 
-            for len in uncompressed_lens_slice.iter() {
-                offset += len;
-                offsets.push(offset);
-            }
+            // The lengths may be held in any integer type.
+            match_each_integer_ptype!(uncompressed_lens_array.ptype(), |$P| {
+                for len in uncompressed_lens_array.maybe_null_slice::<$P>() {
+                    offset += *len as i32;
+                    offsets.push(offset);
+                }
+            });
 
             let offsets_array = PrimitiveArray::from(offsets).into_array();
             let uncompressed_bytes_array = PrimitiveArray::from(uncompressed_bytes).into_array();
-- 
2.43.0


From 125200deacb317cdc72edbe7806e25fb54eeec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 33/55] fix: DeltaArray encoding keeps the validity

---
 encodings/fastlanes/src/delta/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..af97a1c 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
-- 
2.43.0


From ee2b4d543ad32daf6d60f604370cdf0dd091d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 34/55] fix: DeltaArray visits its validity

---
 encodings/fastlanes/src/delta/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index af97a1c..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From f79e9a64a5db2b936cd2777b51f7725e0ed2896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 35/55] fix: a chunked temporal array without chunks decodes

---
 vortex-array/src/array/chunked/canonical.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/chunked/canonical.rs b/vortex-array/src/array/chunked/canonical.rs
index 741d8a8..6a446df 100644
--- a/vortex-array/src/array/chunked/canonical.rs
+++ b/vortex-array/src/array/chunked/canonical.rs
@@ -1,4 +1,5 @@
 use arrow_buffer::{BooleanBufferBuilder, Buffer, MutableBuffer, ScalarBuffer};
+use vortex_datetime_dtype::{TemporalMetadata, TimeUnit};
 use vortex_dtype::{DType, PType, StructDType};
 use vortex_error::{vortex_bail, vortex_err, ErrString, VortexResult};
 
@@ -69,7 +70,7 @@ pub(crate) fn try_canonicalize_chunks(
         //                /             \
         //          storage             storage
         //
-        DType::Extension(ext_dtype, _) => {
+        DType::Extension(ext_dtype, nullability) => {
             // Recursively apply canonicalization and packing to the storage array backing
             // each chunk of the extension array.
             let storage_chunks: Vec<Array> = chunks
@@ -78,11 +79,17 @@ pub(crate) fn try_canonicalize_chunks(
                 // ExtensionArray, so we should canonicalize each chunk into ExtensionArray first.
                 .map(|chunk| chunk.clone().into_extension().map(|ext| ext.storage()))
                 .collect::<VortexResult<Vec<Array>>>()?;
-            let storage_dtype = storage_chunks
-                .first()
-                .ok_or_else(|| vortex_err!("Expected at least one chunk in ChunkedArray"))?
-                .dtype()
-                .clone();
+            let storage_dtype = match storage_chunks.first() {
+                Some(chunk) => chunk.dtype().clone(),
+                // Without chunks, only the metadata tells how the values are stored.
+                None => match TemporalMetadata::try_from(ext_dtype)? {
+                    TemporalMetadata::Date(TimeUnit::D)
+                    | TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms) => {
+                        DType::Primitive(PType::I32, *nullability)
+                    }
+                    _ => DType::Primitive(PType::I64, *nullability),
+                },
+            };
             let chunked_storage =
                 ChunkedArray::try_new(storage_chunks, storage_dtype)?.into_array();
 
-- 
2.43.0


From 31ba24da3a616948a181d1f444f226fcdbdc7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 36/55] fix: timestamps read from Arrow keep their time zone

---
 vortex-array/src/arrow/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..16f79d1 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -85,9 +85,10 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        // The time zone belongs to the array: the type alone does not carry it.
+        match value.data_type().clone() {
             DataType::Timestamp(time_unit, tz) => {
-                let tz = tz.clone().map(|s| s.to_string());
+                let tz = tz.map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
             }
             DataType::Time32(time_unit) => {
-- 
2.43.0


From 77d7b98cae4ea43c5259d2ab3516a43ef142dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 37/55] fix: timestamps turned into Arrow keep their time zone

---
 vortex-array/src/canonical.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..13e98b4 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -270,13 +270,21 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, tz) => {
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => Arc::new(
+                    TimestampNanosecondArray::new(scalars, nulls).with_timezone_opt(tz.clone()),
+                ),
+                TimeUnit::Us => Arc::new(
+                    TimestampMicrosecondArray::new(scalars, nulls).with_timezone_opt(tz.clone()),
+                ),
+                TimeUnit::Ms => Arc::new(
+                    TimestampMillisecondArray::new(scalars, nulls).with_timezone_opt(tz.clone()),
+                ),
+                TimeUnit::S => Arc::new(
+                    TimestampSecondArray::new(scalars, nulls).with_timezone_opt(tz.clone()),
+                ),
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
-- 
2.43.0


From 853b9db8f957640e25ea9e286650a392fbc4ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 38/55] fix: a slice of a nullable delta-encoded array decodes

Decoding attached the array's validity, which covers only the sliced range, to
the values of the whole blocks and sliced both again.
---
 encodings/fastlanes/src/delta/compress.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..9ca5a8d 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -103,13 +103,19 @@ pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
         PrimitiveArray::from_vec(
             decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
+            Validity::NonNullable
         )
     });
 
-    decoded
+    // The array's validity already covers only the logical range of values.
+    let values = decoded
         .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+        .into_primitive()?;
+    Ok(PrimitiveArray::new(
+        values.buffer().clone(),
+        values.ptype(),
+        array.validity(),
+    ))
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
-- 
2.43.0


From f58c4e9bab4ea7f818765fc2b1968906d6065263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 39/55] fix: searching a u64 respects the array's type and its
 trailing nulls

---
 vortex-array/src/array/constant/compute.rs   |  1 +
 vortex-array/src/array/sparse/compute/mod.rs |  5 ++--
 vortex-array/src/compute/search_sorted.rs    | 24 ++++++++++++++++++--
 vortex-array/src/validity.rs                 |  5 ++++
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index d5884c0..4604cc6 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -92,6 +92,7 @@ impl SearchSortedFn for ConstantArray {
             return Ok(SearchResult::NotFound(0));
         }
 
+        let value = value.cast(self.dtype())?;
         match self
             .scalar_value()
             .partial_cmp(value.value())
diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index 80c1210..768dbcd 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -9,7 +9,7 @@ use crate::compute::{
     search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
     SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -56,7 +56,8 @@ impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
         // The patches alone only decide the position if every other element sorts before them.
         if self.indices().is_empty() || !self.fill_value().is_null() {
-            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+            let value = value.cast(self.dtype())?;
+            return Ok(SearchSorted::search_sorted(self.as_ref(), &value, side));
         }
 
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..234196d 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -4,6 +4,7 @@ use std::fmt::{Debug, Display, Formatter};
 use std::hint;
 
 use itertools::Itertools;
+use vortex_dtype::DType;
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
@@ -163,11 +164,17 @@ pub fn search_sorted_u64(
     target: u64,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult> {
+    let Some(scalar) = u64_as_dtype(target, array.dtype())? else {
+        // The target is greater than every value of the array's type. Nulls still sort after it.
+        return array
+            .with_dyn(|a| a.logical_validity().null_count())
+            .map(|null_count| SearchResult::NotFound(array.len() - null_count));
+    };
+
     array.with_dyn(|a| {
         if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
@@ -178,6 +185,14 @@ pub fn search_sorted_u64(
     })
 }
 
+/// The given number as a scalar of a primitive type, or `None` when the type can't represent it.
+fn u64_as_dtype(value: u64, dtype: &DType) -> VortexResult<Option<Scalar>> {
+    match dtype {
+        DType::Primitive(..) => Ok(Scalar::from(value).cast(dtype).ok()),
+        _ => vortex_bail!(InvalidArgument: "Can't search for a u64 in an array of {}", dtype),
+    }
+}
+
 /// Search for many elements in the array.
 pub fn search_sorted_many<T: Into<Scalar> + Clone>(
     array: &Array,
@@ -209,8 +224,13 @@ pub fn search_sorted_u64_many(
     targets: &[u64],
     sides: &[SearchSortedSide],
 ) -> VortexResult<Vec<SearchResult>> {
+    let all_representable = targets
+        .iter()
+        .map(|&target| u64_as_dtype(target, array.dtype()))
+        .process_results(|mut scalars| scalars.all(|scalar| scalar.is_some()))?;
+
     array.with_dyn(|a| {
-        if let Some(search_sorted) = a.search_sorted() {
+        if let Some(search_sorted) = a.search_sorted().filter(|_| all_representable) {
             search_sorted.search_sorted_u64_many(targets, sides)
         } else {
             // Call in loop and collect
diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..626ff64 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -350,6 +350,11 @@ impl LogicalValidity {
         }
     }
 
+    /// The number of null values
+    pub fn null_count(&self) -> VortexResult<usize> {
+        Ok(self.to_null_buffer()?.map_or(0, |nulls| nulls.null_count()))
+    }
+
     pub fn all_valid(&self) -> bool {
         matches!(self, Self::AllValid(_))
     }
-- 
2.43.0


From cd37c0e4eec723df2c18019e8856a6d3b26e233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 40/55] fix: symbol-table compression accepts arrays of empty
 strings

---
 encodings/fsst/src/compress.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encodings/fsst/src/compress.rs b/encodings/fsst/src/compress.rs
index 4f19755..879a229 100644
--- a/encodings/fsst/src/compress.rs
+++ b/encodings/fsst/src/compress.rs
@@ -102,8 +102,12 @@ where
             Some(s) => {
                 uncompressed_lengths.push(s.len() as i32);
 
-                // SAFETY: buffer is large enough
-                unsafe { compressor.compress_into(s, &mut buffer) };
+                // An empty string may point anywhere, compress_into computes with addresses in front of its end.
+                buffer.clear();
+                if !s.is_empty() {
+                    // SAFETY: buffer is large enough
+                    unsafe { compressor.compress_into(s, &mut buffer) };
+                }
 
                 builder.push_value(&buffer);
             }
-- 
2.43.0


From 750c19a4204e67514276269335a70ca0712e3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 41/55] fix: run ends of booleans cannot be empty, which is an
 error

---
 encodings/runend-bool/src/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index 03c9b23..5c23ea6 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -35,6 +35,9 @@ impl Display for RunEndBoolMetadata {
 
 impl RunEndBoolArray {
     pub fn try_new(ends: Array, start: bool, validity: Validity) -> VortexResult<Self> {
+        if ends.is_empty() {
+            vortex_bail!("Ends array must have at least one element");
+        }
         let length: usize = scalar_at(&ends, ends.len() - 1)?.as_ref().try_into()?;
         Self::with_offset_and_size(ends, start, validity, length, 0)
     }
-- 
2.43.0


From 9a3dac0d3e42852386039c031e393c92cd14507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 42/55] fix: validities combine whatever encoding their bitmaps
 have

---
 vortex-array/src/validity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 626ff64..bc3f8b0 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,8 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
+                let lhs = lhs.clone().into_bool()?;
+                let rhs = rhs.clone().into_bool()?;
 
                 let lhs = lhs.boolean_buffer();
                 let rhs = rhs.boolean_buffer();
-- 
2.43.0


From e95666613eb84b0bbaae0953122e5049fa0676c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 43/55] fix: an empty bitmap is a logical validity

---
 vortex-array/src/validity.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index bc3f8b0..371a4b5 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -327,6 +327,11 @@ impl LogicalValidity {
             vortex_bail!("Expected a non-nullable boolean array");
         }
 
+        // Statistics are not defined for an empty array.
+        if array.is_empty() {
+            return Ok(Self::AllValid(0));
+        }
+
         let true_count = array
             .statistics()
             .compute_true_count()
-- 
2.43.0


From 828c1cc61893317f9ecc6d67aeab69675c6d3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 44/55] fix: casting to non-nullable accepts any bitmap without
 nulls

---
 vortex-array/src/array/primitive/compute/cast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 13ffb82..6992ae5 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -20,7 +20,7 @@ impl CastFn for PrimitiveArray {
             // from non-nullable to nullable
             self.validity().into_nullable()
         } else if new_nullability == Nullability::NonNullable
-            && self.validity().to_logical(self.len()).all_valid()
+            && self.logical_validity().null_count()? == 0
         {
             // from nullable but all valid, to non-nullable
             Validity::NonNullable
-- 
2.43.0


From 7ba9882d0581fba43faef078c9a748aff1df36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:45 +0000
Subject: [PATCH 45/55] fix: arrays with empty buffers can be read back

---
 vortex-serde/src/message_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..1d66b4a 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -293,7 +293,12 @@ impl ArrayBufferReader {
                         // Strip off any padding from the previous buffer
                         bytes.advance(buffer.padding() as usize);
 
-                        Buffer::from(data_buffer)
+                        if data_buffer.is_empty() {
+                            // Empty Bytes do not point at suitably aligned memory.
+                            Buffer::from_len_zeroed(0)
+                        } else {
+                            Buffer::from(data_buffer)
+                        }
                     })
                     .collect::<Vec<_>>();
 
-- 
2.43.0


From 3475cea2bca9c36b61aa2164ec61a4677ebc199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 46/55] fix: binary scalars are serialized as bytes

---
 vortex-scalar/src/serde/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..cf94371 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_slice()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
-- 
2.43.0


From 0eacd63f727026e0a68141f0330c49c74ba58c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:44 +0000
Subject: [PATCH 47/55] fix: scalars hold primitive values in the width of
 their type

---
 vortex-scalar/src/lib.rs               |  7 +++++++
 vortex-scalar/src/pvalue.rs            | 14 +++++++++++++-
 vortex-scalar/src/serde/flatbuffers.rs |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..f34e189 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -42,6 +42,13 @@ pub struct Scalar {
 
 impl Scalar {
     pub fn new(dtype: DType, value: ScalarValue) -> Self {
+        // A deserialized primitive value may not have the width its dtype expects.
+        let value = match (&dtype, value) {
+            (DType::Primitive(ptype, _), ScalarValue::Primitive(p)) => {
+                ScalarValue::Primitive(p.with_ptype(*ptype))
+            }
+            (_, value) => value,
+        };
         Self { dtype, value }
     }
 
diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..d6f6247 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -5,7 +5,7 @@ use std::mem;
 use num_traits::NumCast;
 use paste::paste;
 use vortex_dtype::half::f16;
-use vortex_dtype::{NativePType, PType};
+use vortex_dtype::{match_each_native_ptype, NativePType, PType};
 use vortex_error::{vortex_err, VortexError};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -78,6 +78,16 @@ impl PValue {
         &self.ptype() == ptype
     }
 
+    /// The same value held as `ptype`, or `self` where `ptype` cannot hold the value.
+    pub(crate) fn with_ptype(self, ptype: PType) -> Self {
+        if self.is_instance_of(&ptype) {
+            return self;
+        }
+        match_each_native_ptype!(ptype, |$T| {
+            <$T>::try_from(self).map(PValue::from).unwrap_or(self)
+        })
+    }
+
     #[inline]
     pub fn as_primitive<T: NativePType + TryFrom<PValue, Error = VortexError>>(
         &self,
@@ -225,6 +235,8 @@ impl TryFrom<PValue> for f16 {
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
         // We serialize f16 as u16.
         match value {
+            // Formats that choose the narrowest width may hand the bits back as u8.
+            PValue::U8(u) => Some(Self::from_bits(u.into())),
             PValue::U16(u) => Some(Self::from_bits(u)),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
diff --git a/vortex-scalar/src/serde/flatbuffers.rs b/vortex-scalar/src/serde/flatbuffers.rs
index 2fc80db..c81b216 100644
--- a/vortex-scalar/src/serde/flatbuffers.rs
+++ b/vortex-scalar/src/serde/flatbuffers.rs
@@ -17,7 +17,7 @@ impl TryFrom<fb::Scalar<'_>> for Scalar {
         let reader = flexbuffers::Reader::get_root(value.value().flex().bytes())?;
         let value = ScalarValue::deserialize(reader)?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
-- 
2.43.0


From a2b24d7ef5b21f4dc0720ce709ef7390d7cd70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:57 +0000
Subject: [PATCH 48/55] fix: sparse arrays that were read back can be sliced,
 taken and filtered

---
 vortex-array/src/array/sparse/compute/mod.rs         | 2 +-
 vortex-array/src/array/sparse/compute/slice.rs       | 2 +-
 vortex-array/src/array/sparse/compute/take.rs        | 2 +-
 vortex-sampling-compressor/src/compressors/sparse.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index 768dbcd..f80b5d5 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -110,7 +110,7 @@ impl FilterFn for SparseArray {
             PrimitiveArray::from(coordinate_indices).into_array(),
             take(self.values(), PrimitiveArray::from(value_indices))?,
             buffer.count_set_bits(),
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-array/src/array/sparse/compute/slice.rs b/vortex-array/src/array/sparse/compute/slice.rs
index 97bb7f2..d17c672 100644
--- a/vortex-array/src/array/sparse/compute/slice.rs
+++ b/vortex-array/src/array/sparse/compute/slice.rs
@@ -15,7 +15,7 @@ impl SliceFn for SparseArray {
             slice(self.values(), index_start_index, index_end_index)?,
             stop - start,
             self.indices_offset() + start,
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-array/src/array/sparse/compute/take.rs b/vortex-array/src/array/sparse/compute/take.rs
index d2f9759..fe363c7 100644
--- a/vortex-array/src/array/sparse/compute/take.rs
+++ b/vortex-array/src/array/sparse/compute/take.rs
@@ -26,7 +26,7 @@ impl TakeFn for SparseArray {
             positions.into_array(),
             taken_values,
             indices.len(),
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..0a73600 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -44,7 +44,7 @@ impl EncodingCompressor for SparseCompressor {
                 indices.array,
                 values.array,
                 sparse_array.len(),
-                sparse_array.fill_value().clone(),
+                sparse_array.fill_scalar().into_value(),
             )?
             .into_array(),
             Some(CompressionTree::new(self, vec![indices.path, values.path])),
-- 
2.43.0


From 5a98c834a51140eb0acf3b0a7c4a41525ab74b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 49/55] fix: constant arrays that were read back can be
 searched

---
 vortex-array/src/array/constant/compute.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 4604cc6..5cce062 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -94,7 +94,8 @@ impl SearchSortedFn for ConstantArray {
 
         let value = value.cast(self.dtype())?;
         match self
-            .scalar_value()
+            .owned_scalar()
+            .value()
             .partial_cmp(value.value())
             .unwrap_or(Ordering::Less)
         {
-- 
2.43.0


From 56fedde52859c43d81ee6691750e7d4112d07849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 50/55] fix: empty buffers convert to aligned Arrow buffers

---
 vortex-buffer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..f3d7d14 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // An empty Vec<u8> does not point at suitably aligned memory.
+            Buffer::Bytes(b) if b.is_empty() => ArrowMutableBuffer::from_len_zeroed(0).into(),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
-- 
2.43.0


From 4847130bca7ccd8b73fb515a687bbcb3fa029f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:07 +0000
Subject: [PATCH 51/55] fix: columns of chunked tables can be evaluated

---
 vortex-expr/src/column.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vortex-expr/src/column.rs b/vortex-expr/src/column.rs
index d663b9b..60e5360 100644
--- a/vortex-expr/src/column.rs
+++ b/vortex-expr/src/column.rs
@@ -1,8 +1,6 @@
 use std::any::Any;
 use std::collections::HashSet;
 
-use vortex::array::StructArray;
-use vortex::variants::StructArrayTrait;
 use vortex::Array;
 use vortex_dtype::field::Field;
 use vortex_error::{vortex_err, VortexResult};
@@ -42,13 +40,17 @@ impl VortexExpr for Column {
     }
 
     fn evaluate(&self, batch: &Array) -> VortexResult<Array> {
-        let s = StructArray::try_from(batch)?;
+        batch.with_dyn(|s| {
+            let s = s
+                .as_struct_array()
+                .ok_or_else(|| vortex_err!("Not a struct array"))?;
 
-        match &self.field {
-            Field::Name(n) => s.field_by_name(n),
-            Field::Index(i) => s.field(*i),
-        }
-        .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+            match &self.field {
+                Field::Name(n) => s.field_by_name(n),
+                Field::Index(i) => s.field(*i),
+            }
+            .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+        })
     }
 
     fn collect_references<'a>(&'a self, references: &mut HashSet<&'a Field>) {
-- 
2.43.0


From 549a1bf34eda64e2baa878a3ebddb4adc028959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:35 +0000
Subject: [PATCH 52/55] fix: batches after one without matches are filtered

---
 vortex-serde/src/layouts/read/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..5f377fb 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -142,7 +142,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
 
                     if let Some(mask) = self.cached_mask.take() {
                         if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                            self.state = StreamingState::FilterInit;
                             continue;
                         }
 
-- 
2.43.0


From ba662c98770d991aedd00519155d408f09426318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:35 +0000
Subject: [PATCH 53/55] fix: row filters only stop early when no rows are left

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
-- 
2.43.0


From c1343d16242fa71a7bd3bb71e8b06e7398cfb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:35 +0000
Subject: [PATCH 54/55] fix: boolean operations of constants with arrays of any
 encoding

---
 vortex-array/src/array/constant/compute.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 5cce062..af1b70b 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -11,7 +11,7 @@ use crate::compute::{
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -172,7 +172,13 @@ fn constant_array_bool_impl(
         Ok(ConstantArray::new(scalar, constant_array.len()).into_array())
     } else {
         // try and use a the rhs specialized implementation if it exists
-        match fallback_fn(other, constant_array.as_ref()) {
+        if let Some(r) = fallback_fn(other, constant_array.as_ref()) {
+            return r;
+        }
+
+        // otherwise expand it into a `BoolArray`, which does have one
+        let other = other.clone().into_bool()?;
+        match fallback_fn(other.as_ref(), constant_array.as_ref()) {
             Some(r) => r,
             None => vortex_bail!("Operation is not supported"),
         }
-- 
2.43.0


From 4b5e12290dd5ab5025c014232abe0b90d127bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 55/55] fix: row filters with columns by index see the whole
 table

---
 vortex-serde/src/layouts/read/builder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..99e69ec 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -77,11 +78,15 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         ));
         let read_projection = self.projection.unwrap_or_default();
 
-        let filter_projection = self
-            .row_filter
-            .as_ref()
-            .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+        let filter_projection = self.row_filter.as_ref().map(|f| {
+            let references = f.references();
+            // Indices are positions in the whole struct, and without any column there are no rows
+            if references.is_empty() || references.iter().any(|r| matches!(r, Field::Index(_))) {
+                Projection::All
+            } else {
+                Projection::from(references.into_iter().cloned().collect::<Vec<_>>())
+            }
+        });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0

