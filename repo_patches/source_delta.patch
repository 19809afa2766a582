From aae87313435693772ba1cda86ee1ae580b797e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 1/6] fix: vector layouts map a 1D index to row/column 0, not 1

---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..210ac49 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 00469aab2fd10c6715e23c389306b7c2a86b23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:47 +0000
Subject: [PATCH 2/6] fix: arbitrary stride layouts report the stride they were
 built with

---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 6ded400ebdd4f3704908f95d7871ef8e38d96296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 3/6] fix: ColumnVector::from_dimension checks the number of
 columns

---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 210ac49..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From c38df3e5cf03d856081d62b26bdf48c5320e43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 4/6] fix: a matrix requires a container large enough for its
 strides

BaseMatrix::new compared the number of elements with the container length, which
says nothing about strided layouts (the last element lies at a larger raw
position) and wraps around for huge dimensions in release builds. Both let
safely constructed matrices access memory outside of their container. Layouts
now report the container size they require with checked arithmetic.
---
 src/base_matrix.rs                            |  7 ++++---
 src/layouts/arbitrary_stride_column_major.rs  | 10 ++++++++++
 src/layouts/arbitrary_stride_column_vector.rs |  8 ++++++++
 src/layouts/arbitrary_stride_row_major.rs     | 10 ++++++++++
 src/layouts/arbitrary_stride_row_vector.rs    |  8 ++++++++
 src/layouts/upper_triangular.rs               |  5 +++++
 src/traits/layout.rs                          |  8 ++++++++
 7 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..288841a 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,11 +36,12 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        let required = layout.required_elements();
         assert!(
-            layout.number_of_elements() <= data.number_of_elements(),
-            "Number of elements in data: {}. But layout number of elements is {})",
+            required.map_or(false, |n| n <= data.number_of_elements()),
+            "Number of elements in data: {}. But layout requires {:?}",
             data.number_of_elements(),
-            layout.number_of_elements(),
+            required,
         );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..2b622e3 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -60,6 +60,16 @@ impl LayoutType for ArbitraryStrideColumnMajor {
         self.dim.0 * self.dim.1
     }
 
+    #[inline]
+    fn required_elements(&self) -> Option<IndexType> {
+        if self.dim.0.checked_mul(self.dim.1)? == 0 {
+            return Some(0);
+        }
+        let last_row = (self.dim.0 - 1).checked_mul(self.stride.0)?;
+        let last_col = (self.dim.1 - 1).checked_mul(self.stride.1)?;
+        last_row.checked_add(last_col)?.checked_add(1)
+    }
+
     #[inline]
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..1cd7693 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -60,6 +60,14 @@ impl LayoutType for ArbitraryStrideColumnVector {
         self.dim
     }
 
+    #[inline]
+    fn required_elements(&self) -> Option<IndexType> {
+        match self.dim {
+            0 => Some(0),
+            dim => (dim - 1).checked_mul(self.stride)?.checked_add(1),
+        }
+    }
+
     #[inline]
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().0)
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..3b5b001 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -59,6 +59,16 @@ impl LayoutType for ArbitraryStrideRowMajor {
         self.dim.0 * self.dim.1
     }
 
+    #[inline]
+    fn required_elements(&self) -> Option<IndexType> {
+        if self.dim.0.checked_mul(self.dim.1)? == 0 {
+            return Some(0);
+        }
+        let last_row = (self.dim.0 - 1).checked_mul(self.stride.0)?;
+        let last_col = (self.dim.1 - 1).checked_mul(self.stride.1)?;
+        last_row.checked_add(last_col)?.checked_add(1)
+    }
+
     #[inline]
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..0dad6f0 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -60,6 +60,14 @@ impl LayoutType for ArbitraryStrideRowVector {
         self.dim
     }
 
+    #[inline]
+    fn required_elements(&self) -> Option<IndexType> {
+        match self.dim {
+            0 => Some(0),
+            dim => (dim - 1).checked_mul(self.stride)?.checked_add(1),
+        }
+    }
+
     #[inline]
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().1)
diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..f37c345 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -67,6 +67,11 @@ impl LayoutType for UpperTriangular {
         (self.dim * (self.dim + 1)) / 2
     }
 
+    #[inline]
+    fn required_elements(&self) -> Option<IndexType> {
+        Some(self.dim.checked_mul(self.dim.checked_add(1)?)? / 2)
+    }
+
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
         std::unimplemented!("method 'stride' not implemented for UpperTriangular layout.")
diff --git a/src/traits/layout.rs b/src/traits/layout.rs
index a59d192..377007c 100644
--- a/src/traits/layout.rs
+++ b/src/traits/layout.rs
@@ -116,6 +116,14 @@ pub trait LayoutType {
     /// The number of elements in the matrix or vector.
     fn number_of_elements(&self) -> IndexType;
 
+    /// The number of elements a data container needs to have so that every
+    /// element of the matrix or vector has a raw position inside of it. Returns
+    /// `None` if that number or the number of elements is not representable.
+    fn required_elements(&self) -> Option<IndexType> {
+        let dim = self.dim();
+        dim.0.checked_mul(dim.1)
+    }
+
     /// Convert a 1d logical `index` to a 2d `(row, col)` index.
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType);
 
-- 
2.43.0


From e6a0118e87a40b0440e46bf6c60f1d36d57f337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 5/6] fix: blocks and splits outside of the matrix are
 rejected, empty ones are not

The bounds check of block/block_mut added the offset to the dimension, which
wraps around in release builds and let blocks outside of the parent through.
split_in_four_mut did not check the split position at all. For empty blocks
computing the last element underflowed (a panic in dev builds, a slice of
arbitrary length in release builds).
---
 src/matrix/constructors.rs  | 12 +++++--
 src/matrix/matrix_slices.rs | 62 +++++++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..0ecb449 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..3d8e4f5 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -7,6 +7,39 @@ use crate::layouts::*;
 use crate::traits::*;
 use crate::types::{HScalar, IndexType};
 
+/// Assert that the block of dimension `dim` at `top_left` fits into a matrix of dimension `mat_dim`.
+#[inline]
+fn assert_block(
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+    mat_dim: (IndexType, IndexType),
+) {
+    assert!(
+        (top_left.0 <= mat_dim.0)
+            && (dim.0 <= mat_dim.0 - top_left.0)
+            && (top_left.1 <= mat_dim.1)
+            && (dim.1 <= mat_dim.1 - top_left.1),
+        "Block with top-left element {:?} and dim {:?} out of bounds for matrix with dim {:?}",
+        top_left,
+        dim,
+        mat_dim
+    );
+}
+
+/// Raw position of the first element of a block. An empty block has no element and starts at 0.
+#[inline]
+fn block_start<L: LayoutType>(
+    layout: &L,
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+) -> IndexType {
+    if dim.0 == 0 || dim.1 == 0 {
+        0
+    } else {
+        layout.convert_2d_raw(top_left.0, top_left.1)
+    }
+}
+
 macro_rules! block_matrix {
     ($Layout:ident, $StrideLayout:ident, $RS:ident, $CS:ident) => {
         impl<Item: HScalar, Data: DataContainer<Item = Item>>
@@ -21,14 +54,8 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                assert_block(top_left, dim, self.layout().dim());
+                let start_index = block_start(self.layout(), top_left, dim);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                         self.get_pointer().add(start_index),
@@ -50,14 +77,8 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                assert_block(top_left, dim, self.layout().dim());
+                let start_index = block_start(self.layout(), top_left, dim);
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -96,6 +117,7 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert_block((0, 0), split_at, dim);
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
@@ -108,10 +130,10 @@ macro_rules! subdivide_matrix {
                 let origin2 = (split_at.0, 0);
                 let origin3 = split_at;
 
-                let start0 = self.layout().convert_2d_raw(origin0.0, origin0.1) as isize;
-                let start1 = self.layout().convert_2d_raw(origin1.0, origin1.1) as isize;
-                let start2 = self.layout().convert_2d_raw(origin2.0, origin2.1) as isize;
-                let start3 = self.layout().convert_2d_raw(origin3.0, origin3.1) as isize;
+                let start0 = block_start(self.layout(), origin0, dim0) as isize;
+                let start1 = block_start(self.layout(), origin1, dim1) as isize;
+                let start2 = block_start(self.layout(), origin2, dim2) as isize;
+                let start3 = block_start(self.layout(), origin3, dim3) as isize;
 
                 let blocks = unsafe {
                     (
-- 
2.43.0


From 8faf2c21088bf6bab310b8c5d08100407c23c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 6/6] fix: length of a base row vector is the layout's, not the
 container's

---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 288841a..9fd848d 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -150,7 +150,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.number_of_elements()
             }
         }
     };
-- 
2.43.0

