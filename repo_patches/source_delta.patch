From 4fd79fbe94488404933fd38b28f932500fe52118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 01/17] fix: matmul gradients of operands with more than 32
 elements are misplaced

SplitArrayWriter routes index i to segment i / 32, but rchunks_mut numbers
the segments from the end of the array, so every gradient with more than one
segment came out with its segments permuted.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From ac0c24f26f22dd6d09b84e423abc69e6a9ab3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 02/17] fix: the gradient of sum ignores the incoming gradient

Everything below a sum received ones, whatever was applied to the sum
afterwards: x.sum().neg().backward() left +1 in x.
---
 src/tensor/autograd/jvp.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..8d9bae0 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,6 +1,6 @@
 use crate::tensor::numeric::*;
 
-use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
+use crate::tensor::{RcTensor, TensorLike, TensorList};
 
 #[derive(Debug, PartialEq, Clone)]
 pub(in crate::tensor) struct Derivative<T: Numeric> {
@@ -74,6 +74,10 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
-    vec![RcTensor::from_raw(raw_tensor)]
+    let array = grads[0]
+        .array
+        .iter()
+        .flat_map(|&g| std::iter::repeat(g).take(length_1))
+        .collect();
+    vec![RcTensor::new(array, vec![length_2, length_1])]
 }
-- 
2.43.0


From 93eab587ec0985955b7870b51761f424daac1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 03/17] fix: backward panics on some one-element results and on
 composed dots

Every backward function expects a (rows, elements) gradient, but the seed was
a rank-0 scalar, so calling backward directly on a one-element matmul or abs
panicked. dot only coped with that scalar seed and handed a rank-1 gradient
to its own inputs, so a dot could be neither an operand nor applied to
computed operands.
---
 src/tensor/functional/misc.rs | 18 ++++++++++++------
 src/tensor/rc_tensor.rs       |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..45d4c54 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -366,11 +366,17 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
         inputs.len(),
         jacobians.len()
     );
-    let (left, right) = (inputs[0].clone(), inputs[1].clone());
-    let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
-    vec![left_jvp, right_jvp]
+    let (left, right) = (&inputs[0], &inputs[1]);
+    // d(left . right)/d(left) is right flattened into one row, and vice versa
+    let outer = |row: &RcTensor<T>| {
+        let grads = &jacobians[0].array;
+        let array = grads
+            .iter()
+            .flat_map(|&g| row.array.iter().map(move |&v| g * v))
+            .collect();
+        RcTensor::new(array, vec![grads.len(), row.count()])
+    };
+    vec![outer(right), outer(left)]
 }
 
 #[test]
diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..4336da1 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new_with_filler(vec![1, 1], T::one())])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 8859d54b3ee90f753d496642815bdf40a7dd084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 04/17] fix: sum pre-loads a bogus gradient into its result

The scalar came back with a gradient of ones in the shape of the summed
tensor, which a later backward pass then added to.
---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 47f155e7e47ac07314991a752eda38a023f093d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 05/17] fix: gradient accumulation loses concurrent updates and
 keeps all history

update_grad read the old gradient under one lock and stored the sum under
another, so backward passes on two threads that share a tensor could drop a
contribution. It also recorded the sum for autograd, which kept every earlier
partial gradient alive.
---
 src/tensor/raw_tensor.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..4fd14fc 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -2,7 +2,7 @@ use std::cmp::PartialEq;
 use std::convert::From;
 use std::{
     ops::{Add, Deref, Index, Mul, Neg, Sub},
-    sync::RwLock,
+    sync::{Arc, RwLock},
 };
 
 use super::autograd::Derivative;
@@ -305,11 +305,28 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
-            None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
-        };
-        *self.grad.write().unwrap() = new_grad;
+        let mut seen = self.grad.read().unwrap().clone();
+        loop {
+            // The sum is a plain value (no grad_fn), so that it does not keep
+            // every earlier gradient alive. It is computed before locking, so
+            // that a panicking addition cannot poison the lock.
+            let total = match &seen {
+                None => grad.clone(),
+                Some(previous) => RcTensor::from_raw(functional::add_raw(previous, &grad)),
+            };
+            let mut slot = self.grad.write().unwrap();
+            let unchanged = match (&*slot, &seen) {
+                (None, None) => true,
+                (Some(now), Some(before)) => Arc::ptr_eq(&now.0, &before.0),
+                _ => false,
+            };
+            if unchanged {
+                *slot = Some(total);
+                return;
+            }
+            // another thread accumulated in the meantime: add to its total
+            seen = slot.clone();
+        }
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From ff934586f1de0fc1e63da7508f7915bd0830e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 06/17] fix: matmul backward deadlocks when it runs inside a
 rayon pool

Called from a pool worker, the scope's jobs go to that worker's LIFO deque,
so the blocking channel readers were picked up before the writers that feed
them: one worker, or as many concurrent backward passes as workers, hung
forever.
---
 src/tensor/functional/misc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 45d4c54..7e89683 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -255,9 +255,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -321,6 +321,11 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // The readers block until every sender is gone. They only start once all
+    // writers are done: a reader that waits for a writer queued behind it on
+    // the same worker would never wake up.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From 5e31f38956199dd51d5f251f0fae5035bc67cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 07/17] fix: indexing a view ignores the view's own shape

Elements were looked up with the shape of the sliced tensor, so a reshaped
view could not be read, a view with an extent of one did not broadcast, and
an index out of range panicked instead of returning the error.
---
 src/tensor/tensor_view.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..a39daef 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::ElementIterator;
+use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -33,9 +33,7 @@ where
     type Output = T;
 
     fn index(&self, index: IndexType) -> &Self::Output {
-        self.tensor
-            .get_with_offset(index, &self.view.offset)
-            .unwrap()
+        self.get(index).unwrap()
     }
 }
 
@@ -125,11 +123,13 @@ where
     }
 
     fn get(&self, index: IndexType) -> Result<&T, String> {
-        let idx = self
-            .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
-        Ok(&self.tensor.array[idx])
+        // where the element is in the view, in row-major order
+        let position = global_index(index, &self.view.shape, None)?;
+        // the element at the same position of the sliced region
+        let sliced_shape: Vec<usize> = self.view.offset.iter().map(|r| r.end - r.start).collect();
+        let sliced_index = tensor_index(position, &sliced_shape)?;
+        self.tensor
+            .get_with_offset(&sliced_index, &self.view.offset)
     }
 
     fn count(&self) -> usize {
-- 
2.43.0


From 1f6f484338d49e8d7b96f08dcc9c522de9dccf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 08/17] fix: slicing a view slices the tensor behind it

The ranges were applied to the underlying tensor instead of the view.
---
 src/tensor/tensor_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index a39daef..d4c3d17 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -137,7 +137,7 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
-        TensorView::new(self.tensor(), offset)
+        TensorView::new(self.to_tensor(), offset)
     }
 
     fn bmm<U>(&self, right: &U) -> Self::ResultTensorType<'_>
-- 
2.43.0


From 193fdc36c6ef9ba18cdf1b29880adde3e6cfdf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 09/17] fix: scaling a view and dot with a view read the tensor
 behind the view

Both walked the storage of the underlying tensor, so a view produced the
wrong elements, or a tensor with more elements than its shape allows.
---
 src/tensor/functional/misc.rs | 4 ++--
 src/tensor/tensor_like.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 7e89683..aa0a9ed 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (l, r) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += l * r;
     }
     RawTensor {
         array: vec![result],
diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 8ac3641fd6294fa6ae9722770a9fd4809ece284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 10/17] fix: matmul accepts a left operand of rank 4 and drops
 rows

With leading extents of one, the indexing happened to succeed and the result
silently lacked rows. Only ranks two and three are implemented.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index aa0a9ed..c1bad0d 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From a4c155a52c13395ac5046f84b82ab8df2d14e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 11/17] fix: sgd_step chains every parameter to all of its
 predecessors

The updated parameters were recorded as computed from the old ones, so each
backward pass also walked through (and changed the gradients of) the
parameters of every earlier step, which were never freed.
---
 src/optim/sgd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..d1f21eb 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,9 +33,9 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
+            // detached, so that the next backward pass ends at the new parameter
+            // instead of continuing into every earlier one
+            (p.clone() - &step_size * p.grad()).deep_clone()
         })
         .collect();
     module.update_params(new_params);
-- 
2.43.0


From e1d085ed73b4817d99c7ec796aa762a5348617f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 12/17] fix: iterating over an empty view panics

A range may be empty, but the iterators produced a first index even when
there is no element, so summing, copying or comparing an empty view
panicked.
---
 src/tensor/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..2ac111e 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -38,6 +38,9 @@ where
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.tensor_like.shape().contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             let &elem = self.tensor_like.get(&self.index).unwrap();
@@ -87,6 +90,9 @@ impl IndexIterator {
 impl Iterator for IndexIterator {
     type Item = Vec<usize>;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.dimensions.contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             return Some(self.index.clone());
-- 
2.43.0


From 4cb0afda0d54bade836889d57b28a6dcb6ac1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 13/17] fix: shapes whose element count overflows are accepted
 in release builds

The product of the extents wrapped, so that for example no data at all
"filled" a shape of [65536, 65536, 65536, 65536], and any view of a tensor
could be reshaped to shapes with a product that is equal modulo 2^64.
---
 src/tensor/raw_tensor.rs  | 15 +++------------
 src/tensor/tensor_view.rs |  4 ++--
 src/tensor/utils.rs       | 11 +++++++++++
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 4fd14fc..5d7e339 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -138,10 +138,7 @@ where
     }
 
     pub(in crate::tensor) fn new_empty(shape: Vec<usize>) -> RawTensor<T> {
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
+        let total = element_count(&shape);
 
         RawTensor {
             array: Vec::with_capacity(total),
@@ -159,10 +156,7 @@ where
                 ..Default::default()
             };
         }
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
+        let total = element_count(&shape);
 
         let mut tensor = RawTensor {
             array: Vec::with_capacity(total),
@@ -184,10 +178,7 @@ where
     }
 
     pub fn new(array: Vec<T>, shape: Vec<usize>) -> RawTensor<T> {
-        let mut len = 1;
-        for dim in shape.iter() {
-            len *= dim;
-        }
+        let len = element_count(&shape);
         assert_eq!(
             len,
             array.len(),
diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index d4c3d17..fdecb7b 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
+use crate::tensor::utils::{element_count, global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -64,7 +64,7 @@ where
     pub fn reshape(&self, shape: Vec<usize>) -> Self {
         assert_eq!(
             self.view.shape.iter().product::<usize>(),
-            shape.iter().product::<usize>()
+            element_count(&shape)
         );
         TensorView {
             tensor: self.tensor.clone(),
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 2ac111e..b3bef75 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -127,6 +127,17 @@ fn reset_trailing_indices(index: &mut [usize], position: usize) {
     }
 }
 
+/// The number of elements in a tensor of this shape. Panics where a `usize` cannot hold it.
+pub(in crate::tensor) fn element_count(shape: &[usize]) -> usize {
+    if shape.contains(&0) {
+        return 0;
+    }
+    shape
+        .iter()
+        .try_fold(1usize, |count, &dim| count.checked_mul(dim))
+        .unwrap_or_else(|| panic!("too many elements in shape {shape:?}"))
+}
+
 pub(in crate::tensor) fn tensor_index(
     global_index: usize,
     shape: &[usize],
-- 
2.43.0


From 7fc42cc57a70eb6a6cd9fe3a22d6e9fbf7307f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 14/17] fix: long chains of operations overflow the stack

The backward pass and dropping a result recursed once per operation, so a
chain of some thousand operations aborted the process.
---
 src/tensor/autograd/jvp.rs | 53 +++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 8d9bae0..73b9425 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use crate::tensor::numeric::*;
 
 use crate::tensor::{RcTensor, TensorLike, TensorList};
@@ -31,22 +33,43 @@ impl<T: Numeric> Derivative<T> {
         // f(g(h(x))) how do i set x.grad if we are now computing f'
         // grad = f'(g(hx)) g'(h(x)) h'(x)
         // f(g(h(x), z)) how do i set x.grad if we are now computing f'
-        let self_grads = (self.jacobian_vector_product)(self.inputs.clone(), outer_grads);
-        //        dbg!(self_grads.len(), self.inputs.len(), &self.debug_info);
-        //        // dbg!(&self.inputs);
-        for (grad, input) in self_grads.iter().zip(self.inputs.iter()) {
-            //            //            dbg!(&grad, &input, &self.debug_info);
-            debug_assert_eq!(
-                grad.count(),
-                input.count(),
-                "grad and input must have the same number of elements"
-            );
-            let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
-            input.update_grad(shaped_grad);
-            if let Some(d) = input.grad_fn.as_ref() {
-                d.compute_jvp(vec![grad.clone()]);
+        //
+        // Pending steps are kept in a list: recursion would overflow the stack
+        // on a long chain of operations.
+        let mut pending = vec![(self, outer_grads)];
+        while let Some((derivative, outer_grads)) = pending.pop() {
+            let inputs = &derivative.inputs;
+            let grads = (derivative.jacobian_vector_product)(inputs.clone(), outer_grads);
+            //        dbg!(grads.len(), inputs.len(), &derivative.debug_info);
+            //        // dbg!(&inputs);
+            for (grad, input) in grads.into_iter().zip(inputs.iter()) {
+                //            //            dbg!(&grad, &input, &derivative.debug_info);
+                debug_assert_eq!(
+                    grad.count(),
+                    input.count(),
+                    "grad and input must have the same number of elements"
+                );
+                let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
+                input.update_grad(shaped_grad);
+                if let Some(d) = input.grad_fn.as_ref() {
+                    pending.push((d, vec![grad]));
+                }
+                //            dbg!(&input);
+            }
+        }
+    }
+}
+
+/// Frees a long chain of operations without recursion, which would overflow the stack.
+impl<T: Numeric> Drop for Derivative<T> {
+    fn drop(&mut self) {
+        let mut pending = std::mem::take(&mut self.inputs);
+        while let Some(tensor) = pending.pop() {
+            if let Some(mut raw_tensor) = Arc::into_inner(tensor.0) {
+                if let Some(d) = raw_tensor.grad_fn.as_mut() {
+                    pending.append(&mut d.inputs);
+                }
             }
-            //            dbg!(&input);
         }
     }
 }
-- 
2.43.0


From fc7b0436547222fbe1cab516bb119dc0cd6cb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 15/17] fix: backward takes exponential time where results are
 shared

Each path through the graph was followed on its own, so 40 additions that
each use the previous result twice needed 2^40 steps. Every tensor now
passes its gradient on once, when all of its uses have contributed.
---
 src/tensor/autograd/jvp.rs | 42 +++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 73b9425..f3ef4f2 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,8 +1,10 @@
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use crate::tensor::numeric::*;
 
-use crate::tensor::{RcTensor, TensorLike, TensorList};
+use crate::tensor::functional::add_raw;
+use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
 
 #[derive(Debug, PartialEq, Clone)]
 pub(in crate::tensor) struct Derivative<T: Numeric> {
@@ -34,10 +36,25 @@ impl<T: Numeric> Derivative<T> {
         // grad = f'(g(hx)) g'(h(x)) h'(x)
         // f(g(h(x), z)) how do i set x.grad if we are now computing f'
         //
-        // Pending steps are kept in a list: recursion would overflow the stack
-        // on a long chain of operations.
-        let mut pending = vec![(self, outer_grads)];
-        while let Some((derivative, outer_grads)) = pending.pop() {
+        // Every tensor passes its gradient on once, when all the steps that used it have
+        // contributed: following each path on its own takes exponential time where
+        // results are shared. Lists are used rather than recursion, which would overflow
+        // the stack on a long chain of operations.
+        let mut missing: HashMap<*const RawTensor<T>, usize> = HashMap::new();
+        let mut pending = vec![self];
+        while let Some(derivative) = pending.pop() {
+            for input in derivative.inputs.iter() {
+                let uses = missing.entry(Arc::as_ptr(&input.0)).or_insert(0);
+                *uses += 1;
+                if *uses == 1 {
+                    pending.extend(input.grad_fn.as_ref());
+                }
+            }
+        }
+
+        let mut totals: HashMap<*const RawTensor<T>, RcTensor<T>> = HashMap::new();
+        let mut ready = vec![(self, outer_grads)];
+        while let Some((derivative, outer_grads)) = ready.pop() {
             let inputs = &derivative.inputs;
             let grads = (derivative.jacobian_vector_product)(inputs.clone(), outer_grads);
             //        dbg!(grads.len(), inputs.len(), &derivative.debug_info);
@@ -49,10 +66,21 @@ impl<T: Numeric> Derivative<T> {
                     input.count(),
                     "grad and input must have the same number of elements"
                 );
-                let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
+                let key = Arc::as_ptr(&input.0);
+                let total = match totals.remove(&key) {
+                    None => grad,
+                    Some(previous) => RcTensor::from_raw(add_raw(&previous, &grad)),
+                };
+                let uses = missing.get_mut(&key).unwrap();
+                *uses -= 1;
+                if *uses > 0 {
+                    totals.insert(key, total);
+                    continue;
+                }
+                let shaped_grad = RcTensor::new(total.0.array.clone(), input.shape().to_vec());
                 input.update_grad(shaped_grad);
                 if let Some(d) = input.grad_fn.as_ref() {
-                    pending.push((d, vec![grad]));
+                    ready.push((d, vec![total]));
                 }
                 //            dbg!(&input);
             }
-- 
2.43.0


From 3b1bdce7713fa77075df76167998f136396f0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 16/17] fix: the gradient of tanh takes quadratic memory and
 spreads infinities

---
 src/tensor/autograd/jvp.rs                | 18 ------------------
 src/tensor/functional/element_wise_ops.rs | 17 +++++++----------
 2 files changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index f3ef4f2..a83d5fa 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -102,24 +102,6 @@ impl<T: Numeric> Drop for Derivative<T> {
     }
 }
 
-/// When used for making a jacobian_vector_product function
-/// left ought to be the gradient passed in and right is the computed jacobian
-pub(in crate::tensor) fn jvp_from_full_jacobians<T: Numeric>(
-    left: RcTensor<T>,
-    right: RcTensor<T>,
-) -> RcTensor<T> {
-    if right.is_scalar()
-        || right.shape().iter().product::<usize>() == 1
-        || left.is_scalar()
-        || left.shape().iter().product::<usize>() == 1
-    {
-        assert!(left.is_scalar() || left.shape().iter().product::<usize>() == 1);
-        left * right
-    } else {
-        left.bmm(&right)
-    }
-}
-
 pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> Vec<RcTensor<T>> {
     assert!(tensors.len() == 1);
     assert!(grads.len() == 1);
diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..47e67de 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -3,11 +3,9 @@ use crate::tensor::numeric::*;
 use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
 use num::traits::real::Real;
 
-use crate::tensor::autograd::*;
-
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::IndexIterator;
-use crate::tensor::utils::{global_index, increment_index, ElementIterator};
+use crate::tensor::utils::{global_index, increment_index};
 use std::ops::{Deref, Sub};
 
 use std::cmp::max;
@@ -28,8 +26,7 @@ where
     let mut raw_tensor = generic_unary_op(&tensor, |t| t.tanh());
     raw_tensor.grad_fn = Some(Derivative::new(
         vec![tensor],
-        // generic_unary_jvp(tensor, )
-        tanh_derivative_outer,
+        tanh_jvp,
         format!("tanh, file: {}, line: {}", file!(), line!(),),
     ));
     RcTensor::from_raw(raw_tensor)
@@ -69,22 +66,22 @@ where
     RcTensor::from_raw(raw_tensor)
 }
 
-fn tanh_derivative_outer<T: Numeric + Real>(
+fn tanh_jvp<T: Numeric + Real>(
     tensors: Vec<RcTensor<T>>,
     grads: Vec<RcTensor<T>>,
 ) -> Vec<RcTensor<T>> {
     assert!(tensors.len() == 1);
     assert!(grads.len() == 1);
-    let jacobian = tanh_derivative(&tensors[0], true);
-    let new_grad = jvp_from_full_jacobians(grads[0].clone(), jacobian);
-    vec![new_grad]
+    generic_unary_jvp(&tensors[0], &grads[0], |t| T::one() - t.tanh().powi(2))
 }
 
-// TODO: switch to generic_unary_jvp
+#[cfg(test)]
 fn tanh_derivative<T: Numeric + Real>(
     tensor: &RcTensor<T>,
     full_jacobian_output: bool,
 ) -> RcTensor<T> {
+    use crate::tensor::utils::ElementIterator;
+
     let length = tensor.shape().iter().product::<usize>();
     if !full_jacobian_output {
         let mut array = Vec::with_capacity(length);
-- 
2.43.0


From 153fc9a60af32d284ec144c17259d13548633140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 17/17] fix: a gradient computed from its own tensor keeps the
 tensor alive forever

---
 src/tensor/raw_tensor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 5d7e339..01faff1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -299,10 +299,11 @@ where
         let mut seen = self.grad.read().unwrap().clone();
         loop {
             // The sum is a plain value (no grad_fn), so that it does not keep
-            // every earlier gradient alive. It is computed before locking, so
-            // that a panicking addition cannot poison the lock.
+            // every earlier gradient alive, nor this tensor itself when it was
+            // computed from it. It is computed before locking, so that a
+            // panicking addition cannot poison the lock.
             let total = match &seen {
-                None => grad.clone(),
+                None => grad.deep_clone(),
                 Some(previous) => RcTensor::from_raw(functional::add_raw(previous, &grad)),
             };
             let mut slot = self.grad.write().unwrap();
-- 
2.43.0

