From 78c943257da1633fb90b4dbf728a14f2c3779855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 01/41] fix: assign(shape, value) on an array without storage

A moved-from array whose default shape is non-empty has no storage, but
assign(shape, value) assumed that an equal shape implies storage.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..9901a9b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2526,7 +2526,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From fc6c874e52df9c3271602ed029a887e3aa68daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 02/41] fix: do not make a non-null base pointer from a null
 buffer

An array of empty shape with negative strides computed a bogus base pointer,
which made it look allocated (and deallocated a null buffer).
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 9901a9b..42e08fc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From e583ccd33abae8a1f371cbac493adba54522f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 03/41] fix: reshape to a shape with partial or no overlap

The intersection of two disjoint shapes could have a positive size (product of
two negative extents), and the intersection of shapes with a static extent and
different mins cannot be represented by the same shape type.
---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 42e08fc..982aa1c 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1551,7 +1551,8 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  // The dims may not intersect at all, in which case the result is empty.
+  index_t extent = internal::max<index_t>(0, max - min + 1);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
@@ -2633,11 +2634,11 @@ public:
     array new_array(new_shape);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0


From a41a2b919a29f9cc35de5f247f2d619435a97b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 04/41] fix: reshape must keep the allocator of the array

The new array was allocated with a default constructed allocator, which was then
propagated to this array by the move assignment.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 982aa1c..724d74a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2631,7 +2631,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     auto intersection =
-- 
2.43.0


From 2d778d8efec2d80478051494c6e63ee787fd5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 05/41] fix: sign of the offset checked by
 move_reinterpret_shape

set_shape and reinterpret_shape already check the offset with this sign.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 724d74a..1a13445 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3052,7 +3052,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From 2ca6544b3b5a248e5bed7b110653a722a891ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 06/41] fix: make_compact of shapes with a dense dimension of
 static extent

The extent of the dense dimension was counted twice, so the result had padding
between dimensions.
---
 include/array/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 1a13445..2a01373 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,9 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. If this dimension has a constant
+  // stride of 1, CurrentStride already includes the extent of this dimension.
+  constexpr index_t NextStride = Stride == 1 ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
-- 
2.43.0


From c76a8393a396d47caaa9e1dc98c1bb9ec6ad3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 07/41] fix: reject non-permutations of rank 5

The product of the indices does not identify a permutation, for example
transpose<1, 1, 2, 2, 3> was accepted.
---
 include/array/array.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 2a01373..272b1c9 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -981,13 +981,10 @@ NDARRAY_HOST_DEVICE bool is_trivial_slice(
   return all((Is < DstRank || std::get<Is>(src_dims).extent() == 1)...);
 }
 
-constexpr index_t factorial(index_t x) { return x == 1 ? 1 : x * factorial(x - 1); }
-
-// The errors that result from not satisfying this check are probably hell,
-// but it would be pretty tricky to check that all of [0, Rank) is in `Is...`
+// A sum of `Rank` powers of two only has `Rank` bits set if the powers are distinct.
 template <size_t Rank, size_t... Is>
 using enable_if_permutation = std::enable_if_t<sizeof...(Is) == Rank && all(Is < Rank...) &&
-                                               product((Is + 2)...) == factorial(Rank + 1)>;
+                                               sum((index_t(1) << Is)...) == (index_t(1) << Rank) - 1>;
 
 template <class DimDst, class DimSrc>
 NDARRAY_HOST_DEVICE void assert_dim_compatible(size_t dim_index, const DimSrc& src) {
-- 
2.43.0


From 992369d360dc41335fc8620ae46ca84468eef442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 08/41] fix: make_move of an rvalue array must not copy

`src` is an rvalue reference, C++14 does not implicitly move from it.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 272b1c9..a5d07f1 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2879,7 +2879,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return std::move(src);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 0187895481053361f19f80c5df57ff95dee61704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 09/41] fix: do not move from callables passed as lvalues

These functions moved the callable of the caller into a lambda, so e.g. a
std::function passed as an lvalue was empty after the call.
---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index a5d07f1..5c6b2e6 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1950,7 +1950,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&fn](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1958,14 +1958,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&fn](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&fn](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2915,7 +2915,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&g](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2930,7 +2930,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2944,7 +2944,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..7a97f13 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..1417403 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From 9fc3563bcb55c473127637779fb95de4c57a6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 10/41] fix: is_compatible of shapes with unresolved strides

A shape with unresolved strides can be assigned to a shape with static strides.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5c6b2e6..9f42480 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1533,7 +1533,7 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
 template <index_t Min, index_t Extent, index_t Stride, class DimSrc>
 NDARRAY_HOST_DEVICE bool is_dim_compatible(const dim<Min, Extent, Stride>&, const DimSrc& src) {
   return (is_dynamic(Min) || src.min() == Min) && (is_dynamic(Extent) || src.extent() == Extent) &&
-         (is_dynamic(Stride) || src.stride() == Stride);
+         (is_dynamic(Stride) || is_unresolved(src.stride()) || src.stride() == Stride);
 }
 
 template <class... DimsDst, class ShapeSrc, size_t... Is>
-- 
2.43.0


From 72b4f2dfe3ca6af2d3dfe230672e5d88e50d7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 11/41] fix: z-order traversal of empty ranges

The callable was called with an out of bounds index if a range was empty.
---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..b201c85 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any dimension is empty, there are no indices to visit.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 77616f82276799d084fb37925be7d6d61a051215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 12/41] fix: crop of an image to a disjoint rectangle

The result had negative extents, and a positive size if both were negative.
---
 include/array/image.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 7a97f13..60f25ec 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -154,8 +154,9 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
     index_t y1, crop_origin origin = crop_origin::crop) {
   x0 = internal::max(x0, im.x().min());
   y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  // If the crop is disjoint from the image, the result should be empty.
+  x1 = internal::max(x0, internal::min(x1, im.x().max() + 1));
+  y1 = internal::max(y0, internal::min(y1, im.y().max() + 1));
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From b57e0b5fbab6499d84254e27e05bea90dcb344b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 13/41] fix: advancing a split iterator by n to the end

If the split factor does not divide the extent, begin() + size() was past end().
---
 include/array/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 9f42480..b4083d4 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -543,14 +543,15 @@ public:
       // When the extent of the inner split is a compile-time constant,
       // we can't shrink the out of bounds interval. Instead, shift the min,
       // assuming the outer dimension is bigger than the inner extent.
-      i.set_min(i.min() + InnerExtent * n);
+      // Don't advance further than the end (one past the max).
+      i.set_min(min(i.min() + InnerExtent * n, outer_max + 1));
       // Only shift the min when this straddles the end of the buffer,
       // so the iterator can advance to the end (one past the max).
       if (i.min() <= outer_max && i.max() > outer_max) { i.set_min(outer_max - InnerExtent + 1); }
     } else {
       // When the extent of the inner split is not a compile-time constant,
       // we can just modify the extent.
-      i.set_min(i.min() + i.extent() * n);
+      i.set_min(min(i.min() + i.extent() * n, outer_max + 1));
       index_t max = min(i.max(), outer_max);
       i.set_extent(max - i.min() + 1);
     }
-- 
2.43.0


From c6cc3c506bb43bfb7e25c7955777de07308be54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 14/41] fix: make_compact of shapes with a static negative
 stride

A dimension of static stride less than -1 was not considered when choosing the
static strides of the other dimensions, which then overlapped it.
---
 include/array/array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index b4083d4..a3e7e4a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1525,7 +1525,9 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne =
+      any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
+           abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0


From 1afcfa17b65d786ebf00d83d3559b2b4040e761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 15/41] fix: slices and value loops of const arrays must be
 const

Slicing a const array gave an array_ref of non-const elements, and
for_each_value of a const array called the function with non-const elements.
---
 include/array/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index a3e7e4a..692ecbe 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2566,11 +2566,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(base(), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(base(), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
@@ -2581,7 +2581,7 @@ public:
   }
   template <class Fn, class = internal::enable_if_callable<Fn, const_reference>>
   void for_each_value(Fn&& fn) const {
-    shape_traits_type::for_each_value(shape_, base_, fn);
+    shape_traits_type::for_each_value(shape_, base(), fn);
   }
 
   /** Pointer to the element at the min index of the shape. */
-- 
2.43.0


From 8627ece8d80615cd7a85d43b120b27f9690b48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 16/41] fix: make_copy of an array_ref with a shape was
 ambiguous

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 692ecbe..280b8ae 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2790,7 +2790,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 
 /** Make a copy of the `src` array or array_ref with a new allocator `alloc`. */
 template <class T, class ShapeSrc,
-    class Alloc = std::allocator<typename std::remove_const<T>::type>>
+    class Alloc = std::allocator<typename std::remove_const<T>::type>,
+    class = internal::enable_if_allocator<Alloc>>
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
-- 
2.43.0


From d5995f6f9ec8a0c4628407aba7597ecdad4cf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 17/41] fix: a moved-from array had an unresolved shape

---
 include/array/array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 280b8ae..3c67028 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2400,6 +2400,8 @@ public:
     // Just assume we can swap in that case.
     if (typename alloc_traits::propagate_on_container_move_assignment() ||
         alloc_ == other.get_allocator()) {
+      // Leave other default constructed, which has a resolved shape.
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
@@ -2417,6 +2419,8 @@ public:
       : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
     using std::swap;
     if (alloc_ == other.get_allocator()) {
+      // Leave other default constructed, which has a resolved shape.
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
-- 
2.43.0


From 559f5a78ad0aa135feae3ac1e9f165d5128a5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 18/41] fix: assigning an array without storage to another must
 propagate the allocator

---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 3c67028..ba1a96e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2444,6 +2444,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
         shape_ = other.shape_;
         assert(shape_.empty());
       }
@@ -2469,6 +2472,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
         swap(shape_, other.shape_);
         assert(shape_.empty());
       }
-- 
2.43.0


From de8652423fa21980ee915cce04f7586a3e49dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 19/41] fix: a failed allocation left an array with a shape but
 no storage

---
 include/array/array.h | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index ba1a96e..d214d9f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2280,16 +2280,18 @@ private:
   pointer base_;
   Shape shape_;
 
-  // After allocate the array is allocated but uninitialized.
-  void allocate() {
+  // After allocate the array is allocated but uninitialized. If the allocation
+  // fails, the shape of the array is not changed.
+  void allocate(Shape shape) {
     assert(!buffer_);
-    shape_.resolve();
-    size_type flat_extent = shape_.flat_extent();
+    shape.resolve();
+    size_type flat_extent = shape.flat_extent();
     if (flat_extent > 0) {
+      buffer_ = alloc_traits::allocate(alloc_, flat_extent);
       buffer_size_ = flat_extent;
-      buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
+    base_ = internal::pointer_add(buffer_, -shape.flat_min());
+    shape_ = shape;
   }
 
   // Call the constructor on all of the elements of the array.
@@ -2327,6 +2329,7 @@ private:
       destroy();
       base_ = nullptr;
       shape_ = Shape();
+      shape_.resolve();
       alloc_traits::deallocate(alloc_, buffer_, buffer_size_);
       buffer_ = nullptr;
     }
@@ -2366,13 +2369,13 @@ public:
   /** Construct an array with a particular `shape`, allocated by `alloc`, with
    * default constructed elements. */
   explicit array(const Shape& shape, const Alloc& alloc)
-      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr), shape_(shape) {
-    allocate();
+      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+    allocate(shape);
     construct();
   }
   explicit array(const Shape& shape)
-      : buffer_(nullptr), buffer_size_(0), base_(nullptr), shape_(shape) {
-    allocate();
+      : buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+    allocate(shape);
     construct();
   }
 
@@ -2404,8 +2407,7 @@ public:
       shape_.resolve();
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
       move_construct(other);
     }
   }
@@ -2423,8 +2425,7 @@ public:
       shape_.resolve();
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
       move_construct(other);
     }
   }
@@ -2509,8 +2510,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
     }
     copy_construct(other);
   }
@@ -2528,8 +2528,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
     }
     move_construct(other);
   }
@@ -2542,8 +2541,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = shape;
-      allocate();
+      allocate(shape);
     }
     construct(value);
   }
@@ -2630,8 +2628,7 @@ public:
    * constructed. */
   void clear() {
     deallocate();
-    shape_ = Shape();
-    allocate();
+    allocate(Shape());
     construct();
   }
 
-- 
2.43.0


From 16abe85a7b163d8954512a0055900c7ad3a5a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 20/41] fix: empty arrays could share the base of an unrelated
 array

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index d214d9f..67d9b9b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2285,7 +2285,8 @@ private:
   void allocate(Shape shape) {
     assert(!buffer_);
     shape.resolve();
-    size_type flat_extent = shape.flat_extent();
+    // Empty arrays have no storage, even if the flat extent is not zero.
+    size_type flat_extent = shape.empty() ? 0 : shape.flat_extent();
     if (flat_extent > 0) {
       buffer_ = alloc_traits::allocate(alloc_, flat_extent);
       buffer_size_ = flat_extent;
-- 
2.43.0


From 841559122ae0277382d3710d010ae83e077d604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 21/41] fix: an empty shape must be a subset of any shape

---
 include/array/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 67d9b9b..f7bdf0d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1262,6 +1262,8 @@ public:
   template <typename OtherShape>
   NDARRAY_HOST_DEVICE bool is_subset_of(const OtherShape& other, index_t offset) const {
     // TODO: https://github.com/dsharlet/array/issues/2
+    // Empty shapes do not have flat indices, whatever flat_min and flat_max are.
+    if (empty()) { return true; }
     return flat_min() >= other.flat_min() + offset && flat_max() <= other.flat_max() + offset;
   }
 
-- 
2.43.0


From 86b7a04cd8ed0d880e4e83f78c8fcb0c4f44f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 22/41] fix: move_reinterpret_shape left the source with a
 shape that does not match its storage

---
 include/array/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index f7bdf0d..3a745fb 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3066,6 +3066,8 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
 
   assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
+  // The storage of a default constructed array that is not empty does not fit `from`.
+  result.deallocate();
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
     swap(result.alloc_, from.alloc_);
@@ -3078,6 +3080,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
+  from.shape_.resolve();
   result.base_ += offset;
 
   return result;
-- 
2.43.0


From e2daf6a6bc9a4091b2651a5d07e6b4b5944f23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 23/41] fix: move_reinterpret_shape must resolve the new shape

---
 include/array/array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3a745fb..6dc37c1 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3064,7 +3064,9 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), -offset));
+  NewShape resolved_shape = new_shape;
+  resolved_shape.resolve();
+  assert(resolved_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // The storage of a default constructed array that is not empty does not fit `from`.
   result.deallocate();
@@ -3078,7 +3080,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.buffer_, from.buffer_);
   swap(result.buffer_size_, from.buffer_size_);
   swap(result.base_, from.base_);
-  result.shape_ = new_shape;
+  result.shape_ = resolved_shape;
   from.shape_ = OldShape();
   from.shape_.resolve();
   result.base_ += offset;
-- 
2.43.0


From 31de9b85714b60859ef95c09ee5bf63c9f62c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 24/41] fix: reinterpreting an empty array must not offset a
 null pointer

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6dc37c1..f2c9d41 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3036,7 +3036,7 @@ array_ref<U, Shape> reinterpret_const(const const_array_ref<T, Shape>& a) {
 template <class NewShape, class T, class OldShape>
 NDARRAY_HOST_DEVICE array_ref<T, NewShape> reinterpret_shape(
     const array_ref<T, OldShape>& a, const NewShape& new_shape, index_t offset = 0) {
-  array_ref<T, NewShape> result(a.base() + offset, new_shape);
+  array_ref<T, NewShape> result(internal::pointer_add(a.base(), offset), new_shape);
   assert(result.shape().is_subset_of(a.shape(), -offset));
   return result;
 }
@@ -3083,7 +3083,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   result.shape_ = resolved_shape;
   from.shape_ = OldShape();
   from.shape_.resolve();
-  result.base_ += offset;
+  result.base_ = internal::pointer_add(result.base_, offset);
 
   return result;
 }
-- 
2.43.0


From a75aa57cc379b35b7eefc9703755eb51d1b780ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 25/41] fix: is_explicitly_compatible of shapes of different
 ranks

---
 include/array/array.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index f2c9d41..3d5c8b5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1547,6 +1547,25 @@ NDARRAY_HOST_DEVICE bool is_shape_compatible(
   return all(is_dim_compatible(DimsDst(), src.template dim<Is>())...);
 }
 
+template <size_t I, class DimDst, class DimsSrc,
+    std::enable_if_t<(I < std::tuple_size<DimsSrc>::value), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_explicitly_compatible(const DimsSrc& src) {
+  return is_dim_compatible(DimDst(), std::get<I>(src));
+}
+template <size_t I, class DimDst, class DimsSrc,
+    std::enable_if_t<(I >= std::tuple_size<DimsSrc>::value), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_explicitly_compatible(const DimsSrc&) {
+  // Dims beyond the rank of the source have extent 1.
+  return is_dynamic(DimDst::Extent) || DimDst::Extent == 1;
+}
+
+template <class DimsDst, class DimsSrc, size_t... Is>
+NDARRAY_HOST_DEVICE bool is_shape_explicitly_compatible(
+    const DimsSrc& src, index_sequence<Is...>) {
+  return all(
+      is_dim_explicitly_compatible<Is, typename std::tuple_element<Is, DimsDst>::type>(src)...);
+}
+
 template <class DimA, class DimB>
 NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Min = static_max(DimA::Min, DimB::Min);
@@ -1677,7 +1696,10 @@ NDARRAY_HOST_DEVICE ShapeDst convert_shape(const ShapeSrc& src) {
 template <class ShapeDst, class ShapeSrc,
     class = internal::enable_if_shapes_explicitly_compatible<ShapeSrc, ShapeDst>>
 NDARRAY_HOST_DEVICE bool is_explicitly_compatible(const ShapeSrc& src) {
-  return internal::is_shape_compatible(ShapeDst(), src, typename ShapeSrc::dim_indices());
+  return internal::is_trivial_slice<ShapeDst::rank()>(
+             src.dims(), typename ShapeSrc::dim_indices()) &&
+         internal::is_shape_explicitly_compatible<typename ShapeDst::dims_type>(
+             src.dims(), typename ShapeDst::dim_indices());
 }
 
 /** Iterate over all indices in the shape, calling a function `fn` for each set
-- 
2.43.0


From d81fe539323f5a4fd0f89d2ebe8979665d56abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 26/41] fix: transposing a shape with more indices than it has
 dims is rejected, instead of exhausting the memory of the compiler

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3d5c8b5..ce0ab2b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1342,7 +1342,8 @@ NDARRAY_HOST_DEVICE auto transpose_impl(const Shape& shape, index_sequence<Extra
  * - `transpose<1, 0>(s) == make_shape(s.dim<1>(), s.dim<0>(), ...)` where ... is all dimensions
  * after dimension 1. */
 template <size_t... DimIndices, class... Dims,
-    class = internal::enable_if_permutation<sizeof...(DimIndices), DimIndices...>>
+    class = internal::enable_if_permutation<sizeof...(DimIndices), DimIndices...>,
+    class = std::enable_if_t<sizeof...(DimIndices) <= sizeof...(Dims)>>
 NDARRAY_HOST_DEVICE auto transpose(const shape<Dims...>& shape) {
   return internal::transpose_impl<DimIndices...>(
       shape, internal::make_index_sequence<sizeof...(Dims) - sizeof...(DimIndices)>());
-- 
2.43.0


From f99166ab593c834a734eeae1499971b09782456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 27/41] fix: a shape that is not empty is not a subset of an
 empty shape

---
 include/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/array/array.h b/include/array/array.h
index ce0ab2b..5863553 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1264,6 +1264,7 @@ public:
     // TODO: https://github.com/dsharlet/array/issues/2
     // Empty shapes do not have flat indices, whatever flat_min and flat_max are.
     if (empty()) { return true; }
+    if (other.empty()) { return false; }
     return flat_min() >= other.flat_min() + offset && flat_max() <= other.flat_max() + offset;
   }
 
-- 
2.43.0


From 9a55e1af9844b8046e1264e4dd1ada0d4c18f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 28/41] fix: ein() of an lvalue array_ref of rank 0 is not
 ambiguous

---
 include/array/ein_reduce.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..cfb0641 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -360,6 +360,16 @@ auto ein(T& scalar) {
   return ein<>(array_ref<T, shape<>>(&scalar, {}));
 }
 
+// An array_ref of rank 0 is both callable without indices and a scalar. It is its own operand.
+template <class T>
+auto ein(array_ref<T, shape<>>& op) {
+  return internal::ein_op<array_ref<T, shape<>>>(op);
+}
+template <class T>
+auto ein(const array_ref<T, shape<>>& op) {
+  return internal::ein_op<array_ref<T, shape<>>>(op);
+}
+
 /** Define an Einstein summation operand for a pointer and size. */
 template <size_t I0, class T>
 auto ein(T* x, size_t N) {
-- 
2.43.0


From 92800d4acd6c98757593f1e84dea0fc742cf0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 29/41] fix: make_copy and make_move return an array with the
 given allocator

The auto return type kept clang from eliding the result, and the move constructor
replaces allocators that do not propagate by default constructed ones.
---
 include/array/array.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5863553..91e11ce 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2826,7 +2826,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 template <class T, class ShapeSrc,
     class Alloc = std::allocator<typename std::remove_const<T>::type>,
     class = internal::enable_if_allocator<Alloc>>
-auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
+array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> make_copy(
+    const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
   return dst;
@@ -2841,7 +2842,7 @@ auto make_copy(const array<T, ShapeSrc, AllocSrc>& src, const AllocDst& alloc =
 template <class T, class ShapeSrc, class ShapeDst,
     class Alloc = std::allocator<typename std::remove_const<T>::type>,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
-auto make_copy(
+array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> make_copy(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   copy(src, dst);
@@ -2902,7 +2903,7 @@ void move(array<T, Shape, Alloc>&& src, array<T, Shape, Alloc>& dst) {
  * elements of `src` are moved to the result. */
 template <class T, class ShapeSrc, class ShapeDst, class Alloc = std::allocator<T>,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
-auto make_move(
+array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> make_move(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   move(src, dst);
@@ -2915,9 +2916,10 @@ auto make_move(
   return make_move(src.ref(), shape, alloc);
 }
 template <class T, class Shape, class Alloc>
-auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
+array<T, Shape, Alloc> make_move(
+    array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return std::move(src);
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From b8951dd416328d3320cad09a16ff41c40809c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 30/41] fix: make_ein_sum returns an array with the given
 allocator

---
 include/array/ein_reduce.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index cfb0641..4388d06 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -485,7 +485,8 @@ NDARRAY_UNIQUE auto make_ein_reduce_shape(const Expr& expr) {
 template <class T, size_t... ResultIs, class Expr, class Alloc = std::allocator<T>,
     class = internal::enable_if_ein_op<Expr>>
 NDARRAY_INLINE auto make_ein_sum(
-    const Expr& expr, const T& init = T(), const Alloc& alloc = Alloc()) {
+    const Expr& expr, const T& init = T(), const Alloc& alloc = Alloc())
+    -> array<T, decltype(make_ein_reduce_shape<ResultIs...>(expr)), Alloc> {
   auto result_shape = make_ein_reduce_shape<ResultIs...>(expr);
   auto result = make_array<T>(result_shape, init, alloc);
   ein_reduce(ein<ResultIs...>(result) += expr);
-- 
2.43.0


From dc58b1a7b05f9eafb5cf2e4069c5dfd752255325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 31/41] fix: ein_reduce checks every dimension addressed by a
 repeated index

The bounds of the loop over an index that addresses several dimensions of one
operand, e.g. ein<i, i>(a), came from the first of them only, so the trace of a
3x2 matrix read out of bounds without an assertion.
---
 include/array/ein_reduce.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 4388d06..5a40277 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -277,13 +277,13 @@ template <index_t NewStride, index_t Min, index_t Extent, index_t Stride>
 NDARRAY_INLINE auto with_stride(const dim<Min, Extent, Stride>& d) {
   return dim<Min, Extent, NewStride>(d.min(), d.extent());
 }
-template <index_t NewStride, class Dim>
-NDARRAY_INLINE auto with_stride(const std::tuple<Dim>& maybe_dim) {
-  return std::make_tuple(with_stride<NewStride>(std::get<0>(maybe_dim)));
+template <index_t NewStride, class... Dims, size_t... Is>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims, index_sequence<Is...>) {
+  return std::make_tuple(with_stride<NewStride>(std::get<Is>(dims))...);
 }
-template <index_t NewStride>
-NDARRAY_INLINE std::tuple<> with_stride(std::tuple<> maybe_dim) {
-  return maybe_dim;
+template <index_t NewStride, class... Dims>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims) {
+  return with_stride<NewStride>(dims, make_index_sequence<sizeof...(Dims)>());
 }
 
 // These types are flags that let us overload behavior based on these 3 options.
@@ -291,21 +291,34 @@ class is_inferred_shape {};
 class is_result_shape {};
 class is_operand_shape {};
 
-// Get a dim from an operand, depending on the intended use of the shape.
+// Get the dims that are addressed by the index Dim. There are several if the index is repeated,
+// e.g. for the diagonal of a matrix.
+template <size_t Dim, size_t... Is, class Dims, size_t... Js>
+NDARRAY_INLINE auto dims_of_index(
+    const Dims& dims, index_sequence<Is...>, index_sequence<Js...>) {
+  return std::tuple_cat(get_or_empty<(Is == Dim ? Js : std::tuple_size<Dims>::value)>(dims)...);
+}
+template <size_t Dim, class Op, size_t... Is>
+NDARRAY_INLINE auto dims_of_index(const ein_op<Op, Is...>& op) {
+  return dims_of_index<Dim>(
+      dims_of(op.op), index_sequence<Is...>(), make_index_sequence<sizeof...(Is)>());
+}
+
+// Get the dims from an operand, depending on the intended use of the shape.
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
   // If this is part of the result, we want to keep its strides.
-  return get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op));
+  return dims_of_index<Dim>(op);
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
   // For inferred shapes, we want shapes without any constexpr strides, so it can be reshaped.
-  return with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<dynamic>(dims_of_index<Dim>(op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_operand_shape, const ein_op<Dims, Is...>& op) {
   // If this is an operand shape, we want all of its dimensions to be stride 0.
-  return with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<0>(dims_of_index<Dim>(op));
 }
 
 template <size_t Dim, class Kind, class Op, class X>
-- 
2.43.0


From 0fed4c17d0110197a6e5a63b550f53270ab47cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 32/41] fix: transform_index and transform_indices accept
 arrays with any allocator

---
 include/array/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 91e11ce..6a2fee1 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2972,8 +2972,8 @@ NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn
   for_each_index(
       dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_index(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_index(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_index(dst.ref(), fn);
 }
 
@@ -2986,8 +2986,8 @@ NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&&
   transform_index(
       dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_indices(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_indices(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_indices(dst.ref(), fn);
 }
 
-- 
2.43.0


From 58a3426aee16a15d1c7fdabdb7ce6de565e2775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 33/41] fix: crop accepts images with any allocator

---
 include/array/image.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 60f25ec..2eceeb8 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -165,13 +165,13 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
   }
   return array_ref<T, Shape>(base, cropped_shape);
 }
-template <class T, class Shape>
-array_ref<const T, Shape> crop(const array<T, Shape>& im, index_t x0, index_t y0, index_t x1,
+template <class T, class Shape, class Alloc>
+array_ref<const T, Shape> crop(const array<T, Shape, Alloc>& im, index_t x0, index_t y0, index_t x1,
     index_t y1, crop_origin origin = crop_origin::crop) {
   return crop(im.ref(), x0, y0, x1, y1, origin);
 }
-template <class T, class Shape>
-array_ref<T, Shape> crop(array<T, Shape>& im, index_t x0, index_t y0, index_t x1, index_t y1,
+template <class T, class Shape, class Alloc>
+array_ref<T, Shape> crop(array<T, Shape, Alloc>& im, index_t x0, index_t y0, index_t x1, index_t y1,
     crop_origin origin = crop_origin::crop) {
   return crop(im.ref(), x0, y0, x1, y1, origin);
 }
-- 
2.43.0


From 06c43a1d06dbbc9e24d432ebe943d7c92ec159a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 34/41] fix: auto_allocators with a base allocator other than
 std::allocator can be compared

Arrays with such an allocator could not be copied, moved or assigned.
---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6a2fee1..e1b5694 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3207,8 +3207,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3216,8 +3217,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0


From 412255f62592fda1a349c8914b323f22f420809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 35/41] fix: uninitialized_allocator uses
 select_on_container_copy_construction of its base

The function was static and took an argument, so std::allocator_traits did not
find it, and it did not compile for lack of a constructor from the base.
---
 include/array/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index e1b5694..ef21db8 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3239,9 +3239,12 @@ public:
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_move_assignment;
   using propagate_on_container_swap =
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_swap;
-  static uninitialized_allocator select_on_container_copy_construction(
-      const uninitialized_allocator& alloc) {
-    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(alloc);
+  uninitialized_allocator() = default;
+  explicit uninitialized_allocator(const BaseAlloc& alloc) : BaseAlloc(alloc) {}
+
+  uninitialized_allocator select_on_container_copy_construction() const {
+    return uninitialized_allocator(
+        std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(*this));
   }
 
   value_type* allocate(size_t n) { return std::allocator_traits<BaseAlloc>::allocate(*this, n); }
-- 
2.43.0


From a847b74fc97c72f3206fd7bae61df94c4147c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 36/41] fix: is_in_range of a shape accepts the placeholder for
 a whole dimension

---
 include/array/array.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index ef21db8..77cf995 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -783,11 +783,21 @@ NDARRAY_HOST_DEVICE auto skip_slices(
   return std::tuple_cat(skip_slices_impl(std::get<Is>(dims), std::get<Is>(intervals))...);
 }
 
+// The placeholder for the whole dimension is in range of every dimension.
+template <class Dim, class T>
+NDARRAY_HOST_DEVICE bool is_in_range_of_dim(const T& x, const Dim& d) {
+  return d.is_in_range(x);
+}
+template <class Dim>
+NDARRAY_HOST_DEVICE bool is_in_range_of_dim(const decltype(_)&, const Dim&) {
+  return true;
+}
+
 // Checks if all indices are in interval of each corresponding dim.
 template <class Dims, class Indices, size_t... Is>
 NDARRAY_HOST_DEVICE bool is_in_range(
     const Dims& dims, const Indices& indices, index_sequence<Is...>) {
-  return all(std::get<Is>(dims).is_in_range(std::get<Is>(indices))...);
+  return all(is_in_range_of_dim(std::get<Is>(indices), std::get<Is>(dims))...);
 }
 
 // Get the mins of a series of intervals.
-- 
2.43.0


From 78ca60e8c603beb350ff71ce08e8bf8cd57e84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 37/41] fix: ein_reduce of an assignment between operands of
 one type

---
 include/array/ein_reduce.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 5a40277..6ec9a2b 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -86,7 +86,12 @@ struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
     return op(std::get<Is>(i)...);
   }
 
-  // Only ein_op has assignment operators.
+  ein_op(const ein_op&) = default;
+  ein_op(ein_op&&) = default;
+
+  // Only ein_op has assignment operators. The operators for other types do not include the one for
+  // the type of this operand, which would be the implicit assignment of the operand itself.
+  auto operator=(const ein_op& r) const { return make_ein_op_assign(*this, r); }
   template <class T, class = enable_if_ein_op<T>>
   auto operator=(const T& r) const {
     return make_ein_op_assign(*this, r);
-- 
2.43.0


From eecdc7bb9b1ad40b8c71bcb44cbe77f3e25b07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 38/41] fix: min and max of reduction operands of one type

---
 include/array/ein_reduce.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 6ec9a2b..f7c778c 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -66,6 +66,11 @@ struct ein_op_base {
   auto operator/(const T& r) const {
     return make_ein_op_div(derived(), r);
   }
+
+  // For two operands of the same type, argument dependent lookup also finds `internal::min` and
+  // `internal::max`, which would be better matches than the helpers for any operands.
+  friend auto min(const Derived& a, const Derived& b) { return make_ein_op_min(a, b); }
+  friend auto max(const Derived& a, const Derived& b) { return make_ein_op_max(a, b); }
 };
 
 // A leaf operand of an Einstein reduction expression. The Is... indicate the
-- 
2.43.0


From 2ae692928c9bfa5abfbcae6fa4db636890d18c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 39/41] fix: z-order traversal of ranges whose differences are
 wider than index_t

---
 include/array/z_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index b201c85..ee59dd0 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -85,7 +85,7 @@ NDARRAY_UNIQUE void for_each_in_z_order_impl(
     const std::tuple<Ranges...>& ranges, const Fn& fn, index_sequence<Is...>) {
   constexpr size_t Rank = sizeof...(Is);
   std::array<index_t, Rank> extents = {
-      {(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
+      {static_cast<index_t>(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
   for_each_index_in_z_order(extents, [&](const std::array<index_t, Rank>& i) {
     fn(std::make_tuple(*(std::begin(std::get<Is>(ranges)) + std::get<Is>(i))...));
   });
-- 
2.43.0


From 95b9fd0344b1317e3bdf6c6bdbebe1c68aeefd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 40/41] fix: uninitialized_auto_allocator of types whose size
 is not a power of two

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 77cf995..2fcc4e5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3291,7 +3291,7 @@ using uninitialized_std_allocator = uninitialized_allocator<std::allocator<T>>;
 
 /** Allocator equivalent to `auto_allocator<T, N, Alignment>` that
  * does not default construct values. */
-template <class T, size_t N, size_t Alignment = sizeof(T),
+template <class T, size_t N, size_t Alignment = alignof(T),
     class = std::enable_if_t<std::is_trivial<T>::value>>
 using uninitialized_auto_allocator = uninitialized_allocator<auto_allocator<T, N, Alignment>>;
 
-- 
2.43.0


From a8297463153ebc7bbeb35269534432269c926038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 41/41] fix: ein of an lvalue callable without indices is not
 ambiguous

---
 include/array/ein_reduce.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index f7c778c..c9c75f6 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -350,6 +350,15 @@ NDARRAY_UNIQUE auto make_ein_reduce_shape(
   return make_shape(reconcile_dim(gather_dims<Is>(kind_and_ops...))...);
 }
 
+// Something that can be called without indices is an operand of its own, not a scalar.
+template <class T, class = enable_if_callable<T&>>
+std::false_type is_scalar_operand(int);
+template <class T>
+std::true_type is_scalar_operand(...);
+
+template <class T>
+using enable_if_scalar = std::enable_if_t<decltype(is_scalar_operand<T>(0))::value>;
+
 } // namespace internal
 
 /** Operand for an Einstein summation, which is an array or other
@@ -378,7 +387,7 @@ auto ein(const array<T, Shape, Alloc>& op) {
  * operand does not provide a shape, the dimensions of the sum
  * must be inferred from other operands. See `ein_reduce()` for more
  * details. */
-template <class T>
+template <class T, class = internal::enable_if_scalar<T>>
 auto ein(T& scalar) {
   return ein<>(array_ref<T, shape<>>(&scalar, {}));
 }
-- 
2.43.0

