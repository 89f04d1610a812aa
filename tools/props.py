#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
A, E, I, M, Z = 'include/array/array.h', 'include/array/ein_reduce.h', 'include/array/image.h', 'include/array/matrix.h', 'include/array/z_order.h'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    r = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        r['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(r)


p('C01', 'An index addresses exactly the element at sum((i - min)*stride)',
  'For every shape (any rank, mins, extents and strides, static or dynamic, positive, negative or zero stride) and every index, every form of access - call, subscript with an index tuple, on arrays, const arrays, refs and const refs - addresses the element at base + sum((i_d - min_d)*stride_d). '
  'The accessors of a shape or array (min, max, extent, stride, size, flat_min/max/extent, empty, is_in_range, dim aliases, base, data) agree with that mapping. '
  'Storing through one form and loading through another returns the stored value, and a store changes no other element or memory.',
  ['inputs', 'programs'], 'All shape types, all resolved shapes whose offsets are representable, all indices (in or around the bounds), all access forms.',
  'The tests access a few arrays with small, mostly dense shapes; they cannot cover combinations of rank, sign of stride, static parameters and access form.',
  [A], [('shape::operator(), shape::operator[], flat_offset', 'array.h: class shape'), ('array/array_ref operator() and operator[]', 'array.h: class array_ref, class array'), ('flat_min/flat_max/is_in_range helpers', 'array.h: namespace internal')],
  ['addresses of elements', 'memory image of the buffer'])
p('C02', 'Automatic strides keep the known ones and never make dimensions overlap',
  'Resolving a shape leaves every min, extent and known stride unchanged, gives each unresolved stride a positive value, and is idempotent; arrays and refs made from partially specified shapes have exactly the resolved shape. '
  'If the known strides nest (ordered by size, each is at least the flat extent of the dimension before), distinct indices map to distinct offsets after resolving, and each stride chosen in turn (innermost dimension first) is the smallest of 1 and |stride|*extent of the dimensions already known that nests with all of them; an extent 1 dimension does not get the same stride as a known larger one. '
  'With no known strides the result is dense (the first stride is 1 and each stride is the product of the extents before it).',
  ['inputs', 'programs'], 'All shape types and all assignments of extents, mins and known strides to the dimensions (known ones may be padded, negative, permuted), including extents 0 and 1.',
  'The documentation and tests give about ten example shapes; the algorithm is a search over candidate strides whose result depends on every pair of dimensions.',
  [A], [('shape::resolve', 'array.h: class shape'), ('is_stride_ok, filter_stride, candidate_stride, find_stride', 'array.h: namespace internal')], ['shape().stride()'])
p('C03', 'Compact shapes and compact copies keep the indices and drop the padding',
  'make_compact keeps every min and extent and all static parameters of a shape, returns a resolved shape without overlap, and the result is compact whenever the shape has no static stride (it is then the dense shape) or its static strides allow it. '
  'bounds() keeps mins and extents and leaves strides unresolved; make_compact_copy and make_compact_move hold the same value at every index as their source.',
  ['inputs', 'programs'], 'All shape types, including those with static strides and extents, and all source layouts (padded, strided, negative, permuted).',
  'Tests cover one or two shapes per function; the static strides of the result type are computed at compile time from every combination of static parameters.',
  [A], [('make_compact, make_compact_dims, bounds', 'array.h'), ('make_compact_copy, make_compact_move', 'array.h')])
p('C04', 'Slices and crops are exact windows onto the original elements',
  'Indexing an array or ref with any mix of indices, intervals, dims and the whole-dimension placeholder gives a ref whose rank is the number of non-index arguments and whose remaining dimensions have the bounds of the arguments (the original bounds for the placeholder) and the strides of the original. '
  'Each element of the result is the very element of the original addressed by the same indices, for mutable and const sources, repeated slicing, and the functional forms on shapes. '
  'Static mins and extents of the arguments and static strides of the original are static in the result. is_in_range of the shape with the same arguments holds exactly if each index or (non-empty) window lies inside its dimension; the placeholder always does.',
  ['inputs', 'programs'], 'All shapes, all argument kinds per dimension, all windows in bounds (and empty windows), compositions of several windows.',
  'Tests slice a handful of arrays with fixed patterns; there are 4^rank argument patterns times layouts.',
  [A], [('make_array_ref_at, intervals_with_strides, skip_slices, mins_of_intervals, range_with_stride', 'array.h: namespace internal'), ('operator() and operator[] with slices', 'array.h: class shape, array_ref, array')], ['addresses of elements of the result'])
p('C05', 'Splitting an interval yields inner intervals that cover it and stay inside',
  'Iterating split(interval or dim, factor) visits in order non-empty intervals that are all inside the original, cover each index of it and start a multiple of the factor from the beginning; with a runtime factor they are disjoint and only the last is shorter, with a compile-time factor all have that extent and only the last is shifted back to overlap. '
  'The number of intervals is the reported size, ceil(extent/factor), and random access, advancing by n and differences of the iterators agree with stepping one at a time.',
  ['inputs'], 'All intervals and dims (any min, extent, static parameters), all factors, all n.',
  'Tests use a few extents and one or two factors; the clamping arithmetic depends on extent mod factor, on the sign of min and on how far an iterator is advanced.',
  [A], [('split_iterator, split_result', 'array.h: namespace internal'), ('split', 'array.h')])
p('C06', 'Index loops visit every index of a shape exactly once, in the given order',
  'for_each_index and for_all_indices call the function exactly once for each index of the shape and never outside it: in the default order dimension 0 is innermost, for matrix and chunky image types the documented row-major / channel-innermost order holds, a specialization of shape_traits by the user decides the order for its shape type, and with a loop order permutation the first listed dimension is innermost while the arguments stay in dimension order. '
  'Empty shapes give no call, rank 0 gives one. The callable of the caller is called itself: it is not copied, moved from or otherwise changed when passed as an lvalue.',
  ['inputs', 'programs'], 'All shapes of rank 0 to 6, all loop orders, all callables.',
  'Tests enumerate a few small shapes; rank-specific loop nests (two dimensions at a time) and permutations give many instantiations.',
  [A, I, M], [('for_each_index_in_order, unshuffle, reorder', 'array.h'), ('shape_traits specializations, for_each_matrix_index, for_each_image_index', 'matrix.h, image.h')], ['sequence of indices passed to the callback'])
p('C07', 'Value loops touch each element exactly once and never the padding',
  'for_each_value, fill, generate, transform_index and transform_indices on an array or ref call the function on each element of the shape exactly once whatever the layout (dense, padded, permuted, negative or zero strides, cropped), and read or write no other memory. '
  'fill stores the value given; transform_index/indices store f(index) at each index; generate stores the results of the calls, made in the order of for_each_value, and transform_index/indices make their calls in the order of for_each_index; an element shared by several indices (zero stride) is visited once per index. for_each_value_in_order calls the function on the elements in the order of the dims (dimension 0 innermost), for one array or for the same window of two arrays with layouts of their own. '
  'The callable of the caller is used by reference when passed as an lvalue.',
  ['inputs', 'programs'], 'All layouts of all ranks, all element values, all callables.',
  'The loops sort and fuse dimensions at run time; tests exercise a few layouts and mostly check the sum of values.',
  [A, I, M], [('dynamic_optimize_shape, fuse, for_each_value_in_order', 'array.h'), ('shape_traits::for_each_value', 'array.h, matrix.h, image.h'), ('fill, generate, transform_index, transform_indices', 'array.h')], ['memory image of the buffer and its guards'])
p('C08', 'Copies and moves transfer the right element for every pair of layouts',
  'copy, move, make_copy and make_move make every element of the destination equal to the source element with the same index, for every pair of layouts, shapes types and bounds where the destination lies inside the source, and write nothing else (neither padding nor the source of a copy). '
  'Each element is assigned exactly once; moves move each element and copies leave the source unchanged; copying to an empty destination does nothing, and the results of make_copy and make_move have the requested shape.',
  ['inputs', 'programs'], 'All pairs of source and destination shapes (types, mins, crops, strides of either sign, padding, permutation, broadcast sources), for arrays and refs.',
  'The copy loops fuse dimensions jointly for both layouts; the tests use a few pairs of shapes.',
  [A], [('dynamic_optimize_copy_shapes, for_each_value_in_order (two arrays)', 'array.h'), ('copy, move, make_copy, make_move', 'array.h')], ['memory image of both buffers'])
p('C09', 'Equality compares shape and every element, and nothing else',
  'a == b and a != b on arrays and refs hold exactly when shapes (mins, extents and strides) are equal and all elements are equal (or not), and equal(a, b) holds exactly when mins and extents are equal and all elements at the same index are equal, whatever the two layouts and types. '
  'Padding never influences the result, one differing element anywhere makes them unequal, and empty arrays of equal bounds are equal.',
  ['inputs', 'programs'], 'All pairs of layouts, all contents, all positions of a difference.',
  'Tests compare a few arrays; a comparison that skips part of the elements for some layout is not noticed.',
  [A], [('array_ref::operator==, operator!=, equal', 'array.h'), ('copy_shape_traits', 'array.h')])
p('C10', 'An array behaves as a value under any history of operations',
  'Under every sequence of construction, copy and move construction and assignment, assign, clear, swap, make_copy/make_move, fill and element writes, each live array has the shape and the elements that a model map from index to value predicts. '
  'Copies are independent of their source, self-assignment changes nothing, an array moved from by construction is a default constructed array, and every moved-from array can be used again; the value given to fill, assign or construction ends up in every element.',
  ['histories'], 'All histories over a pool of arrays of several shape types, with empty and non-empty arrays and equal and different shapes.',
  'Tests check single operations on fresh arrays; the interesting behaviour (reuse of storage, self-aliasing, assigning to moved-from or cleared arrays) needs several steps.',
  [A], [('array constructors, operator=, assign, clear, swap', 'array.h: class array'), ('swap_except_allocator, allocate, deallocate', 'array.h: class array')], ['shape and contents after every step'])
p('C11', 'Every element is constructed once, destroyed once and never used in between',
  'Over every history of container operations each element slot of an array is constructed exactly once before use and destroyed exactly once before its storage is released or reused, padding is never constructed, and the number of live elements equals the sum of the sizes of the live arrays. '
  'Copies copy-construct or copy-assign, moves never copy, and constructing or assigning with a value constructs each element from that value.',
  ['histories'], 'All histories of container operations with non-trivial element types (including move-only ones) and layouts with padding.',
  'Tests count constructions for a few single operations; leaks or double destruction appear in particular sequences (assign over equal shape, reshape, failed propagation of allocators).',
  [A], [('construct, copy_construct, move_construct, destroy, deallocate', 'array.h: class array'), ('move_assign, copy_assign', 'array.h')], ['instrumented element type'])
p('C12', 'Storage is obtained and released through the right allocator, once',
  'Every block an array uses is allocated by its allocator with the flat extent of its shape and released exactly once, with the same size, by an equal allocator. '
  'The allocator of an array after copy or move construction, assignment and swap is the one prescribed by the allocator traits (propagation and select_on_container_copy_construction), and the contents are right for equal and unequal allocators. '
  'make_array, make_copy, make_compact_copy, make_move and make_ein_sum return an array that has the allocator given to them. auto_allocator gives its internal buffer to at most one live block and only if it fits, and falls back to its base allocator otherwise; uninitialized allocators skip only default construction and otherwise behave as their base allocator.',
  ['histories', 'configurations'], 'All histories of container operations, all combinations of propagation traits, equal and unequal allocators.',
  'Tests use std::allocator and a few auto_allocator scenarios; propagation has 2^3 configurations times operation sequences.',
  [A], [('array constructors/assignment/swap with allocators', 'array.h: class array'), ('auto_allocator, uninitialized_allocator', 'array.h')], ['log of a tracking allocator'])
p('C13', 'Reshape keeps every element whose index stays in bounds',
  'After reshape(new_shape) the array has exactly the resolved new shape, every index in both the old and the new bounds holds the value it had before, every other element is default constructed, and the allocator is unchanged. '
  'This holds for growing, shrinking, shifting, disjoint, empty and layout-only changes, and for repeated reshapes.',
  ['inputs', 'histories'], 'All pairs of old and new shapes (bounds and strides), all element values, move-only elements, sequences of reshapes.',
  'Tests reshape one or two arrays by growing or shrinking; partial overlap and shifted mins are never combined with changed strides.',
  [A], [('array::reshape', 'array.h: class array'), ('clamp, clamp_dims', 'array.h: namespace internal')])
p('C14', 'Reinterpreting views address the same elements under the new description',
  'transpose and reorder permute the dimensions of a shape or view so that the element at the permuted index is the very same element; reinterpret, reinterpret_const, convert_shape, reinterpret_shape, set_shape and move_reinterpret_shape keep the base (plus the given offset) and take exactly the requested type or shape. '
  'The elements of the result are those of the original at the corresponding offsets, with no copy; set_shape and move_reinterpret_shape keep owning and later release the original storage.',
  ['inputs', 'programs'], 'All layouts, all permutations and selections of dimensions, all sub-shapes and offsets inside the original.',
  'Tests check one permutation and one offset each; sign of the offset and dimension order matter.',
  [A], [('transpose, reorder', 'array.h'), ('convert_shape, reinterpret, reinterpret_shape, move_reinterpret_shape', 'array.h'), ('set_shape', 'array.h: class array, array_ref')], ['addresses of elements of the views'])
p('C15', 'Static and dynamic shape parameters are interchangeable and checked',
  'Converting, copying or assigning between intervals, dims, shapes and refs of different static/dynamic parameters keeps every runtime value, keeps static parameters static, and turns an unresolved stride into the static stride if the target has one. '
  'Shapes and dims compare equal exactly if their values are equal regardless of static parameters, and is_compatible / is_explicitly_compatible answer true exactly when min, extent and (resolved) stride of each dimension match the static parameters of the target. '
  'Every operation gives the same result on a shape with static parameters as on the equivalent dynamic shape.',
  ['inputs', 'programs'], 'All pairs of shape types of equal rank and all values.',
  'There are 8 combinations of static parameters per dimension; tests instantiate few of them.',
  [A], [('constexpr_index, interval, dim constructors and assignment', 'array.h'), ('shape conversion, is_dim_compatible, convert_dims', 'array.h')])
p('C16', 'Einstein reductions equal the loop nest they denote',
  'ein_reduce on =, +=, -=, *= with any expression of ein operands built from + - * / unary -, min, max and cast performs, for each index of the reduction space in order with the lowest index innermost, exactly that assignment on the operand elements; the space has the bounds of the result for result indices and of the operands for reduction indices. '
  'It returns the result operand, works for arrays, refs, callables, scalars, pointers and C arrays in any layout, and writes only the result elements.',
  ['inputs', 'programs'], 'All expressions over the supported operators, all index patterns (contractions, diagonals, broadcasts, permutations), shapes, layouts and values.',
  'Tests check a dozen named reductions on fixed sizes and mostly dense arrays.',
  [E], [('ein_reduce, make_ein_reduce_shape, gather_dims, reconcile_dim', 'ein_reduce.h'), ('ein_op and operator nodes', 'ein_reduce.h')], ['contents of the result and the buffers'])
p('C17', 'make_ein_sum infers the shape of its result and sums into it',
  'make_ein_sum<T, Is...>(expr, init) returns a compact array whose dimension k has the min and extent of the dimension of the operands addressed by index Is[k], in the order given, and whose elements are init plus the sum of the expression over all other indices. '
  'make_ein_reduce_shape returns that same shape, static bounds stay static, and with no result index the result is a scalar.',
  ['inputs', 'programs'], 'All expressions, index patterns, operand layouts, initial values and bounds (including non-zero mins).',
  'Tests use a few matrix products and dot products with zero mins.',
  [E, A], [('make_ein_sum, make_ein_reduce_shape, is_inferred_shape', 'ein_reduce.h'), ('make_compact', 'array.h')])
p('C18', 'Z-order traversal visits every point exactly once, in z-curve order',
  'for_each_in_z_order and for_all_in_z_order call the function exactly once with each tuple of values of the ranges, for every number of ranges and every combination of lengths (equal or not, powers of two or not, 1 or 0), and never outside the ranges. '
  'Within any aligned block of a power of two positions, all points of the block are visited before leaving it, with the first range varying fastest.',
  ['inputs'], 'All ranks, all combinations of range lengths, ranges of indices and of split intervals.',
  'Tests check a few square and rectangular sizes.',
  [Z], [('for_each_index_in_z_order_impl, next_power_of_two', 'z_order.h'), ('for_each_in_z_order, for_all_in_z_order', 'z_order.h')])
p('C19', 'Image helpers address the right pixels for every storage order',
  'crop(im, x0, y0, x1, y1, origin) is a view whose pixels are exactly those of the image in the intersection of the image with the rectangle, keeping coordinates with crop_origin::crop and starting at (0, 0) with crop_origin::zero; it is empty if they do not intersect. '
  'slice_channel views exactly one channel, crop_image_shape changes only x and y, and chunky and planar image arrays store dense channels or rows as declared and convert to each other by copy without changing a pixel.',
  ['inputs'], 'All image layouts (chunky, padded chunky, planar, generic), positions, rectangles (inside, partly or fully outside) and both origins.',
  'Tests crop one image size with rectangles inside the image.',
  [I], [('crop, crop_image_shape, slice_channel', 'image.h'), ('chunky_image_shape, planar_image_shape and traits', 'image.h')], ['addresses of pixels of the views'])
p('C20', 'Ill-formed uses are rejected at compile time and well-formed ones accepted',
  'Calls that cannot be right - wrong number of indices, an access or slice of the wrong rank, writing through const refs, incompatible static parameters, non-permutations in transpose, copies between different ranks, ein operands with the wrong number of dimensions or conflicting static extents - do not participate in overload resolution or fail to compile, while every documented form is accepted. '
  'For transpose this is decided exactly: a list of dimension indices is accepted if and only if it is a permutation.',
  ['programs'], 'All lists of dimension indices up to rank 6, all argument counts and kinds, generated programs.',
  'The error tests cover a few fixed misuse programs (and only that they fail to compile).',
  [A, E], [('enable_if_* constraints', 'array.h: shape, array_ref, array'), ('enable_if_permutation, enable_if_callable', 'array.h'), ('disable_if_not_equal', 'array.h')])
p('C21', 'Stringification shows exactly the runtime values',
  'The text of an interval, dim or shape is "[min, end)", "dim(min, extent, stride)" (without the stride if it is unresolved) and "shape<rank>(dims...)" with the runtime values of the object, whatever is static or dynamic, for every value including negative ones. '
  'Reading the text back gives the same values.',
  ['inputs'], 'All intervals, dims and shapes of any rank.',
  'The abseil tests (not built here) check a few examples.',
  ['absl/absl.h'], [('AbslStringify for interval, dim, shape', 'absl/absl.h')])
p('C22', 'Resampling equals the direct evaluation of its kernel formula',
  'resample(input, output, rates, kernel) gives, for every output pixel and channel, the sum of the input pixels weighted by the kernel (stretched when downsampling) at their distance from the mapped position, with the weights normalized over the input, up to rounding, for all image sizes, crops (output mins), rational rates and kernels. '
  'Constant images stay constant, resampling at rate 1 with an interpolating kernel is the identity, and no memory outside the images is accessed.',
  ['inputs'], 'All input and output bounds, rates, kernels and values.',
  'The repository only compares nothing but a benchmark and sample images for this example.',
  ['examples/resample/resample.h', 'examples/resample/rational.h'], [('build_kernels, resample_y, transpose, resample', 'examples/resample/resample.h')])
p('C23', 'Rational arithmetic is exact',
  'rational values behave as exact fractions: + - * / and comparisons with rationals and integers agree with exact arithmetic, values are kept reduced with a positive denominator, and floor, ceil, round and conversion to floating point agree with the exact value. ',
  ['inputs'], 'All numerators and denominators whose exact results are representable.',
  'There is no test of the rational type.',
  ['examples/resample/rational.h'], [('class rational, euclidean_div, floor, ceil, round', 'examples/resample/rational.h')])
p('C24', 'All matrix product and convolution variants agree with the definition',
  'Every implementation of the matrix product in the examples computes C(i,j) = sum over k of A(i,k)*B(k,j) for all sizes, also those that are not multiples of the tile sizes (the tiled ones: of at least one tile), up to rounding, and writes only C. '
  'The 2D convolution with ReLU equals its definition for all sizes.',
  ['inputs'], 'All sizes of the matrices and images, all values, both element types.',
  'The example programs run a single fixed size.',
  ['examples/linear_algebra/matrix.cpp', 'examples/linear_algebra/conv2d_relu.cpp'], [('multiply_* functions', 'examples/linear_algebra/matrix.cpp'), ('conv2d_relu variants', 'examples/linear_algebra/conv2d_relu.cpp')])
p('C25', 'In debug builds violated preconditions stop the program',
  'With assertions enabled, converting to a shape whose static parameters do not match, copying or moving to a destination outside the source, reinterpreting or setting a shape that does not fit in the original, converting away non-trivial dimensions, giving a static interval or dim another value, splitting an interval that is shorter than a static inner extent and reductions over mismatched bounds (of several operands, or of the dimensions of one that a repeated index addresses) stop the program before any memory is touched, for every violating argument. '
  'The same operations with arguments that satisfy the preconditions never stop.',
  ['inputs'], 'All operations with documented preconditions, arguments on both sides of the boundary.',
  'Tests check a few assertion failures with fixed arguments.',
  [A, E], [('assert_dim_compatible, is_trivial_slice, is_subset_of and is_in_range asserts', 'array.h'), ('reconcile_dim', 'ein_reduce.h')])
p('C26', 'Intervals, dims and index iterators behave as the sets of integers they denote',
  'An interval or dim (with any static parameters) denotes [min, min+extent): iteration, size, max, set_min/extent/max, is_in_range for indices, intervals and dims, equality, range/r constructors, begin/end and clamp agree with that set for all values. '
  'Index iterators satisfy the arithmetic of random access iterators over the integers.',
  ['inputs', 'programs'], 'All mins and extents (negative, zero, large), all static parameters, all offsets.',
  'Tests check a few intervals.',
  [A], [('interval, dim, index_iterator, range, r, clamp', 'array.h')])
p('C27', 'Shape predicates are sound for every layout',
  'is_compact holds exactly if the flat extent is at most the size; a shape whose indices map to distinct offsets is reported one-to-one, and a compact shape reported one-to-one whose strides nest (no zero strides, each at least stride times extent of the dimensions inside) addresses every offset of its flat range exactly once. '
  'For non-empty shapes flat_min, flat_max and flat_extent are the exact bounds of the offsets. is_subset_of(other, offset) holds for every shape whose offsets all lie among those of other shifted by the offset, and for non-empty shapes only if the range of its offsets lies in the shifted range of other.',
  ['inputs'], 'All pairs of shapes (any rank, sign of strides), all offsets.',
  'Tests check a handful of shapes.',
  [A], [('shape::is_compact, is_one_to_one, is_subset_of, flat_min, flat_max', 'array.h: class shape')])
p('C28', 'A failed allocation leaves no leak, no double free and unharmed sources',
  'If the allocator throws at any allocation in a history of container operations, the exception reaches the caller, no element is leaked, constructed twice or destroyed twice, no block is leaked or freed twice, and the sources of the failed copy keep their shape and values. '
  'The array that was being assigned is still usable: it can be destroyed, assigned again and, unless its shape is a compile-time constant that is not empty, read (its shape never claims elements it has no storage for). reshape leaves the array as it was.',
  ['fault_sequences', 'histories'], 'All histories of container operations and every allocation in them failing.',
  'No test injects allocation failures.',
  [A], [('allocate, assign, reshape, constructors', 'array.h: class array')])
p('C29', 'Results do not depend on index width, optimization, assertions or compiler',
  'The same program on arrays gives the same observable results (shapes, values, visiting orders) with 64-bit and 32-bit indices, with and without assertions, at every optimization level and with both compilers, as long as all offsets are representable.',
  ['configurations', 'inputs'], 'All supported build configurations times generated programs over the whole API.',
  'The test suite is built in one configuration.',
  [A, E, I, M, Z], [('index_t, NDARRAY_INT_INDICES', 'array.h'), ('NDARRAY_INLINE, NDARRAY_RESTRICT', 'array.h')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for r in P:
            f.write(json.dumps(r) + '\n')
