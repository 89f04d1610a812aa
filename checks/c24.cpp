// C24: all matrix product and convolution variants agree with the definition.
#include <immintrin.h>
#define main CAT(example_main, PART)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define relative_error CAT(relative_error, PART)
#if PART == 0
#include "examples/linear_algebra/matrix.cpp"
#else
#include "examples/linear_algebra/conv2d_relu.cpp"
#endif
#undef main
#undef relative_error
#include "nd.h"
using namespace nd;

// All values are small integers, so that sums are exact in every type and in any order.
template <class T>
struct Mem : Buffer<T> {
  MS m;
  void init(Src& s, const MS& shape, bool random) {
    m = shape;
    Buffer<T>::init(m, (T)-77);
    if (!random) return;
    uint64_t x = s.draw(1 << 20);
    for_each(m, [&](const Idx& i) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      at(i) = (T)((int)((x >> 40) % 15) - 7);
    });
  }
  T& at(const Idx& i) { return this->base[offset_of(m, i)]; }
};
static i64 gen_origin(Src& s) { return s.chance(1, 2) ? 0 : s.around(20); }

// The memory is as it was, but for the given elements.
template <class T, class Fn>
static void check_result(Mem<T>& got, const Mem<T>& before, Fn&& want) {
  std::vector<T> w = before.mem;
  const i64 shift = before.base - before.mem.data();
  for_each(got.m, [&](const Idx& i) { w[shift + offset_of(got.m, i)] = want(i); });
  for (size_t k = 0; k < w.size(); k++) {
    CHECK_M(got.mem[k] == w[k], "the element at offset " << (i64)k - shift << " is " << got.mem[k] << " instead of " << w[k]);
  }
}
template <class T>
static Mem<T> clone(const Mem<T>& a) {
  Mem<T> r = a;
  r.base = r.mem.data() + (a.base - a.mem.data());
  return r;
}

#if PART == 0
template <class T>
static void product(Src& s, Ctx& c) {
  const i64 rows = 4, cols = 3 * 32 / (i64)sizeof(T);  // the tiles of the tiled variants
  auto size = [&](i64 tile) {
    switch (s.weighted({4, 3, 1})) {
    case 0: return tile * s.range(1, 3) + s.range(0, tile - 1);
    case 1: return s.range(1, 2 * tile);
    default: return s.range(0, 3);
    }
  };
  i64 M = size(rows), N = size(cols), K = s.chance(1, 4) ? s.range(240, 540) : s.range(0, 24);
  if (K > 100) {
    // (keep it quick)
    M = std::min(M, rows + 2);
    N = std::min(N, cols + 4);
    if (s.chance(1, 3)) M = rows, N = cols;
  }
  const bool tiles = M >= rows && N >= cols;
  const size_t variants = 9;
  size_t v = s.pick(variants);
  if (v >= 6 && !tiles) v -= 3;
  // (the z-order variant only splits K of at least 1)
  const i64 i0 = gen_origin(s), j0 = gen_origin(s), k0 = gen_origin(s);
  auto matrix_of = [&](i64 mn0, i64 e0, i64 mn1, i64 e1) { return MS{{mn0, e0, e1 + (s.chance(1, 2) ? s.range(0, 5) : 0)}, {mn1, e1, 1}}; };
  Mem<T> A, B, C;
  A.init(s, matrix_of(i0, M, k0, K), true);
  B.init(s, matrix_of(k0, K, j0, N), true);
  C.init(s, matrix_of(i0, M, j0, N), true);
  NOTE(c, "variant " << v << ", A " << str(A.m) << ", B " << str(B.m) << ", C " << str(C.m));
  const Mem<T> a0 = clone(A), b0 = clone(B), c0 = clone(C);
  using S = nda::matrix_shape<>;
  nda::const_matrix_ref<T> a(A.base, make<S>(A.m)), b(B.base, make<S>(B.m));
  nda::matrix_ref<T> cc(C.base, make<S>(C.m));
  c.nontrivial = M > 1 && N > 1 && K > 1;
  c.cls(tiles && (M % rows || N % cols), "overlapping tiles possible");
  if (v == 8 && K > 256 && (M % rows || N % cols)) c.known("z-order-overlap");
  if (v == 8 && K == 0) v = 6;  // (it initializes C only with the first k)
  static const char* const names[] = {"reduce_cols", "ein_reduce_cols", "reduce_rows", "ein_reduce_rows", "reduce_matrix",
      "ein_reduce_matrix", "reduce_tiles", "ein_reduce_tiles", "reduce_tiles_z_order"};
  c.cls(names[v]);
  switch (v) {
  case 0: multiply_reduce_cols<T>(a, b, cc); break;
  case 1: multiply_ein_reduce_cols<T>(a, b, cc); break;
  case 2: multiply_reduce_rows<T>(a, b, cc); break;
  case 3: multiply_ein_reduce_rows<T>(a, b, cc); break;
  case 4: multiply_reduce_matrix<T>(a, b, cc); break;
  case 5: multiply_ein_reduce_matrix<T>(a, b, cc); break;
  case 6: multiply_reduce_tiles<T>(a, b, cc); break;
  case 7: multiply_ein_reduce_tiles<T>(a, b, cc); break;
  default: multiply_reduce_tiles_z_order<T>(a, b, cc); break;
  }
  auto want = [&](const Idx& x) {
    T sum = 0;
    for (i64 k = k0; k < k0 + K; k++) sum += A.at({x[0], k}) * B.at({k, x[1]});
    return sum;
  };
  check_result(C, c0, want);
  CHECK(A.mem == a0.mem);
  CHECK(B.mem == b0.mem);
  if (!nd::empty(C.m) && C.m[0].str == N && A.m[0].str == K && B.m[0].str == N && s.chance(1, 2)) {
    // Plain C.
    Mem<T> D = clone(c0);
    multiply_ref(A.mem.data() + A.guard, B.mem.data() + B.guard, D.mem.data() + D.guard, (int)M, (int)K, (int)N);
    check_result(D, c0, want);
    c.cls("multiply_ref");
  }
}
PROP(products, 1.0) {
  switch (s.pick(3)) {
  case 0: product<float>(s, c); break;
  case 1: product<double>(s, c); break;
  default: product<int>(s, c); break;
  }
}
#endif

#if PART == 1
// Shapes of rank 4 with dense channels, or a static size.
template <class T, class OShape>
static void conv(Src& s, Ctx& c) {
  const i64 tx = 4, tco = 3 * 32 / (i64)sizeof(T);
  MS o = gen(s, statics<OShape>(), [] { GenOpts g; g.max_ext = 6; g.negative = false; return g; }());
  const std::vector<SD> sd = statics<OShape>();
  const bool free = !sd[0].sext;
  if (free) {
    o[0].ext = s.chance(1, 4) ? s.range(1, tco) : tco + s.range(0, 2 * tco);
    o[1].ext = s.chance(1, 4) ? s.range(1, tx) : tx + s.range(0, 8);
    o[2].ext = s.range(0, 3);
    o[3].ext = s.range(0, 2);
    gen_nested_strides(s, o, {true, false, false, false}, [] { GenOpts g; g.negative = false; return g; }());
  }
  const i64 ci = s.range(0, 4), fx = s.range(0, 3), fy = s.range(0, 3);
  const i64 ci0 = gen_origin(s), fx0 = gen_origin(s), fy0 = gen_origin(s);
  auto dense = [&](MS m) {
    i64 stride = 1;
    for (MD& d : m) {
      d.str = stride;
      stride *= std::max<i64>(1, d.ext + (s.chance(1, 4) && stride > 1 ? s.range(0, 2) : 0));
    }
    return m;
  };
  Mem<T> I, F, B, O;
  F.init(s, dense({{o[0].min, o[0].ext, 1}, {fx0, fx, 0}, {fy0, fy, 0}, {ci0, ci, 0}}), true);
  I.init(s, dense({{ci0, ci, 1}, {o[1].min + fx0, o[1].ext + std::max<i64>(fx - 1, 0), 0}, {o[2].min + fy0, o[2].ext + std::max<i64>(fy - 1, 0), 0}, {o[3].min, o[3].ext, 0}}), true);
  B.init(s, {{o[0].min, o[0].ext, 1}}, true);
  O.init(s, o, true);
  NOTE(c, "output " << str(o) << ", filter " << str(F.m) << ", input " << str(I.m));
  const Mem<T> i0 = clone(I), f0 = clone(F), b0 = clone(B), o0 = clone(O);
  using S4 = shape<dense_dim<>, dim<>, dim<>, dim<>>;
  using S1 = shape<dense_dim<>>;
  nda::const_array_ref<T, S4> in(I.base, make<S4>(I.m)), filter(F.base, make<S4>(F.m));
  nda::const_array_ref<T, S1> bias(B.base, make<S1>(B.m));
  nda::array_ref<T, OShape> out(O.base, make<OShape>(o));
  const bool tiled = o[0].ext >= tco && o[1].ext >= tx && s.chance(2, 3);
  c.nontrivial = !nd::empty(o) && ci * fx * fy > 1;
  c.cls(tiled ? "tiled" : "naive");
  c.cls(tiled && (o[0].ext % tco || o[1].ext % tx), "overlapping tiles");
  if (tiled) {
    conv2d_tiled(in, filter, bias, out);
  } else {
    conv2d_naive(in, filter, bias, out);
  }
  check_result(O, o0, [&](const Idx& x) {
    T sum = B.at({x[0]});
    for (i64 k = ci0; k < ci0 + ci; k++)
      for (i64 dy = fy0; dy < fy0 + fy; dy++)
        for (i64 dx = fx0; dx < fx0 + fx; dx++) sum += F.at({x[0], dx, dy, k}) * I.at({k, x[1] + dx, x[2] + dy, x[3]});
    return std::max<T>(0, sum);
  });
  CHECK(I.mem == i0.mem);
  CHECK(F.mem == f0.mem);
  CHECK(B.mem == b0.mem);
}
using conv_shape = shape<dense_dim<>, dim<>, dim<>, dim<>>;
PROP(convolutions, 1.0) {
  switch (s.pick(5)) {
  case 0: conv<float, conv_shape>(s, c); break;
  case 1: conv<double, conv_shape>(s, c); break;
  case 2: conv<int, conv_shape>(s, c); break;
  case 3: conv<float, tensor_shape<24, 7, 3, 2>>(s, c); break;
  default: conv<int, tensor_shape<29, 5, 2, 1>>(s, c); break;
  }
}
#endif
