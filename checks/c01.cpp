// C01: every form of access to an element of an array addresses the same element, the one at
// sum((i_d - min_d) * stride_d) from the base, and no other memory.
#include "shapes.h"
using namespace nd;

static Idx random_index(Src& s, const MS& m) {
  Idx i(m.size());
  for (size_t d = 0; d < m.size(); d++) i[d] = m[d].min + s.range(0, m[d].ext - 1);
  return i;
}

// --- The mapping alone, with large mins, extents and strides.

template <class S>
static void check_shape_accessors(const S& sh, const MS& m) {
  auto mn = sh.min();
  auto mx = sh.max();
  auto ex = sh.extent();
  auto st = sh.stride();
  Idx vmn = from_index(mn), vmx = from_index(mx), vex = from_index(ex), vst = from_index(st);
  for (size_t d = 0; d < m.size(); d++) {
    CHECK_IEQ(vmn[d], m[d].min);
    CHECK_IEQ(vmx[d], m[d].max());
    CHECK_IEQ(vex[d], m[d].ext);
    CHECK_IEQ(vst[d], m[d].str);
    dim<> r = sh.dim(d);
    CHECK_IEQ(r.min(), m[d].min);
    CHECK_IEQ(r.max(), m[d].max());
    CHECK_IEQ(r.extent(), m[d].ext);
    CHECK_IEQ(r.stride(), m[d].str);
  }
}

template <class S, size_t R>
struct aliases {
  static void run(const S&, const MS&) {}
};
template <class D>
static void same_dim(const D& d, const MD& m, i64 at) {
  CHECK_IEQ(d.min(), m.min);
  CHECK_IEQ(d.extent(), m.ext);
  CHECK_IEQ(d.size(), m.ext);
  CHECK_IEQ(d.stride(), m.str);
  CHECK_IEQ(d.max(), m.max());
  CHECK_IEQ(d.flat_offset((index_t)at), (at - m.min) * m.str);
  CHECK_EQ(d.is_in_range((index_t)at), at >= m.min && at < m.min + m.ext);
}
template <class S>
struct aliases<S, 1> {
  static void run(const S& s, const MS& m) {
    same_dim(s.i(), m[0], m[0].min);
    same_dim(s.x(), m[0], m[0].max());
    same_dim(s.template dim<0>(), m[0], m[0].min + 1);
    CHECK_IEQ(s.width(), m[0].ext);
    CHECK_IEQ(s.rows(), m[0].ext);
  }
};
template <class S>
struct aliases<S, 2> {
  static void run(const S& s, const MS& m) {
    aliases<S, 1>::run(s, m);
    same_dim(s.j(), m[1], m[1].min);
    same_dim(s.y(), m[1], m[1].min - 1);
    same_dim(s.template dim<1>(), m[1], m[1].max());
    CHECK_IEQ(s.height(), m[1].ext);
    CHECK_IEQ(s.columns(), m[1].ext);
  }
};
template <class S>
struct aliases<S, 3> {
  static void run(const S& s, const MS& m) {
    aliases<S, 2>::run(s, m);
    same_dim(s.k(), m[2], m[2].min);
    same_dim(s.z(), m[2], m[2].max() + 1);
    same_dim(s.c(), m[2], m[2].max());
    same_dim(s.template dim<2>(), m[2], m[2].max());
    CHECK_IEQ(s.channels(), m[2].ext);
  }
};
template <class S>
struct aliases<S, 4> {
  static void run(const S& s, const MS& m) {
    aliases<S, 3>::run(s, m);
    same_dim(s.w(), m[3], m[3].min);
    same_dim(s.template dim<3>(), m[3], m[3].max());
  }
};
template <class S>
struct aliases<S, 5> {
  static void run(const S& s, const MS& m) {
    aliases<S, 4>::run(s, m);
    same_dim(s.template dim<4>(), m[4], m[4].max());
  }
};
template <class S>
struct aliases<S, 6> {
  static void run(const S& s, const MS& m) {
    aliases<S, 5>::run(s, m);
    same_dim(s.template dim<5>(), m[5], m[5].max());
  }
};

#if PART == 0
template <class Shape, size_t R>
struct range_queries {
  static void run(Src& s, const Shape& sh, const MS& m) {
    // Indices in and around the shape, and intervals.
    Idx i(R);
    MS iv(R);
    bool all_in = true;
    for (size_t d = 0; d < R; d++) {
      i[d] = s.chance(1, 4) ? m[d].min + s.around(m[d].ext + 2) : m[d].min + s.range(0, std::max<i64>(0, m[d].ext - 1));
      iv[d].min = m[d].min + s.range(-1, std::max<i64>(0, m[d].ext / 2));
      iv[d].ext = s.range(1, std::max<i64>(1, m[d].ext));
      if (iv[d].min < m[d].min || iv[d].max() > m[d].max()) all_in = false;
    }
    CHECK_EQ(sh.is_in_range(index<R>(i)), in_range(m, i));
    CHECK_EQ(call_range(sh, i, std::make_index_sequence<R>()), in_range(m, i));
    CHECK_EQ(interval_range(sh, iv, std::make_index_sequence<R>()), all_in);
    CHECK_EQ(dim_range(sh, iv, std::make_index_sequence<R>()), all_in);
  }
  template <size_t... D>
  static bool call_range(const Shape& sh, const Idx& i, std::index_sequence<D...>) {
    return sh.is_in_range((index_t)i[D]...);
  }
  template <size_t... D>
  static bool interval_range(const Shape& sh, const MS& v, std::index_sequence<D...>) {
    return sh.is_in_range(nda::interval<>((index_t)v[D].min, (index_t)v[D].ext)...);
  }
  template <size_t... D>
  static bool dim_range(const Shape& sh, const MS& v, std::index_sequence<D...>) {
    return sh.is_in_range(std::make_tuple(dim<>((index_t)v[D].min, (index_t)v[D].ext, 7)...));
  }
};
template <class Shape>
struct range_queries<Shape, 0> {
  static void run(Src&, const Shape&, const MS&) {}
};

template <class Shape>
static void mapping(Src& s, Ctx& c, i64 coord, i64 stride) {
  std::vector<SD> sd = statics<Shape>();
  MS m(sd.size());
  for (size_t d = 0; d < sd.size(); d++) {
    const int scale = (int)s.range(0, 3);
    const i64 mc = scale == 0 ? 8 : scale == 1 ? 300 : coord;
    m[d].min = sd[d].smin ? sd[d].min : s.around(mc);
    m[d].ext = sd[d].sext ? sd[d].ext : s.range(1, mc);
    m[d].str = sd[d].sstr ? sd[d].str : s.around(scale == 3 ? stride : 50);
    if (scale == 3) c.cls("large coordinates");
  }
  Shape sh = make<Shape>(m);
  NOTE(c, "shape " << str(m));
  c.nontrivial = Shape::rank() >= 1;
  CHECK(sh.is_resolved());
  check_shape_accessors(sh, m);
  aliases<Shape, Shape::rank()>::run(sh, m);
  range_queries<Shape, Shape::rank()>::run(s, sh, m);
  i64 n = 1;
  bool ovf = false;
  for (auto& d : m) ovf |= __builtin_mul_overflow(n, d.ext, &n);
  const i64 lim = std::numeric_limits<index_t>::max();
  i64 fmn = flat_min(m), fmx = flat_max(m);
  CHECK_IEQ(sh.flat_min(), fmn);
  CHECK_IEQ(sh.flat_max(), fmx);
  if (fmx - fmn < lim) CHECK_IEQ(sh.flat_extent(), fmx - fmn + 1);
  if (!ovf && n <= lim) {
    CHECK_IEQ(sh.size(), n);
    CHECK(!sh.empty());
  }
  for (int k = 0; k < 3; k++) {
    Idx i = random_index(s, m);
    if (k == 2) {
      // The mapping is affine, with no regard to the extent.
      for (size_t d = 0; d < m.size(); d++) i[d] += s.around(5);
    }
    NOTE(c, "index " << str(i));
    const i64 want = offset_of(m, i);
    CHECK_IEQ(sh[index<Shape::rank()>(i)], want);
    CHECK_IEQ((call<Shape::rank()>(sh, i)), want);
    if (k < 2) CHECK(want >= fmn && want <= fmx);
  }
}

using mapping_types = types<any_shape<1>, any_shape<2>, any_shape<3>, any_shape<4>, any_shape<5>, any_shape<6>, any_shape<9>, dense_shape<2>,
    dense_shape<4>, matrix_shape<>, chunky_image_shape<3>, fixed_dense_shape<3, 4, 5>,
    shape<dim<-2, 5, 100>, dim<dynamic, 7, -30>, broadcast_dim<>>, shape<>, shape<dim<1000, dynamic, 1000>, fixed_dim<64, 1>>>;

PROP_T(mapping_of_indices, 1.0, mapping_types) {
  const bool small = sizeof(index_t) == 4;
  mapping<Shape>(s, c, small ? 2000 : i64(1) << 30, small ? 4000 : i64(1) << 29);
}

// array_refs of any layout over foreign memory: exactly the addressed elements are written.
template <class Shape>
static void ref_access(Src& s, Ctx& c) {
  constexpr size_t R = Shape::rank();
  GenOpts o;
  o.overlap = true;
  MS m = gen<Shape>(s, o);
  NOTE(c, "array_ref of shape " << str(m));
  if (empty(m)) return;
  c.nontrivial = size_of(m) >= 2;
  c.cls(!injective(m), "several indices share an element");
  Buffer<int> b(m, -1), want(m, -1);
  nda::array_ref<int, Shape> r = nda::make_array_ref(b.base, make<Shape>(m));
  CHECK_EQ(r.base(), b.base);
  CHECK_IEQ(r.data() - b.base, flat_min(m));
  int n = 0;
  for_each(m, [&](const Idx& i) {
    n++;
    want.base[offset_of(m, i)] = n;
    if (n & 1) r[index<R>(i)] = n; else call<R>(r, i) = n;
    CHECK_EQ((const void*)&r[index<R>(i)], (const void*)(b.base + offset_of(m, i)));
  });
  CHECK_M(b.mem == want.mem, "memory written by the accesses");
}
PROP_T(access_of_refs, 0.7, shapes_low) { ref_access<Shape>(s, c); }
PROP_T(access_of_refs_high, 0.3, shapes_high) { ref_access<Shape>(s, c); }

// Arguments of any integral type are accepted as indices.
PROP(index_argument_types, 0.3) {
  MS m(2);
  for (auto& d : m) {
    d.min = s.range(0, 3);
    d.ext = s.range(1, 6);
  }
  m[0].str = 1;
  m[1].str = m[0].ext;
  nda::dense_array<int, 2> a(make<dense_shape<2>>(m));
  Idx i = random_index(s, m);
  NOTE(c, str(m) << " at " << str(i));
  c.nontrivial = size_of(m) > 1;
  int* want = a.base() + offset_of(m, i);
  CHECK_EQ(&a((int)i[0], (int)i[1]), want);
  CHECK_EQ(&a((unsigned)i[0], (short)i[1]), want);
  CHECK_EQ(&a((size_t)i[0], (char)i[1]), want);
  CHECK_EQ(&a((long long)i[0], (unsigned char)i[1]), want);
  const auto& ca = a;
  CHECK_EQ(&ca((unsigned)i[0], (long)i[1]), (const int*)want);
  CHECK_EQ(&a.ref()((uint16_t)i[0], (size_t)i[1]), want);
}

// A rank 0 array is one value.
PROP(scalars, 0.1) {
  int v = (int)s.around(1000), w = (int)s.around(1000);
  c.nontrivial = v != w;
  NOTE(c, "scalar " << v << " then " << w);
  nda::array<int, shape<>> a(shape<>(), v);
  CHECK_IEQ(a.size(), 1);
  CHECK(!a.empty());
  CHECK((nda::array<int, shape<>>::is_scalar()));
  CHECK_IEQ(a(), v);
  int& ra = a;
  CHECK_EQ(&ra, a.base());
  const auto& ca = a;
  const int& rca = ca;
  CHECK_IEQ(rca, v);
  ra = w;
  CHECK_IEQ(a[std::tuple<>()], w);
  nda::array_ref<int, shape<>> r(&v, {});
  int& rr = r;
  CHECK_EQ(&rr, &v);
  rr = w;
  CHECK_IEQ(v, w);
}

#else
// --- Arrays and array_refs.

template <class A, size_t R>
static void check_forms(A& a, const Idx& i, const void* want) {
  CHECK_EQ((const void*)&a[index<R>(i)], want);
  CHECK_EQ((const void*)&call<R>(a, i), want);
}

template <class Shape>
static void check_all_forms(nda::array<int, Shape>& a, const MS& m, const Idx& i, const int* base) {
  constexpr size_t R = Shape::rank();
  const void* want = base + offset_of(m, i);
  const nda::array<int, Shape>& ca = a;
  check_forms<nda::array<int, Shape>, R>(a, i, want);
  check_forms<const nda::array<int, Shape>, R>(ca, i, want);
  auto r = a.ref();
  check_forms<decltype(r), R>(r, i, want);
  auto cr = a.cref();
  check_forms<decltype(cr), R>(cr, i, want);
  const auto cr2 = ca.ref();
  check_forms<decltype(cr2), R>(cr2, i, want);
  nda::array_ref<int, Shape> conv = a;
  check_forms<decltype(conv), R>(conv, i, want);
  nda::const_array_ref<int, Shape> conv2 = ca;
  check_forms<decltype(conv2), R>(conv2, i, want);
  nda::const_array_ref<int, Shape> conv3 = r;
  check_forms<decltype(conv3), R>(conv3, i, want);
  nda::array_ref<int, any_shape<R>> dyn = r;
  check_forms<decltype(dyn), R>(dyn, i, want);
  auto copy = r;
  check_forms<decltype(copy), R>(copy, i, want);
}

template <class Shape>
static void array_access(Src& s, Ctx& c) {
  constexpr size_t R = Shape::rank();
  GenOpts o;
  MS m = gen<Shape>(s, o);
  NOTE(c, "array of shape " << str(m));
  c.nontrivial = size_of(m) >= 2;
  c.cls(empty(m), "empty");
  Shape sh = make<Shape>(m);
  nda::array<int, Shape> a(sh);
  CHECK_M(model(a.shape()) == m, "shape() is " << str(model(a.shape())));
  check_shape_accessors(a.shape(), m);
  aliases<nda::array<int, Shape>, R>::run(a, m);
  {
    auto r = a.ref();
    aliases<decltype(r), R>::run(r, m);
    CHECK_EQ(r.base(), a.base());
    CHECK_EQ(r.data(), a.data());
    CHECK_IEQ(r.size(), size_of(m));
    CHECK_EQ(r.empty(), empty(m));
    CHECK(r.shape() == a.shape());
  }
  CHECK_IEQ(a.size(), size_of(m));
  CHECK_EQ(a.empty(), empty(m));
  if (empty(m)) return;
  const int* base = a.base();
  CHECK(base != nullptr);
  CHECK_IEQ(a.data() - base, flat_min(m));
  const nda::array<int, Shape>& ca = a;
  CHECK_EQ(ca.base(), base);
  CHECK_EQ(ca.data(), a.data());
  CHECK_IEQ(a.shape().flat_extent(), flat_max(m) - flat_min(m) + 1);
  // Distinct values, stored with alternating forms of access.
  int n = 0;
  for_each(m, [&](const Idx& i) {
    n++;
    if (n % 16 == 1) check_all_forms(a, m, i, base);
    switch (n % 4) {
    case 0: a[index<R>(i)] = n; break;
    case 1: call<R>(a, i) = n; break;
    case 2: a.ref()[index<R>(i)] = n; break;
    default: {
      auto r = a.ref();
      call<R>(r, i) = n;
    }
    }
  });
  n = 0;
  for_each(m, [&](const Idx& i) {
    n++;
    CHECK_M(base[offset_of(m, i)] == n, "value at " << str(i));
    switch (n % 3) {
    case 0: CHECK_IEQ(ca[index<R>(i)], n); break;
    case 1: CHECK_IEQ((call<R>(ca, i)), n); break;
    default: CHECK_IEQ(ca.cref()[index<R>(i)], n);
    }
  });
}
#if PART == 1
PROP_T(access_of_arrays_low, 1.0, shapes_low) { array_access<Shape>(s, c); }
#else
PROP_T(access_of_arrays_high, 0.5, shapes_high) { array_access<Shape>(s, c); }
#endif


#endif
