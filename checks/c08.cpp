// C08: copies and moves transfer the right element for every pair of layouts.
#include "shapes.h"
using namespace nd;

// An element that knows how often it was assigned.
struct El {
  int v = 0;
  int copied = 0, moved = 0, moved_from = 0;
  El() {}
  El(int v) : v(v) {}
  El(const El& r) : v(r.v) {}
  El(El&& r) : v(r.v) {
    r.moved_from++;
    r.v = -1;
  }
  El& operator=(const El& r) {
    v = r.v;
    copied++;
    return *this;
  }
  El& operator=(El&& r) {
    v = r.v;
    moved++;
    r.moved_from++;
    r.v = -1;
    return *this;
  }
  bool operator==(const El& r) const { return v == r.v && copied == r.copied && moved == r.moved && moved_from == r.moved_from; }
};

template <class S, class D>
struct pair_of {
  using src = S;
  using dst = D;
};

struct Case {
  MS src, dst;
  bool crop = false;
};

// A source and a destination inside of it.
template <class SS, class DS>
static bool gen_pair(Src& s, Ctx& c, Case& r, bool overlap_src) {
  GenOpts o;
  o.overlap = overlap_src;
  o.huge = true;
  if (s.chance(1, 12)) {
    o.max_ext = 100;
    o.max_size = 2000;
  }
  std::vector<SD> sd = statics<SS>(), dd = statics<DS>();
  // Let the source be large enough for the static bounds of the destination.
  std::vector<SD> sd2 = sd;
  r.src = gen(s, sd, o);
  bool regen = false;
  for (size_t d = 0; d < sd.size(); d++) {
    if (!sd[d].sext && dd[d].sext && r.src[d].ext < dd[d].ext) {
      sd2[d].sext = true;
      sd2[d].ext = dd[d].ext + s.range(0, 3);
      regen = true;
    }
    if (!sd[d].smin && dd[d].smin) {
      sd2[d].smin = true;
      sd2[d].min = dd[d].min - s.range(0, 2);
      regen = true;
    }
  }
  if (regen) r.src = gen(s, sd2, o);
  if (s.chance(1, 3)) {
    // The same bounds, if possible.
    r.dst = r.src;
    if (!bounds_fit(r.dst, dd) && !gen_crop(s, r.src, dd, r.dst, true)) return false;
  } else {
    if (!gen_crop(s, r.src, dd, r.dst, true)) return false;
  }
  if (s.chance(1, 30)) {
    // An empty destination may be anywhere.
    for (size_t d = 0; d < dd.size(); d++) {
      if (!dd[d].sext) {
        r.dst[d].ext = 0;
        if (!dd[d].smin) r.dst[d].min = s.around(50);
        break;
      }
    }
  }
  r.crop = !same_bounds(r.src, r.dst);
  r.dst = relayout(s, r.dst, dd, o);
  if (!injective(r.dst)) return false;
  NOTE(c, "source " << str(r.src));
  NOTE(c, "destination " << str(r.dst));
  c.nontrivial = size_of(r.dst) > 1;
  c.cls(nd::empty(r.dst), "empty destination");
  c.cls(r.crop && !nd::empty(r.dst), "the destination is a crop");
  bool permuted = false;
  for (size_t d = 0; d < dd.size(); d++) permuted |= r.src[d].str != r.dst[d].str && r.dst[d].ext > 1;
  c.cls(permuted, "different strides");
  return true;
}

struct Mem : Buffer<El> {
  MS m;
  i64 origin;
  std::vector<El> before;
  Mem(const MS& m, int first) : Buffer<El>(m, El()), m(m), origin(base - mem.data()) {
    for (size_t i = 0; i < mem.size(); i++) mem[i].v = first + (int)i;
    before = mem;
    for (size_t i = 0; i < mem.size(); i++) before[i].copied = before[i].moved = before[i].moved_from = 0;
    for (size_t i = 0; i < mem.size(); i++) mem[i].copied = mem[i].moved = mem[i].moved_from = 0;
  }
  El& at(const Idx& i) { return base[offset_of(m, i)]; }
  // All memory outside of `elements` is as before.
  void unchanged_except(const MS* elements, const char* what) {
    std::vector<bool> skip(mem.size());
    if (elements) {
      MS e = *elements;
      for (size_t d = 0; d < e.size(); d++) e[d].str = m[d].str;
      for_each(e, [&](const Idx& i) { skip[origin + offset_of(m, i)] = true; });
    }
    for (size_t i = 0; i < mem.size(); i++) CHECK_M(skip[i] || mem[i] == before[i], what << " changed at offset " << (i64)i - origin);
  }
};

template <class SS, class DS>
static void ref_pair(Src& s, Ctx& c) {
  NOTE(c, type_name<SS>() << " to " << type_name<DS>());
  Case r;
  const bool move = s.chance(1, 2);
  if (!gen_pair<SS, DS>(s, c, r, !move)) return;
  if (move && !injective(r.src)) return;
  Mem a(r.src, 1000), b(r.dst, 100000);
  nda::array_ref<El, SS> src(a.base, make<SS>(r.src));
  nda::array_ref<El, DS> dst(b.base, make<DS>(r.dst));
  if (move) {
    nda::move(src, dst);
  } else if (s.chance(1, 2)) {
    nda::copy(src, dst);
  } else {
    nda::copy(nda::const_array_ref<El, SS>(src), dst);
  }
  for_each(r.dst, [&](const Idx& i) {
    const El& d = b.at(i);
    const El& was = a.before[a.origin + offset_of(r.src, i)];
    CHECK_M(d.v == was.v, "the element at " << str(i) << " is " << d.v << " instead of " << was.v);
    CHECK_M(d.copied == !move && d.moved == move, "the element at " << str(i) << " is copied " << d.copied << " times and moved " << d.moved << " times");
    CHECK_M(d.moved_from == 0, "the destination is moved from");
  });
  b.unchanged_except(&r.dst, "memory around the destination is");
  if (!move) {
    a.unchanged_except(nullptr, "the source of a copy is");
  } else {
    a.unchanged_except(&r.dst, "memory around the moved elements is");
    for_each(r.dst, [&](const Idx& i) { CHECK_IEQ(a.at(i).moved_from, 1); });
  }
}

template <class Pairs>
struct run_pair;
template <class... P>
struct run_pair<types<P...>> {
  static void run(Src& s, Ctx& c) {
    static void (*const fns[])(Src&, Ctx&) = {ref_pair<typename P::src, typename P::dst>...};
    fns[s.pick(sizeof...(P))](s, c);
  }
};

using A1 = any_shape<1>;
using A2 = any_shape<2>;
using A3 = any_shape<3>;
using A4 = any_shape<4>;
using D1 = dense_shape<1>;
using D2 = dense_shape<2>;
using D3 = dense_shape<3>;
using D4 = dense_shape<4>;

#if PART == 0
PROP(refs_1_2, 1.0) {
  run_pair<types<pair_of<A2, A2>, pair_of<A1, A1>, pair_of<A1, D1>, pair_of<D1, A1>, pair_of<A2, D2>, pair_of<D2, A2>, pair_of<D2, D2>,
      pair_of<matrix_shape<>, matrix_shape<>>, pair_of<matrix_shape<>, D2>, pair_of<D2, matrix_shape<>>, pair_of<A2, matrix_shape<2, 5>>,
      pair_of<matrix_shape<3, dynamic>, fixed_dense_shape<3, 4>>, pair_of<fixed_dense_shape<3, 4>, A2>,
      pair_of<shape<>, shape<>>, pair_of<D1, D1>, pair_of<shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>, A2>>>::run(s, c);
}
#endif
#if PART == 1
PROP(refs_3, 1.0) {
  run_pair<types<pair_of<A3, A3>, pair_of<A3, D3>, pair_of<D3, A3>, pair_of<planar_image_shape, chunky_image_shape<>>,
      pair_of<chunky_image_shape<3>, planar_image_shape>, pair_of<chunky_image_shape<3>, chunky_image_shape<3, 4>>,
      pair_of<chunky_image_shape<3, 4>, chunky_image_shape<3>>, pair_of<chunky_image_shape<>, chunky_image_shape<>>,
      pair_of<A3, chunky_image_shape<3>>, pair_of<fixed_dense_shape<2, 3, 4>, A3>, pair_of<A3, fixed_dense_shape<2, 3, 2>>>>::run(s, c);
}
#endif
#if PART == 2
PROP(refs_4_6, 1.0) {
  run_pair<types<pair_of<A4, A4>, pair_of<A4, D4>, pair_of<D4, A4>, pair_of<D4, D4>, pair_of<any_shape<5>, any_shape<5>>, pair_of<any_shape<8>, any_shape<8>>,
      pair_of<any_shape<6>, any_shape<6>>, pair_of<shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>, A4>,
      pair_of<A4, shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>>>>::run(s, c);
}
#endif

#if PART == 3 || PART == 4
// Arrays, and the forms that make arrays.
template <class SS>
static void fill_array(nda::array<El, SS>& a, const MS& m, int first) {
  for_each(m, [&](const Idx& i) { a[index<SS::rank()>(i)] = El(first++); });
  a.for_each_value([](El& e) { e.copied = e.moved = e.moved_from = 0; });
}
template <class SS, class DS>
static void array_pair(Src& s, Ctx& c) {
  NOTE(c, type_name<SS>() << " to " << type_name<DS>());
  Case r;
  if (!gen_pair<SS, DS>(s, c, r, false)) return;
  if (!injective(r.src)) return;
  constexpr size_t R = SS::rank();
  nda::array<El, SS> src(make<SS>(r.src));
  fill_array(src, r.src, 1000);
  std::map<Idx, int> was;
  for_each(r.src, [&](const Idx& i) { was[i] = src[index<R>(i)].v; });
  const nda::array<El, SS>& csrc = src;
  const DS want = make<DS>(r.dst);
  auto check_values = [&](const auto& d, bool count, bool move) {
    CHECK(d.shape() == want);
    for_each(r.dst, [&](const Idx& i) {
      const El& e = d[index<R>(i)];
      CHECK_M(e.v == was[i], "the element at " << str(i) << " is " << e.v << " instead of " << was[i]);
      if (count) CHECK_M(e.copied == !move && e.moved == move, "the element at " << str(i) << " is copied " << e.copied << " times and moved " << e.moved << " times");
    });
  };
  auto check_source = [&](bool move) {
    CHECK(src.shape() == make<SS>(r.src));
    for_each(r.src, [&](const Idx& i) {
      const El& e = src[index<R>(i)];
      const bool moved = move && in_range(r.dst, i);
      CHECK_M(e.v == (moved ? -1 : was[i]), "the source at " << str(i) << " is " << e.v);
      CHECK_IEQ(e.moved_from, moved);
      CHECK(e.copied == 0 && e.moved == 0);
    });
  };
  switch (s.pick(12)) {
  case 0: {
    nda::array<El, DS> dst(want);
    nda::copy(csrc, dst);
    check_values(dst, true, false);
    return check_source(false);
  }
  case 1: {
    nda::array<El, DS> dst(want);
    nda::copy(csrc, dst.ref());
    check_values(dst, true, false);
    return check_source(false);
  }
  case 2: {
    nda::array<El, DS> dst(want);
    nda::copy(csrc.cref(), dst);
    check_values(dst, true, false);
    return check_source(false);
  }
  case 3: {
    nda::array<El, DS> dst(want);
    nda::move(src, dst);
    check_values(dst, true, true);
    return check_source(true);
  }
  case 4: {
    nda::array<El, DS> dst(want);
    nda::move(src, dst.ref());
    check_values(dst, true, true);
    return check_source(true);
  }
  case 5: {
    nda::array<El, DS> dst(want);
    nda::move(src.ref(), dst);
    check_values(dst, true, true);
    return check_source(true);
  }
  case 6: {
    auto dst = nda::make_copy(csrc, want);
    static_assert(std::is_same<decltype(dst), nda::array<El, DS>>::value, "");
    check_values(dst, false, false);
    return check_source(false);
  }
  case 7: {
    auto dst = nda::make_copy(csrc.cref(), want);
    static_assert(std::is_same<decltype(dst), nda::array<El, DS>>::value, "");
    check_values(dst, false, false);
    return check_source(false);
  }
  case 8: {
    auto dst = nda::make_move(src, want);
    static_assert(std::is_same<decltype(dst), nda::array<El, DS>>::value, "");
    check_values(dst, false, true);
    return check_source(true);
  }
  case 9: {
    auto dst = nda::make_move(src.ref(), want);
    check_values(dst, false, true);
    return check_source(true);
  }
  case 10: {
    // Bounds without strides: the result is resolved.
    MS b = r.dst;
    for (MD& d : b) d.str = UNRES;
    auto shp = make<DS>(b);
    auto dst = nda::make_copy(src, shp);
    CHECK(dst.shape().is_resolved());
    CHECK(dst.shape().min() == want.min() && dst.shape().extent() == want.extent());
    for_each(r.dst, [&](const Idx& i) { CHECK_M(dst[index<R>(i)].v == was[i], str(i)); });
    return check_source(false);
  }
  default: {
    // The whole array, with the same shape.
    auto dst = nda::make_copy(csrc);
    static_assert(std::is_same<decltype(dst), nda::array<El, SS>>::value, "");
    CHECK(dst.shape() == src.shape());
    for_each(r.src, [&](const Idx& i) { CHECK_M(dst[index<R>(i)].v == was[i], str(i)); });
    auto dst2 = nda::make_copy(csrc.cref());
    CHECK(dst2.shape() == src.shape());
    for_each(r.src, [&](const Idx& i) { CHECK_M(dst2[index<R>(i)].v == was[i], str(i)); });
    r.dst.clear();
    return check_source(false);
  }
  }
}
template <class SS>
static void rvalue_case(Src& s, Ctx& c) {
  NOTE(c, type_name<SS>() << " from an rvalue");
  Case r;
  if (!gen_pair<SS, SS>(s, c, r, false) || !injective(r.src)) return;
  constexpr size_t R = SS::rank();
  nda::array<El, SS> src(make<SS>(r.src));
  fill_array(src, r.src, 1000);
  std::map<Idx, int> was;
  for_each(r.src, [&](const Idx& i) { was[i] = src[index<R>(i)].v; });
  const El* base = src.base();
  if (s.chance(1, 4)) {
    nda::array<El, SS> dst;
    nda::move(std::move(src), dst);
    CHECK(dst.shape() == make<SS>(r.src));
    if (size_of(r.src) > 0 && SS().empty()) CHECK_M(dst.base() == base, "the storage is not moved");
    for_each(r.src, [&](const Idx& i) { CHECK_M(dst[index<R>(i)].v == was[i], str(i)); });
    return;
  }
  const SS want = make<SS>(s.chance(1, 2) ? r.src : r.dst);
  auto dst = nda::make_move(std::move(src), want);
  static_assert(std::is_same<decltype(dst), nda::array<El, SS>>::value, "");
  CHECK(dst.shape() == want);
  if (want == make<SS>(r.src) && size_of(r.src) > 0) {
    CHECK_M(dst.base() == base, "the storage is not moved");
    c.cls("the storage is moved");
  }
  for_each(model(want), [&](const Idx& i) { CHECK_M(dst[index<R>(i)].v == was[i], str(i)); });
}
template <class Pairs>
struct run_array;
template <class... P>
struct run_array<types<P...>> {
  static void run(Src& s, Ctx& c) {
    static void (*const fns[])(Src&, Ctx&) = {array_pair<typename P::src, typename P::dst>...};
    fns[s.pick(sizeof...(P))](s, c);
  }
};
#endif
#if PART == 3
PROP(arrays_1_2, 0.6) {
  run_array<types<pair_of<A2, A2>, pair_of<D1, A1>, pair_of<A2, D2>, pair_of<D2, D2>, pair_of<matrix_shape<>, D2>,
      pair_of<A2, matrix_shape<2, 5>>, pair_of<matrix_shape<3, dynamic>, fixed_dense_shape<3, 4>>>>::run(s, c);
}
PROP(rvalues, 0.4) {
  switch (s.pick(4)) {
  case 0: return rvalue_case<A2>(s, c);
  case 1: return rvalue_case<D3>(s, c);
  case 2: return rvalue_case<chunky_image_shape<>>(s, c);
  default: return rvalue_case<matrix_shape<>>(s, c);
  }
}
#endif
#if PART == 4
PROP(arrays_3, 0.6) {
  run_array<types<pair_of<A3, A3>, pair_of<planar_image_shape, chunky_image_shape<>>, pair_of<chunky_image_shape<3>, planar_image_shape>,
      pair_of<D3, A3>, pair_of<fixed_dense_shape<2, 3, 4>, A3>, pair_of<A3, fixed_dense_shape<2, 3, 2>>>>::run(s, c);
}
#endif

#if PART == 5
// Between element types; and from views of the kinds users make.
struct Feet {
  float v;
  Feet(double v = 0) : v((float)v) {}
};
struct Meters {
  float v;
  Meters(double v = 0) : v((float)v) {}
  Meters& operator=(const Feet& f) {
    v = f.v * 0.3048f;
    return *this;
  }
  bool operator==(const Meters& r) const { return v == r.v; }
};
template <class T>
static T sample(Src& s, std::true_type) {
  // Conversions of values that are out of range or negative are only defined between integers.
  const bool neg = std::is_signed<T>::value && s.chance(1, 4);
  T v = (T)s.pick(std::is_same<T, bool>::value ? 2 : 100);
  if (std::is_floating_point<T>::value && s.chance(1, 2)) v = (T)(v + 0.75);
  return neg && std::is_integral<T>::value ? (T)-v : v;
}
template <class T>
static T sample(Src& s, std::false_type) {
  return T((double)s.pick(100));
}
template <class TS, class TD, class SS, class DS>
static void convert_case(Src& s, Ctx& c) {
  Case r;
  NOTE(c, type_name<SS>() << " and " << type_name<DS>());
  if (!gen_pair<SS, DS>(s, c, r, true)) return;
  // Often the layouts are equal too.
  if (std::is_same<SS, DS>::value && s.chance(1, 2) && injective(r.src)) {
    r.dst = r.src;
    c.cls("equal shapes");
  }
  Buffer<TS> a(r.src, TS(1));
  Buffer<TD> b(r.dst, TD(77));
  const std::vector<TS> some = {sample<TS>(s, std::is_arithmetic<TS>()), sample<TS>(s, std::is_arithmetic<TS>()),
      sample<TS>(s, std::is_arithmetic<TS>()), sample<TS>(s, std::is_arithmetic<TS>()), sample<TS>(s, std::is_arithmetic<TS>())};
  for (size_t i = 0; i < a.mem.size(); i++) a.mem[i] = some[(i + i / 5) % 5];
  nda::array_ref<TS, SS> src(a.base, make<SS>(r.src));
  nda::array_ref<TD, DS> dst(b.base, make<DS>(r.dst));
  if (s.chance(1, 2)) nda::copy(src, dst);
  else nda::move(src, dst);
  std::vector<TD> want(b.mem.size(), TD(77));
  for_each(r.dst, [&](const Idx& i) {
    TD v = TD(77);
    v = a.base[offset_of(r.src, i)];
    want[(size_t)(b.base - b.mem.data() + offset_of(r.dst, i))] = v;
  });
  for (size_t i = 0; i < want.size(); i++) CHECK_M(b.mem[i] == want[i], "memory at " << i);
}
template <class TS, class TD>
static void convert_shapes(Src& s, Ctx& c) {
  static void (*const fns[])(Src&, Ctx&) = {convert_case<TS, TD, A3, D3>, convert_case<TS, TD, A2, A2>, convert_case<TS, TD, D2, D2>};
  fns[s.pick(3)](s, c);
}
PROP(element_types, 0.5) {
  static void (*const fns[])(Src&, Ctx&) = {convert_shapes<int, double>, convert_shapes<unsigned char, int>, convert_shapes<double, short>,
      convert_shapes<char, char>, convert_shapes<int, float>, convert_shapes<float, int>, convert_shapes<double, long long>,
      convert_shapes<int, unsigned>, convert_shapes<Feet, Meters>, convert_shapes<signed char, unsigned char>, convert_shapes<float, double>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
PROP(strings, 0.2) {
  Case r;
  if (!gen_pair<A2, D2>(s, c, r, false) || !injective(r.src)) return;
  nda::array<std::string, A2> a(make<A2>(r.src));
  int n = 0;
  std::map<Idx, std::string> was;
  for_each(r.src, [&](const Idx& i) { was[i] = a[index<2>(i)] = "some string that is not short " + std::to_string(n++); });
  bool move = s.chance(1, 2);
  auto b = move ? nda::make_move(a, make<D2>(r.dst)) : nda::make_copy(a, make<D2>(r.dst));
  for_each(r.dst, [&](const Idx& i) { CHECK_M(b[index<2>(i)] == was[i], str(i)); });
  for_each(r.src, [&](const Idx& i) {
    if (!move || !in_range(r.dst, i)) CHECK_M(a[index<2>(i)] == was[i], "source " << str(i));
  });
}
PROP(views, 0.5) {
  // A slice (and maybe a transposition) of a larger array.
  GenOpts o;
  MS m = gen<A3>(s, o);
  NOTE(c, "array " << str(m));
  if (nd::empty(m)) return;
  nda::array<int, A3> a(make<A3>(m));
  if (!injective(m)) return;
  int n = 0;
  for_each(m, [&](const Idx& i) { a[index<3>(i)] = ++n; });
  MS w;
  gen_crop(s, m, std::vector<SD>(3), w, true);
  interval<> w0((index_t)w[0].min, (index_t)w[0].ext), w1((index_t)w[1].min, (index_t)w[1].ext);
  if (w[2].ext == 0) w[2].min = m[2].min;
  index_t k = (index_t)w[2].min;
  NOTE(c, "window " << str(w));
  c.nontrivial = w[0].ext * w[1].ext > 1;
  auto v = a(w0, w1, k);
  auto copy = nda::make_copy(v, D2((index_t)0, (index_t)0));
  CHECK(copy.empty());
  auto dense = nda::make_compact_copy(v);
  auto b = nda::make_copy(a(w0, nda::_, k));
  auto t = nda::make_copy(nda::transpose<1, 0>(v));
  CHECK(dense.shape().min() == v.shape().min() && dense.shape().extent() == v.shape().extent());
  for (i64 y = w[1].min; y < w[1].min + w[1].ext; y++) {
    for (i64 x = w[0].min; x < w[0].min + w[0].ext; x++) {
      int e = a((index_t)x, (index_t)y, k);
      CHECK_IEQ(dense((index_t)x, (index_t)y), e);
      CHECK_IEQ(b((index_t)x, (index_t)y), e);
      CHECK_IEQ(t((index_t)y, (index_t)x), e);
    }
  }
  // Copy back into a window of another array.
  nda::array<int, planar_image_shape> big(a.bounds(), -5);
  nda::copy(v, big(w0, w1, k));
  for_each(m, [&](const Idx& i) {
    bool in = i[0] >= w[0].min && i[0] < w[0].min + w[0].ext && i[1] >= w[1].min && i[1] < w[1].min + w[1].ext && i[2] == k;
    CHECK_M(big[index<3>(i)] == (in ? a[index<3>(i)] : -5), str(i));
  });
}
#endif
