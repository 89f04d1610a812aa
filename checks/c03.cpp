// C03: compact shapes and compact copies keep the indices and drop the padding.
#include "shapes.h"
using namespace nd;

template <class Shape>
static constexpr bool no_static_strides() {
  for (const SD& d : statics<Shape>()) {
    if (d.sstr) return false;
  }
  return true;
}

template <class Shape>
static void check_compact_type() {
  using R = decltype(nda::make_compact(std::declval<Shape>()));
  std::vector<SD> a = statics<Shape>(), b = statics<R>();
  CHECK_IEQ(a.size(), b.size());
  for (size_t d = 0; d < a.size(); d++) {
    if (a[d].smin) CHECK(b[d].smin && b[d].min == a[d].min);
    if (a[d].sext) CHECK(b[d].sext && b[d].ext == a[d].ext);
    if (a[d].sstr) CHECK(b[d].sstr && b[d].str == a[d].str);
  }
  if (no_static_strides<Shape>() && a.size() > 0) {
    // Like dense_shape, the innermost dimension has a static stride of 1.
    CHECK(b[0].sstr && b[0].str == 1);
  }
}

template <class Shape>
static MS compact_model(const MS& m) {
  std::vector<SD> sd = statics<Shape>();
  MS r = m;
  for (size_t d = 0; d < m.size(); d++) r[d].str = sd[d].sstr ? sd[d].str : UNRES;
  return resolved(r);
}

template <class Shape, class Result>
static void check_compact(const MS& m, const Result& sh) {
  MS r = model(sh);
  CHECK_M(same_bounds(m, r), str(r));
  CHECK(sh.is_resolved());
  if (empty(m)) return;
  std::vector<SD> sd = statics<Shape>();
  MS fixed;
  for (size_t d = 0; d < m.size(); d++) {
    if (sd[d].sstr) {
      CHECK_M(r[d].str == sd[d].str, str(r));
      MD k = m[d];
      k.str = sd[d].str;
      fixed.push_back(k);
    }
  }
  if (injective(fixed)) CHECK_M(injective(r), "overlap in " << str(r));
  MS want = compact_model<Shape>(m);
  if (flat_max(want) - flat_min(want) + 1 <= size_of(want)) {
    CHECK_M(flat_max(r) - flat_min(r) + 1 <= size_of(r), str(r) << " is not compact");
    CHECK(sh.is_compact());
  }
  if (no_static_strides<Shape>()) {
    i64 dense = 1;
    for (const MD& d : r) {
      CHECK_M(d.str == dense, str(r));
      dense *= d.ext;
    }
  }
}

using compact_low = types<any_shape<1>, any_shape<2>, any_shape<3>, any_shape<4>, any_shape<5>, any_shape<7>, dense_shape<2>, dense_shape<3>, matrix_shape<>,
    matrix_shape<3, dynamic>, matrix_shape<2, 5>, shape<>, shape<dense_dim<dynamic, 4>, dim<>>>;
using compact_mid = types<chunky_image_shape<3>, chunky_image_shape<3, 4>, chunky_image_shape<>, planar_image_shape, shape<dim<>, dense_dim<0, 3>, dim<>>,
    shape<dim<>, fixed_dim<4>, dense_dim<>, dim<>>, shape<fixed_dim<3>, fixed_dim<4>>,
    shape<fixed_dim<3>, dim<>, fixed_dim<2>, fixed_dim<2>>, shape<dim<>, dense_dim<0, 1>, dim<>>>;
using compact_high = types<shape<strided_dim<6>, dim<>, dim<>>,
    shape<dim<>, fixed_dim<4, -3>, dim<>>, shape<fixed_dim<4, -12>, dense_dim<0, 3>, dim<>>, shape<fixed_dim<3, 0>, dense_dim<0, 3>, dim<>>,
    shape<dim<>, broadcast_dim<>>, shape<dim<2, 3>, dim<-1, 4>, dim<0, 2>>, shape<fixed_dim<2, 20>, dim<>, dense_dim<0, 5>>,
    shape<fixed_dim<4>, dim<>, fixed_dim<3, 1>, fixed_dim<2>, dim<>>, fixed_dense_shape<3, 1, 4>, shape<dim<>, fixed_dim<2>, dim<>, fixed_dim<3>, dense_dim<>, dim<>>>;

template <class Shape>
static void compact_case(Src& s, Ctx& c) {
  constexpr size_t R = Shape::rank();
  GenOpts o;
  o.max_size = 300;
  o.huge = true;
  o.overlap = s.chance(1, 4);
  MS m = gen<Shape>(s, o);
  NOTE(c, "source shape " << str(m));
  c.nontrivial = size_of(m) >= 2 && flat_max(m) - flat_min(m) + 1 != size_of(m);
  c.cls(c.nontrivial, "source not compact");
  c.cls(empty(m), "empty");
  Shape sh = make<Shape>(m);
  check_compact_type<Shape>();
  auto comp = nda::make_compact(sh);
  check_compact<Shape>(m, comp);
  CHECK(model(sh) == m);
  // bounds()
  auto bounds = sh.bounds();
  MS bm = m;
  for (MD& d : bm) d.str = UNRES;
  CHECK(model(bounds) == bm);
  // Unresolved input.
  {
    MS um = m;
    std::vector<SD> sd = statics<Shape>();
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sstr && s.chance(1, 2)) um[d].str = UNRES;
    }
    auto comp2 = nda::make_compact(make<Shape>(um));
    CHECK_M(model(comp2) == model(comp), str(um));
  }
  if (o.overlap || !injective(m)) return;

  Buffer<int> buf(m, -7);
  nda::array_ref<int, Shape> r(buf.base, sh);
  nda::const_array_ref<int, Shape> cr = r;
  nda::array<int, Shape> a(sh);
  const auto& ca = a;
  int n = 0;
  for_each(m, [&](const Idx& i) { r[index<R>(i)] = a[index<R>(i)] = ++n; });
  std::vector<int> image = buf.mem;
  auto bshape = nda::array<int, any_shape<R>>(r.bounds()).shape();
  CHECK(same_bounds(model(bshape), m));
  CHECK(model(a.bounds()) == bm);
  auto check_copy = [&](auto&& copy) {
    check_compact<Shape>(m, copy.shape());
    CHECK(copy.shape() == comp);
    int n = 0;
    for_each(m, [&](const Idx& i) {
      n++;
      CHECK_M(copy[index<R>(i)] == n, "value at " << str(i));
    });
  };
  check_copy(nda::make_compact_copy(r));
  check_copy(nda::make_compact_copy(cr));
  check_copy(nda::make_compact_copy(a));
  check_copy(nda::make_compact_copy(ca));
  CHECK(buf.mem == image);
  check_copy(nda::make_compact_move(r));
  check_copy(nda::make_compact_move(a));
  nda::array<int, Shape> a2(sh);
  n = 0;
  for_each(m, [&](const Idx& i) { a2[index<R>(i)] = ++n; });
  check_copy(nda::make_compact_move(std::move(a2)));
}

#if PART == 0
PROP_T(compact_1, 1.0, compact_low) { compact_case<Shape>(s, c); }
#elif PART == 1
PROP_T(compact_2, 1.0, compact_mid) { compact_case<Shape>(s, c); }
#else
PROP_T(compact_3, 1.0, compact_high) { compact_case<Shape>(s, c); }
#endif
