// C02: automatic strides keep the known ones and never make dimensions overlap.
#include "shapes.h"
using namespace nd;

// All pairs of dims with more than one index nest: one is inside the stride of the other.
static bool nested(const MS& m) {
  for (size_t a = 0; a < m.size(); a++) {
    for (size_t b = 0; b < a; b++) {
      if (m[a].ext <= 1 || m[b].ext <= 1) continue;
      i64 sa = std::abs(m[a].str), sb = std::abs(m[b].str);
      if (!(sa * m[a].ext <= sb || sb * m[b].ext <= sa)) return false;
    }
  }
  return true;
}

static void check_resolved(const MS& before, const MS& after) {
  CHECK(same_bounds(before, after));
  bool known_ok = true;
  MS known;
  i64 dense = 1;
  bool all_unknown = true;
  for (const MD& d : before) {
    if (d.str != UNRES) {
      known.push_back(d);
      all_unknown = false;
    }
  }
  known_ok = nested(known);
  for (size_t d = 0; d < before.size(); d++) {
    if (before[d].str != UNRES) {
      CHECK_M(after[d].str == before[d].str, "the known stride of dim " << d << " changed to " << str(after));
    } else {
      CHECK_M(after[d].str > 0, "dim " << d << " of " << str(after));
    }
  }
  if (known_ok) CHECK_M(nested(after), "overlapping dims: " << str(after));
  if (all_unknown && !empty(before)) {
    for (const MD& d : after) {
      CHECK_M(d.str == dense, "not dense: " << str(after));
      dense *= d.ext;
    }
  }
  MS want = resolved(before);
  CHECK_M(after == want, str(after) << " instead of " << str(want));
}

// Extents from small to large, with bounded products.
template <class Shape>
static MS gen_partial(Src& s, Ctx& c) {
  std::vector<SD> sd = statics<Shape>();
  MS m(sd.size());
  // The product of all extents and paddings must be representable.
  i64 room = sizeof(index_t) == 4 ? i64(1) << 28 : i64(1) << 50;
  for (const SD& d : sd) {
    if (d.sext) room /= std::max<i64>(1, d.ext);
    if (d.sstr) room /= std::max<i64>(1, std::abs(d.str));
  }
  const bool big = s.chance(1, 3);
  if (big) c.cls("large extents");
  for (size_t d = 0; d < sd.size(); d++) {
    m[d].min = sd[d].smin ? sd[d].min : s.around(s.chance(1, 4) ? 1000000 : 6);
    if (sd[d].sext) {
      m[d].ext = sd[d].ext;
    } else {
      i64 hi = big ? std::min<i64>(std::max<i64>(1, room / 16), s.chance(1, 2) ? 1000 : 1000000) : 8;
      m[d].ext = s.weighted({6, 2, 1}) == 1 ? 1 : s.chance(1, 20) ? 0 : s.range(1, hi);
      room = std::max<i64>(1, room / std::max<i64>(1, m[d].ext));
    }
    m[d].str = sd[d].sstr ? sd[d].str : UNRES;
  }
  // Which strides are given, and how.
  std::vector<bool> known(sd.size()), give(sd.size());
  for (size_t d = 0; d < sd.size(); d++) {
    known[d] = sd[d].sstr;
    give[d] = !known[d] && s.chance(1, 3);
  }
  const int mode = (int)s.weighted({3, 1});
  GenOpts o;
  MS t;
  std::vector<size_t> which;
  std::vector<bool> tknown;
  for (size_t d = 0; d < sd.size(); d++) {
    if (known[d] || give[d]) {
      which.push_back(d);
      t.push_back(m[d]);
      tknown.push_back(known[d]);
    }
  }
  if (mode == 0 || big) {
    gen_nested_strides(s, t, tknown, o);
    c.cls("known strides nest");
  } else {
    for (size_t k = 0; k < t.size(); k++) {
      if (!tknown[k]) t[k].str = s.around(20);
    }
    c.cls("known strides arbitrary");
  }
  for (size_t k = 0; k < t.size(); k++) m[which[k]].str = t[k].str;
  return m;
}

using resolve_types = types<any_shape<1>, any_shape<2>, any_shape<3>, any_shape<4>, any_shape<5>, any_shape<6>, any_shape<7>, any_shape<9>, dense_shape<1>,
    dense_shape<2>, dense_shape<3>, dense_shape<4>, matrix_shape<>, matrix_shape<3, dynamic>, chunky_image_shape<>,
    chunky_image_shape<3>, chunky_image_shape<3, 4>, shape<dim<>, strided_dim<6>, dim<>>, shape<dim<>, fixed_dim<4, -3>, dim<>, dim<>>,
    shape<dim<>, broadcast_dim<>, dim<>>, shape<fixed_dim<5>, dim<>, fixed_dim<3, 1>>, shape<>>;

template <class Shape>
static void resolve_case(Src& s, Ctx& c) {
  MS m = gen_partial<Shape>(s, c);
  NOTE(c, "shape " << str(m));
  int unknown = 0, known = 0;
  for (const MD& d : m) (d.str == UNRES ? unknown : known)++;
  c.nontrivial = unknown >= 1 && m.size() >= 2;
  c.cls(unknown && known, "known and unknown strides");
  c.cls(empty(m), "empty");
  Shape sh = make<Shape>(m);
  CHECK_M(model(sh) == m, "the shape is " << str(model(sh)));
  CHECK_EQ(sh.is_resolved(), unknown == 0);
  sh.resolve();
  CHECK(sh.is_resolved());
  MS r = model(sh);
  NOTE(c, "resolved " << str(r));
  check_resolved(m, r);
  Shape again = sh;
  again.resolve();
  CHECK(again == sh);
}
PROP_T(resolve, 1.0, resolve_types) { resolve_case<Shape>(s, c); }

// Arrays and refs of partially specified shapes have exactly the resolved shape.
using array_types = types<any_shape<1>, any_shape<2>, any_shape<3>, any_shape<4>, dense_shape<2>, dense_shape<3>, chunky_image_shape<3>,
    shape<dim<>, strided_dim<6>, dim<>>, matrix_shape<>>;
PROP_T(arrays_of_unresolved_shapes, 0.3, array_types) {
  GenOpts o;
  o.unresolved = true;
  MS m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  MS want = resolved(m);
  for (const MD& d : m) {
    if (d.str == UNRES) c.nontrivial = m.size() >= 2;
  }
  Shape sh = make<Shape>(m);
  nda::array<char, Shape> a(sh);
  CHECK_M(model(a.shape()) == want, str(model(a.shape())) << " instead of " << str(want));
  check_resolved(m, model(a.shape()));
  nda::array<char, Shape> b(sh, 7);
  CHECK_M(model(b.shape()) == want, str(model(b.shape())) << " instead of " << str(want));
  auto d = nda::make_array<char>(sh);
  CHECK_M(model(d.shape()) == want, str(model(d.shape())) << " instead of " << str(want));
  auto e = nda::make_array<char>(sh, 3);
  CHECK_M(model(e.shape()) == want, str(model(e.shape())) << " instead of " << str(want));
  char x;
  auto r = nda::make_array_ref(&x, sh);
  CHECK_M(model(r.shape()) == want, str(model(r.shape())) << " instead of " << str(want));
  CHECK(model(sh) == m);
  nda::array<char, Shape> f(sh, 1);
  f.assign(sh, 2);
  CHECK_M(model(f.shape()) == want, str(model(f.shape())) << " instead of " << str(want));
  for_each(want, [&](const Idx& i) { CHECK(f[index<Shape::rank()>(i)] == 2); });
  // Any element is inside the allocation: write all of them.
  for_each(want, [&](const Idx& i) { a[index<Shape::rank()>(i)] = b[index<Shape::rank()>(i)]; });
}

// The most common way to make shapes: from extents, or {min, extent} pairs.
PROP(shapes_from_extents, 0.1) {
  i64 w = s.range(0, 20), h = s.range(0, 20), d = s.range(0, 20), x0 = s.around(9);
  NOTE(c, w << " " << h << " " << d << " " << x0);
  c.nontrivial = w > 1 && h > 1;
  nda::shape_of_rank<3> a((index_t)w, (index_t)h, (index_t)d);
  MS m = {{0, w, UNRES}, {0, h, UNRES}, {0, d, UNRES}};
  CHECK(model(a) == m);
  a.resolve();
  check_resolved(m, model(a));
  nda::shape_of_rank<2> b({(index_t)x0, (index_t)w}, {0, (index_t)h});
  m = {{x0, w, UNRES}, {0, h, UNRES}};
  CHECK(model(b) == m);
  nda::dense_array<int, 2> e({(index_t)w, (index_t)h});
  m = {{0, w, 1}, {0, h, UNRES}};
  check_resolved(m, model(e.shape()));
  nda::array_of_rank<int, 2> g({(index_t)w, {(index_t)x0, (index_t)h, 100}});
  m = {{0, w, UNRES}, {x0, h, 100}};
  check_resolved(m, model(g.shape()));
}
