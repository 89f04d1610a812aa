// C27: shape predicates are sound for every layout.
#include "shapes.h"
using namespace nd;

// Do the strides nest: is there an order in which each dim is inside the stride of the next?
static bool nests(const MS& m) {
  std::vector<MD> d;
  for (const MD& x : m) {
    if (x.ext != 1) d.push_back(x);
    if (x.ext > 1 && x.str == 0) return false;
  }
  std::sort(d.begin(), d.end(), [](const MD& a, const MD& b) { return std::abs(a.str) < std::abs(b.str); });
  for (size_t i = 0; i + 1 < d.size(); i++) {
    if (std::abs(d[i].str) * d[i].ext > std::abs(d[i + 1].str)) return false;
  }
  return true;
}

template <class Shape>
static MS gen_layout(Src& s, bool huge) {
  std::vector<SD> sd = statics<Shape>();
  GenOpts o;
  o.max_ext = 7;
  o.max_size = 150;
  o.huge = true;
  MS m;
  switch (s.weighted({3, 2, 3})) {
  case 0: m = gen(s, sd, o); break;
  case 1:
    o.overlap = true;
    m = gen(s, sd, o);
    break;
  default:
    // Small strides: compact or almost so.
    m = gen(s, sd, o);
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sstr) m[d].str = s.around(4);
    }
  }
  if (huge) {
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sstr && s.chance(1, 2)) m[d].str *= sizeof(nda::index_t) == 8 ? (i64(1) << 33) : (i64(1) << 12);
    }
  }
  return m;
}

template <class Shape>
static void predicates(Src& s, Ctx& c) {
  bool huge = s.chance(1, 10);
  MS m = gen_layout<Shape>(s, huge);
  NOTE(c, "shape " << str(m));
  Shape a = make<Shape>(m);
  const i64 n = size_of(m);
  c.nontrivial = n > 1;
  CHECK_IEQ(a.size(), n);
  CHECK_EQ(a.empty(), n == 0);
  if (n > 0) {
    CHECK_IEQ(a.flat_min(), flat_min(m));
    CHECK_IEQ(a.flat_max(), flat_max(m));
    CHECK_IEQ(a.flat_extent(), flat_max(m) - flat_min(m) + 1);
  }
  CHECK_EQ(a.is_compact(), (i64)a.flat_extent() <= n);
  std::set<i64> offsets;
  for_each(m, [&](const Idx& i) {
    i64 at = a[index<Shape::rank()>(i)];
    CHECK_M(at == offset_of(m, i), "the offset of " << str(i) << " is " << at);
    CHECK(at >= a.flat_min() && at <= a.flat_max());
    offsets.insert(at);
  });
  const bool inj = (i64)offsets.size() == n;
  c.cls(!inj, "overlapping");
  c.cls(n > 0 && a.is_compact(), "compact");
  if (n > 0) {
    // The range is exact.
    CHECK_IEQ(*offsets.begin(), a.flat_min());
    CHECK_IEQ(*offsets.rbegin(), a.flat_max());
  }
  if (inj) CHECK_M(a.is_one_to_one(), "is_one_to_one is false, but all offsets are distinct");
  if (n > 0 && a.is_compact() && a.is_one_to_one() && nests(m)) {
    c.cls("compact and one-to-one");
    CHECK_M((i64)offsets.size() == (i64)a.flat_extent(), "compact and one-to-one, but " << offsets.size() << " of " << a.flat_extent() << " offsets are used");
  }
  // Each offset of an array's flat range is used if it is compact and injective.
  if (n > 0 && inj) CHECK_EQ(a.is_compact(), (i64)offsets.size() == flat_max(m) - flat_min(m) + 1);
  // Arrays and refs agree.
  int x = 0;
  nda::array_ref<int, Shape> r(&x, a);
  CHECK_EQ(r.is_compact(), a.is_compact());
  CHECK_EQ(r.empty(), a.empty());
  CHECK_IEQ(r.size(), n);
  if (inj && !huge && flat_max(m) - flat_min(m) < 4000) {
    nda::array<int, Shape> arr(a);
    CHECK_EQ(arr.is_compact(), a.is_compact());
    CHECK_EQ(arr.empty(), a.empty());
    CHECK_IEQ(arr.size(), n);
  }
}

template <class A, class B>
static void subset(Src& s, Ctx& c) {
  NOTE(c, type_name<A>() << " in " << type_name<B>());
  MS m = gen_layout<A>(s, false), o = gen_layout<B>(s, s.chance(1, 20));
  NOTE(c, "shape " << str(m) << " in " << str(o));
  A a = make<A>(m);
  B b = make<B>(o);
  if (nd::empty(m)) {
    i64 off = s.around(50);
    CHECK_M(a.is_subset_of(b, (index_t)off), "an empty shape is not a subset (offset " << off << ")");
    return;
  }
  if (nd::empty(o)) {
    // The other shape has no offsets.
    i64 off = s.around(50);
    c.nontrivial = true;
    c.cls(true, "in an empty shape");
    CHECK_M(!a.is_subset_of(b, (index_t)off), "a shape is a subset of an empty shape (offset " << off << ")");
    return;
  }
  const i64 lo = flat_min(o) - flat_min(m), hi = flat_max(o) - flat_max(m);
  i64 off;
  switch (s.pick(4)) {
  case 0: off = s.around(50); break;
  case 1: off = -lo + s.around(1); break;
  case 2: off = -hi + s.around(1); break;
  default: off = lo <= hi ? -s.range(lo, hi) : -s.range(hi, lo);
  }
  NOTE(c, "offset " << off);
  c.nontrivial = true;
  // The offsets of m are among those of o, shifted.
  std::set<i64> shifted;
  for_each(o, [&](const Idx& i) { shifted.insert(offset_of(o, i) + off); });
  bool all = true;
  for_each(m, [&](const Idx& i) { all = all && shifted.count(offset_of(m, i)); });
  const bool range = flat_min(m) >= flat_min(o) + off && flat_max(m) <= flat_max(o) + off;
  const bool got = a.is_subset_of(b, (index_t)off);
  c.cls(all, "a subset");
  c.cls(!range, "outside");
  c.cls(range && !all, "inside of the range");
  if (all) CHECK_M(got, "is_subset_of is false for a subset");
  if (!range) CHECK_M(!got, "is_subset_of is true, but some offsets are outside of the range");
}

#if PART == 0
using list = types<any_shape<1>, any_shape<2>, any_shape<3>, shape<>, dense_shape<2>, chunky_image_shape<3>, fixed_dense_shape<3, 4>, shape<dim<-2, dynamic, -1>>,
    shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>, shape<dim<dynamic, dynamic, 0>, dim<>>, any_shape<4>, any_shape<5>, any_shape<6>, any_shape<8>>;
PROP_T(shape_predicates, 1.0, list) { predicates<Shape>(s, c); }
#else
PROP(subsets, 1.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {subset<any_shape<1>, any_shape<1>>, subset<any_shape<2>, any_shape<2>>, subset<any_shape<1>, any_shape<2>>, subset<any_shape<2>, any_shape<1>>,
      subset<any_shape<3>, any_shape<2>>, subset<dense_shape<2>, any_shape<3>>, subset<shape<>, any_shape<2>>, subset<any_shape<2>, fixed_dense_shape<3, 4>>,
      subset<fixed_dense_shape<3, 4>, any_shape<2>>, subset<shape<dim<-2, dynamic, -1>>, any_shape<1>>, subset<any_shape<5>, any_shape<4>>, subset<any_shape<7>, any_shape<7>>,
      subset<chunky_image_shape<3>, chunky_image_shape<>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
#endif
