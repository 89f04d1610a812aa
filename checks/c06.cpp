// C06: index loops visit every index of a shape exactly once, in the given order.
#include "shapes.h"
using namespace nd;

// Shape types with a traversal of their own: shape_traits defines the order of the loops.
using custom2 = nda::shape<nda::dim<-5>, nda::dim<>>;
using custom3 = nda::shape<nda::dim<>, nda::dim<4>, nda::dim<>>;
namespace nda {
template <>
class shape_traits<custom2> {
public:
  using shape_type = custom2;
  template <class Fn>
  static void for_each_index(const custom2& s, Fn&& fn) {
    nda::for_each_index<1, 0>(s, fn);
  }
  template <class Ptr, class Fn>
  static void for_each_value(const custom2& s, Ptr base, Fn&& fn) {
    nda::for_each_value_in_order(nda::reorder<1, 0>(s), base, fn);
  }
};
template <>
class shape_traits<custom3> {
public:
  using shape_type = custom3;
  template <class Fn>
  static void for_each_index(const custom3& s, Fn&& fn) {
    nda::for_each_index<1, 2, 0>(s, fn);
  }
  template <class Ptr, class Fn>
  static void for_each_value(const custom3& s, Ptr base, Fn&& fn) {
    nda::for_each_value_in_order(nda::reorder<1, 2, 0>(s), base, fn);
  }
};
} // namespace nda

// The order in which the loops over the dims are nested, innermost first.
template <class Shape>
struct natural_order {
  static std::vector<size_t> get() {
    std::vector<size_t> r;
    for (size_t d = 0; d < Shape::rank(); d++) r.push_back(d);
    return r;
  }
};
template <>
struct natural_order<custom2> {
  static std::vector<size_t> get() { return {1, 0}; }
};
template <>
struct natural_order<custom3> {
  static std::vector<size_t> get() { return {1, 2, 0}; }
};
template <index_t R, index_t C>
struct natural_order<matrix_shape<R, C>> {
  static std::vector<size_t> get() { return {1, 0}; }
};
template <index_t C, index_t X>
struct natural_order<chunky_image_shape<C, X>> {
  static std::vector<size_t> get() { return {2, 0, 1}; }
};

// The indices in the order of a loop nest over the listed dims. The indices only have the listed
// dims, in the order of the dims of the shape.
static std::vector<Idx> nest(const MS& m, const std::vector<size_t>& order) {
  std::vector<Idx> r;
  MS sub;
  for (size_t d : order) sub.push_back(m[d]);
  std::vector<size_t> rank(order.size());
  for (size_t i = 0; i < order.size(); i++) {
    for (size_t d : order) rank[i] += d < order[i];
  }
  for_each(sub, [&](const Idx& i) {
    Idx j(i.size());
    for (size_t k = 0; k < i.size(); k++) j[rank[k]] = i[k];
    r.push_back(j);
  });
  return r;
}

static void compare(const std::vector<Idx>& got, const std::vector<Idx>& want) {
  for (size_t k = 0; k < std::min(got.size(), want.size()); k++) {
    CHECK_M(got[k] == want[k], "call " << k << " has index " << str(got[k]) << " instead of " << str(want[k]));
  }
  CHECK_IEQ(got.size(), want.size());
}

// Callables that record their calls, and whether they are copied or moved.
struct Life {
  int copies = 0, moves = 0;
  std::vector<Idx> log;
  Life() {}
  Life(const Life& r) { r.bump(); }
  Life(Life&& r) : log(std::move(r.log)) { r.moves++; }
  void bump() const { const_cast<Life*>(this)->copies++; }
  void same(const std::vector<Idx>& want) {
    CHECK_M(copies == 0, "the callable of the caller is copied");
    CHECK_M(moves == 0, "the callable of the caller is moved from");
    compare(log, want);
  }
};
template <size_t R>
struct TupleFn : Life {
  void operator()(const nda::index_of_rank<R>& i) { log.push_back(from_index(i)); }
};
struct ListFn : Life {
  template <class... T>
  void operator()(T... i) {
    log.push_back(Idx{(i64)i...});
  }
};
// Cannot be copied or moved.
template <size_t R>
struct PinnedTupleFn {
  std::vector<Idx> log;
  PinnedTupleFn() {}
  PinnedTupleFn(const PinnedTupleFn&) = delete;
  void operator()(const nda::index_of_rank<R>& i) { log.push_back(from_index(i)); }
};
struct PinnedListFn {
  std::vector<Idx> log;
  PinnedListFn() {}
  PinnedListFn(const PinnedListFn&) = delete;
  template <class... T>
  void operator()(T... i) {
    log.push_back(Idx{(i64)i...});
  }
};
// A temporary that can only be moved.
template <size_t R>
struct MoveOnlyFn {
  std::unique_ptr<int> p;
  std::vector<Idx>* log;
  void operator()(const nda::index_of_rank<R>& i) {
    CHECK(p && *p == 5);
    log->push_back(from_index(i));
  }
};

static std::vector<Idx>* g_log;
template <size_t R>
static void free_fn(const nda::index_of_rank<R>& i) {
  g_log->push_back(from_index(i));
}

// One call in one of the forms.
template <size_t... Order, class S>
static void run_forms(Src& s, const S& shp, const std::vector<Idx>& want) {
  constexpr size_t R = sizeof...(Order) ? sizeof...(Order) : S::rank();
  std::vector<Idx> log;
  switch (s.pick(8)) {
  case 0: {
    nda::for_each_index<Order...>(shp, [&](const nda::index_of_rank<R>& i) { log.push_back(from_index(i)); });
    return compare(log, want);
  }
  case 1: {
    nda::for_all_indices<Order...>(shp, [&](auto... i) { log.push_back(Idx{(i64)i...}); });
    return compare(log, want);
  }
  case 2: {
    TupleFn<R> f;
    nda::for_each_index<Order...>(shp, f);
    return f.same(want);
  }
  case 3: {
    ListFn f;
    nda::for_all_indices<Order...>(shp, f);
    return f.same(want);
  }
  case 4: {
    PinnedTupleFn<R> f;
    nda::for_each_index<Order...>(shp, f);
    return compare(f.log, want);
  }
  case 5: {
    PinnedListFn f;
    nda::for_all_indices<Order...>(shp, f);
    return compare(f.log, want);
  }
  case 6: {
    nda::for_each_index<Order...>(shp, MoveOnlyFn<R>{std::unique_ptr<int>(new int(5)), &log});
    return compare(log, want);
  }
  default: {
    g_log = &log;
    nda::for_each_index<Order...>(shp, free_fn<R>);
    return compare(log, want);
  }
  }
}

template <class Shape>
static MS gen_case(Src& s, Ctx& c, i64 max_size = 400) {
  GenOpts o;
  o.max_size = max_size;
  o.huge = true;
  o.overlap = s.chance(1, 4);
  o.unresolved = s.chance(1, 4);
  MS m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  int big = 0;
  for (const MD& d : m) big += d.ext > 1;
  c.nontrivial = big >= 2 && !nd::empty(m);
  c.cls(nd::empty(m), "empty");
  c.cls(big >= 3, "three or more dimensions with extent > 1");
  return m;
}

#if PART == 0
PROP_T(natural, 1.0, shapes_low) {
  MS m = gen_case<Shape>(s, c);
  run_forms(s, make<Shape>(m), nest(m, natural_order<Shape>::get()));
}
#endif
#if PART == 1
PROP_T(natural_high, 1.0, shapes_high) {
  MS m = gen_case<Shape>(s, c);
  run_forms(s, make<Shape>(m), nest(m, natural_order<Shape>::get()));
}
// The helpers of shape_traits.
PROP(in_order, 0.3) {
  using S = any_shape<3>;
  MS m = gen_case<S>(s, c);
  TupleFn<3> f;
  nda::for_each_index_in_order(make<S>(m), f);
  f.same(nest(m, {0, 1, 2}));
}
PROP(matrix_index, 0.3) {
  using S = any_shape<2>;
  MS m = gen_case<S>(s, c);
  TupleFn<2> f;
  nda::for_each_matrix_index(make<S>(m), f);
  f.same(nest(m, {1, 0}));
}
PROP(image_index, 0.3) {
  using S = any_shape<3>;
  MS m = gen_case<S>(s, c);
  TupleFn<3> f;
  nda::for_each_image_index(make<S>(m), f);
  f.same(nest(m, {2, 0, 1}));
}
// Shapes with traits of the user.
template <class Shape>
static void custom_case(Src& s, Ctx& c) {
  MS m = gen_case<Shape>(s, c);
  const std::vector<Idx> want = nest(m, natural_order<Shape>::get());
  if (s.chance(1, 2)) return run_forms(s, make<Shape>(m), want);
  // The values, in the order of the traits.
  c.cls(true, "values");
  for (MD& d : m) {
    if (d.str == UNRES) return;
  }
  Buffer<int> b(m, 0);
  std::vector<const int*> at, got;
  for (const Idx& i : want) at.push_back(b.base + offset_of(m, i));
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  nda::const_array_ref<int, Shape> cref = ref;
  switch (s.pick(3)) {
  case 0: ref.for_each_value([&](int& v) { got.push_back(&v); }); break;
  case 1: cref.for_each_value([&](const int& v) { got.push_back(&v); }); break;
  default: {
    nda::array<int, Shape> a(make<Shape>(m), 3);
    at.clear();
    for (const Idx& i : want) at.push_back(&a[index<Shape::rank()>(i)]);
    if (s.chance(1, 2)) {
      a.for_each_value([&](int& v) { got.push_back(&v); });
    } else {
      const auto& ca = a;
      ca.for_each_value([&](const int& v) { got.push_back(&v); });
    }
  }
  }
  CHECK_IEQ(got.size(), at.size());
  for (size_t k = 0; k < at.size(); k++) CHECK_M(got[k] == at[k], "call " << k << " is not for the element " << str(want[k]));
}
PROP(custom_traits, 0.5) {
  if (s.chance(1, 2)) {
    custom_case<custom2>(s, c);
  } else {
    custom_case<custom3>(s, c);
  }
}
// The shape of an array, and its dims iterated one by one.
PROP_T(of_array, 0.5, shapes_low) {
  MS m = gen<Shape>(s, GenOpts());
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  nda::array<char, Shape> a(make<Shape>(m));
  run_forms(s, a.shape(), nest(m, natural_order<Shape>::get()));
}
#endif

template <class Shape, size_t... Order>
struct ordered {
  static void run(Src& s, Ctx& c) {
    NOTE(c, "type " << type_name<Shape>());
    std::ostringstream os;
    for (size_t d : std::vector<size_t>{Order...}) os << d << " ";
    NOTE(c, "loop order (innermost first) " << os.str());
    MS m = gen_case<Shape>(s, c);
    run_forms<Order...>(s, make<Shape>(m), nest(m, {Order...}));
  }
};
struct fixed4 {
  using type = shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>;
};
using plain2 = any_shape<2>;
using plain3 = any_shape<3>;
using plain4 = any_shape<4>;
using plain5 = any_shape<5>;
using plain6 = any_shape<6>;

#if PART == 2
PROP(order_1_2, 0.4) {
  switch (s.pick(9)) {
  case 0: return ordered<plain2, 0, 1>::run(s, c);
  case 1: return ordered<plain2, 1, 0>::run(s, c);
  case 2: return ordered<matrix_shape<>, 0, 1>::run(s, c);
  case 3: return ordered<matrix_shape<>, 1, 0>::run(s, c);
  case 4: return ordered<any_shape<1>, 0>::run(s, c);
  case 5: return ordered<matrix_shape<2, 5>, 0, 1>::run(s, c);
  case 6: return ordered<dense_shape<2>, 1, 0>::run(s, c);
  case 7: return ordered<fixed_dense_shape<3, 4>, 1, 0>::run(s, c);
  default: return ordered<vector_shape<4>, 0>::run(s, c);
  }
}
PROP(order_3, 0.8) {
  switch (s.pick(11)) {
  case 0: return ordered<plain3, 0, 1, 2>::run(s, c);
  case 1: return ordered<plain3, 0, 2, 1>::run(s, c);
  case 2: return ordered<plain3, 1, 0, 2>::run(s, c);
  case 3: return ordered<plain3, 1, 2, 0>::run(s, c);
  case 4: return ordered<plain3, 2, 0, 1>::run(s, c);
  case 5: return ordered<plain3, 2, 1, 0>::run(s, c);
  case 6: return ordered<chunky_image_shape<3>, 0, 1, 2>::run(s, c);
  case 7: return ordered<chunky_image_shape<>, 1, 0, 2>::run(s, c);
  case 8: return ordered<planar_image_shape, 2, 0, 1>::run(s, c);
  case 9: return ordered<chunky_image_shape<3, 4>, 2, 0, 1>::run(s, c);
  default: return ordered<planar_image_shape, 1, 2, 0>::run(s, c);
  }
}
// Only some of the dims.
PROP(partial_order, 0.3) {
  switch (s.pick(6)) {
  case 0: return ordered<plain3, 0>::run(s, c);
  case 1: return ordered<plain3, 2, 1>::run(s, c);
  case 2: return ordered<plain3, 1, 0>::run(s, c);
  case 3: return ordered<plain4, 3, 0>::run(s, c);
  case 4: return ordered<plain4, 1, 3, 2>::run(s, c);
  default: return ordered<planar_image_shape, 1>::run(s, c);
  }
}
#endif
#if PART == 3
PROP(order_4, 0.8) {
  switch (s.pick(10)) {
  case 0: return ordered<plain4, 0, 1, 2, 3>::run(s, c);
  case 1: return ordered<plain4, 3, 2, 1, 0>::run(s, c);
  case 2: return ordered<plain4, 1, 2, 3, 0>::run(s, c);
  case 3: return ordered<plain4, 3, 0, 1, 2>::run(s, c);
  case 4: return ordered<plain4, 2, 0, 3, 1>::run(s, c);
  case 5: return ordered<plain4, 1, 0, 3, 2>::run(s, c);
  case 6: return ordered<plain4, 0, 2, 1, 3>::run(s, c);
  case 7: return ordered<plain4, 1, 3, 0, 2>::run(s, c);
  case 8: return ordered<fixed4::type, 2, 3, 1, 0>::run(s, c);
  default: return ordered<fixed4::type, 3, 1, 0, 2>::run(s, c);
  }
}
#endif
#if PART == 4
PROP(order_5_6, 0.8) {
  switch (s.pick(10)) {
  case 7: return ordered<any_shape<8>, 5, 2, 7, 0, 4, 1, 6, 3>::run(s, c);
  case 8: return ordered<any_shape<7>, 6, 5, 0, 3>::run(s, c);
  case 0: return ordered<plain5, 4, 3, 2, 1, 0>::run(s, c);
  case 1: return ordered<plain5, 1, 2, 3, 4, 0>::run(s, c);
  case 2: return ordered<plain5, 2, 0, 4, 1, 3>::run(s, c);
  case 3: return ordered<plain5, 0, 3, 1, 4, 2>::run(s, c);
  case 4: return ordered<plain6, 5, 4, 3, 2, 1, 0>::run(s, c);
  case 5: return ordered<plain6, 3, 0, 5, 1, 4, 2>::run(s, c);
  case 6: return ordered<plain6, 1, 0, 3, 2, 5, 4>::run(s, c);
  default: return ordered<plain6, 2, 4, 0, 5, 3, 1>::run(s, c);
  }
}
#endif
