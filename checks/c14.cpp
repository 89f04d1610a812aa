// C14: reinterpreting views address the same elements under the new description.
#include "hist.h"
#include "shapes.h"
using namespace nd;

template <size_t... I>
using P = std::index_sequence<I...>;

// Makes an array of the model in guarded memory, with distinct elements.
struct Mem : Buffer<int> {
  MS m;
  std::vector<int> before;
  Mem(const MS& m) : Buffer<int>(m, 0), m(m) {
    for (size_t i = 0; i < mem.size(); i++) mem[i] = 100 + (int)i;
    before = mem;
  }
  int* at(const Idx& i) { return base + offset_of(m, i); }
  void unchanged() { CHECK_M(mem == before, "making a view changes memory"); }
};

template <size_t... I>
static std::vector<size_t> list(P<I...>) {
  return {I...};
}

template <class Shape, class Order, size_t... All>
struct transposed;
template <class Shape, size_t... I, size_t... Rest>
struct transposed<Shape, P<I...>, Rest...> {
  template <size_t... R>
  static shape<dim_t<Shape, I>..., dim_t<Shape, sizeof...(I) + R>...> get(P<R...>);
  using type = decltype(get(std::make_index_sequence<Shape::rank() - sizeof...(I)>()));
};
template <class Shape, class Order>
struct reordered;
template <class Shape, size_t... I>
struct reordered<Shape, P<I...>> {
  using type = shape<dim_t<Shape, I>...>;
};

template <class Shape>
static bool gen_any(Src& s, Ctx& c, MS& m, bool overlap) {
  GenOpts o;
  o.overlap = overlap;
  o.huge = true;
  o.max_ext = 6;
  o.max_size = 150;
  m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  c.cls(nd::empty(m), "empty");
  return true;
}

static std::string text(const std::vector<size_t>& p) {
  std::string r = "<";
  for (size_t i : p) r += (r.size() > 1 ? "," : "") + std::to_string(i);
  return r + ">";
}

// ---- shapes
template <class Shape, size_t... I>
static void transpose_shape(Src& s, Ctx& c, P<I...>) {
  std::vector<size_t> p = {I...};
  NOTE(c, "transpose" << text(p));
  MS m;
  GenOpts o;
  o.unresolved = s.chance(1, 5);
  o.overlap = true;
  o.huge = true;
  m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  Shape shp = make<Shape>(m);
  auto t = nda::transpose<I...>(shp);
  static_assert(std::is_same<decltype(t), typename transposed<Shape, P<I...>>::type>::value, "the type of the transposed shape is wrong");
  MS e = m;
  for (size_t i = 0; i < p.size(); i++) e[i] = m[p[i]];
  c.nontrivial = !(e == m);
  CHECK_M(model(t) == e, "the transposed shape is " << str(model(t)) << " instead of " << str(e));
  CHECK(model(shp) == m);
}
template <class Shape, size_t... I>
static void reorder_shape(Src& s, Ctx& c, P<I...>) {
  std::vector<size_t> p = {I...};
  NOTE(c, "reorder" << text(p));
  GenOpts o;
  o.unresolved = s.chance(1, 5);
  o.overlap = true;
  o.huge = true;
  MS m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  Shape shp = make<Shape>(m);
  auto t = nda::reorder<I...>(shp);
  static_assert(std::is_same<decltype(t), typename reordered<Shape, P<I...>>::type>::value, "the type of the reordered shape is wrong");
  MS e;
  for (size_t i : p) e.push_back(m[i]);
  c.nontrivial = !(e == m);
  CHECK_M(model(t) == e, "the reordered shape is " << str(model(t)) << " instead of " << str(e));
}

// ---- views
template <class View, class Elem_>
static void check_view(const View& v, Mem& a, const std::vector<size_t>& p, bool same_rank) {
  using VS = std::remove_cv_t<std::remove_reference_t<decltype(v.shape())>>;
  static_assert(std::is_same<typename View::value_type, Elem_>::value || std::is_same<std::remove_pointer_t<decltype(v.base())>, Elem_>::value,
      "the element type of the view is wrong");
  constexpr size_t R = VS::rank();
  MS e;
  for (size_t i : p) e.push_back(a.m[i]);
  CHECK_M(model(v.shape()) == e, "the view has shape " << str(model(v.shape())) << " instead of " << str(e));
  CHECK_M((const int*)v.base() == a.base, "the base of the view is moved");
  Idx i(a.m.size());
  for (size_t d = 0; d < i.size(); d++) i[d] = a.m[d].min;
  if (nd::empty(a.m)) return;
  for_each(e, [&](const Idx& j) {
    for (size_t d = 0; d < p.size(); d++) i[p[d]] = j[d];
    const Elem_& x = v[index<R>(j)];
    CHECK_M(&x == a.at(i), "element " << str(j) << " of the view is at " << (&x - a.base) << " instead of " << offset_of(a.m, i));
  });
  (void)same_rank;
}

template <class Shape, size_t... I>
static void transpose_view(Src& s, Ctx& c, P<I...>) {
  std::vector<size_t> p = {I...};
  NOTE(c, "transpose" << text(p));
  MS m;
  if (!gen_any<Shape>(s, c, m, true)) return;
  Mem a(m);
  nda::array_ref<int, Shape> r(a.base, make<Shape>(m));
  switch (s.pick(2)) {
  case 0: {
    auto v = nda::transpose<I...>(r);
    check_view<decltype(v), int>(v, a, p, true);
    break;
  }
  default: {
    auto v = nda::transpose<I...>(nda::const_array_ref<int, Shape>(r));
    check_view<decltype(v), const int>(v, a, p, true);
  }
  }
  a.unchanged();
}
template <class Shape, size_t... I>
static void reorder_view(Src& s, Ctx& c, P<I...>) {
  std::vector<size_t> p = {I...};
  NOTE(c, "reorder" << text(p));
  MS m;
  if (!gen_any<Shape>(s, c, m, true)) return;
  MS e;
  for (size_t i : p) e.push_back(m[i]);
  // There is no view of elements of an empty array.
  if (nd::empty(m) && !nd::empty(e)) return;
  Mem a(m);
  nda::array_ref<int, Shape> r(a.base, make<Shape>(m));
  switch (s.pick(2)) {
  case 0: {
    auto v = nda::reorder<I...>(r);
    check_view<decltype(v), int>(v, a, p, false);
    break;
  }
  default: {
    auto v = nda::reorder<I...>(nda::const_array_ref<int, Shape>(r));
    check_view<decltype(v), const int>(v, a, p, false);
  }
  }
  a.unchanged();
}
// Owning arrays.
template <class Shape, bool Transpose, size_t... I>
static void array_view(Src& s, Ctx& c, P<I...>) {
  std::vector<size_t> p = {I...};
  NOTE(c, (Transpose ? "transpose" : "reorder") << text(p) << " of an array");
  MS m;
  GenOpts o;
  o.max_ext = 6;
  o.max_size = 150;
  m = gen<Shape>(s, o);
  if (!injective(m)) return;
  NOTE(c, "shape " << str(m));
  MS e;
  for (size_t i : p) e.push_back(m[i]);
  if (nd::empty(m) && !nd::empty(e)) return;
  c.nontrivial = size_of(m) > 1;
  nda::array<int, Shape> a(make<Shape>(m), 3);
  const nda::array<int, Shape>& ca = a;
  constexpr size_t R = sizeof...(I);
  constexpr size_t RA = Shape::rank();
  Idx i(m.size());
  for (size_t d = 0; d < i.size(); d++) i[d] = m[d].min;
  auto check = [&](const auto& v) {
    CHECK_M(model(v.shape()) == e, "the view has shape " << str(model(v.shape())) << " instead of " << str(e));
    CHECK(v.base() == a.base());
    if (nd::empty(m)) return;
    for_each(e, [&](const Idx& j) {
      for (size_t d = 0; d < p.size(); d++) i[p[d]] = j[d];
      const int* x = &v[index<R>(j)];
      CHECK_M(x == &a[index<RA>(i)], "element " << str(j) << " of the view is " << str(j));
    });
  };
  if constexpr (Transpose) {
    auto v = nda::transpose<I...>(a);
    auto w = nda::transpose<I...>(ca);
    static_assert(std::is_same<decltype(v.base()), int*>::value, "a view of an array must be mutable");
    static_assert(std::is_same<decltype(w.base()), const int*>::value, "a view of a const array must be const");
    check(v);
    check(w);
  } else {
    auto v = nda::reorder<I...>(a);
    auto w = nda::reorder<I...>(ca);
    static_assert(std::is_same<decltype(v.base()), int*>::value, "a view of an array must be mutable");
    static_assert(std::is_same<decltype(w.base()), const int*>::value, "a view of a const array must be const");
    check(v);
    check(w);
  }
}

// Dispatch over permutations.
template <class... Ps>
struct perms {
  static constexpr size_t size = sizeof...(Ps);
};
template <class Fn>
static void pick_perm(size_t, Fn&&, perms<>) {}
template <class P0, class... Ps, class Fn>
static void pick_perm(size_t i, Fn&& fn, perms<P0, Ps...>) {
  if (i == 0) fn(P0());
  else pick_perm(i - 1, fn, perms<Ps...>());
}

using t1 = perms<P<0>>;
using t2 = perms<P<1, 0>, P<0, 1>>;
using t3 = perms<P<1, 0, 2>, P<2, 1, 0>, P<0, 2, 1>, P<1, 2, 0>, P<2, 0, 1>, P<0, 1, 2>>;
using t4 = perms<P<3, 2, 1, 0>, P<1, 0, 3, 2>, P<1, 2, 3, 0>, P<3, 0, 1, 2>, P<0, 3, 1, 2>, P<2, 0, 3, 1>>;
using part3 = perms<P<1, 0>, P<0>, P<>>;
using part4 = perms<P<1, 2, 0>, P<1, 0>, P<2, 0, 1>>;
using part5 = perms<P<1, 0>, P<4, 2, 0, 3, 1>, P<2, 0, 1>, P<1, 2, 3, 0>>;
using r2 = perms<P<1>, P<0>, P<>, P<1, 0>>;
using r3 = perms<P<2, 0>, P<1>, P<1, 2>, P<2, 1, 0>, P<0, 2>, P<2>, P<>>;
using r4 = perms<P<3, 1>, P<2>, P<1, 3, 0>, P<3, 2, 1, 0>, P<0, 2>>;

template <size_t R>
struct all_perms;
template <>
struct all_perms<1> {
  using full = t1;
  using part = perms<P<0>, P<>>;
  using some = perms<P<0>, P<>>;
};
template <>
struct all_perms<2> {
  using full = t2;
  using part = perms<P<1, 0>, P<0>>;
  using some = r2;
};
template <>
struct all_perms<3> {
  using full = t3;
  using part = part3;
  using some = r3;
};
template <>
struct all_perms<4> {
  using full = t4;
  using part = part4;
  using some = r4;
};
template <>
struct all_perms<5> {
  using full = perms<P<4, 2, 0, 3, 1>, P<1, 2, 3, 4, 0>>;
  using part = part5;
  using some = perms<P<4, 1>, P<3, 0, 2>, P<1, 4, 0, 2, 3>>;
};
#define PICK(list, fn)                                                                                                  \
  {                                                                                                                     \
    using L = typename all_perms<Shape::rank()>::list;                                                                  \
    pick_perm(s.pick(L::size), [&](auto p) { fn(s, c, p); }, L());                                                      \
  }

using mixed_shapes = types<any_shape<2>, any_shape<3>, shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>, shape<dim<dynamic, dynamic, 3>, dim<>, dim<0, 3, 1>>,
    shape<dim<-2, dynamic, -1>>, shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>, any_shape<5>>;
using view_shapes = types<any_shape<1>, any_shape<2>, any_shape<3>, shape<dim<dynamic, dynamic, 3>, dim<>, dim<0, 3, 1>>, any_shape<4>, any_shape<5>,
    shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>>;

#if PART == 0
PROP_T(transpose_shapes, 1.0, mixed_shapes) PICK(full, transpose_shape<Shape>)
PROP_T(transpose_leading_dims, 0.6, mixed_shapes) PICK(part, transpose_shape<Shape>)
PROP_T(reorder_shapes, 0.8, mixed_shapes) PICK(some, reorder_shape<Shape>)
#endif
#if PART == 1
PROP_T(transpose_views, 1.0, view_shapes) PICK(full, transpose_view<Shape>)
PROP_T(reorder_views, 1.0, view_shapes) PICK(some, reorder_view<Shape>)
#endif
#if PART == 2
using array_shapes = types<any_shape<1>, dense_shape<2>, any_shape<3>, chunky_image_shape<3>, shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>>;
PROP_T(transpose_arrays, 0.8, array_shapes) {
  using L = typename all_perms<Shape::rank()>::full;
  pick_perm(s.pick(L::size), [&](auto p) { array_view<Shape, true>(s, c, p); }, L());
}
PROP_T(reorder_arrays, 0.8, array_shapes) {
  using L = typename all_perms<Shape::rank()>::some;
  pick_perm(s.pick(L::size), [&](auto p) { array_view<Shape, false>(s, c, p); }, L());
}
#endif

#if PART == 3
// ---- reinterpret, reinterpret_const
struct Pod {
  unsigned char b[4];
};
template <class View, class U>
static void same_elements(const View& v, Mem& a) {
  static_assert(std::is_same<decltype(v.base()), U*>::value, "the type of the elements is wrong");
  CHECK_M(model(v.shape()) == a.m, "the shape changes to " << str(model(v.shape())));
  CHECK((const void*)v.base() == (const void*)a.base);
  constexpr size_t R = View::rank();
  for_each(a.m, [&](const Idx& i) {
    U& x = v[index<R>(i)];
    CHECK_M((const void*)&x == (const void*)a.at(i), "element " << str(i) << " is not at its address");
    CHECK(memcmp(&x, a.at(i), 4) == 0);
  });
  a.unchanged();
}
PROP_T(reinterpret_elements, 1.0, shapes_low) {
  MS m;
  if (!gen_any<Shape>(s, c, m, true)) return;
  Mem a(m);
  nda::array_ref<int, Shape> r(a.base, make<Shape>(m));
  nda::const_array_ref<int, Shape> cr(r);
  switch (s.pick(6)) {
  case 0: return same_elements<nda::array_ref<unsigned, Shape>, unsigned>(nda::reinterpret<unsigned>(r), a);
  case 1: return same_elements<nda::array_ref<float, Shape>, float>(nda::reinterpret<float>(r), a);
  case 2: return same_elements<nda::array_ref<Pod, Shape>, Pod>(nda::reinterpret<Pod>(r), a);
  case 3: return same_elements<nda::array_ref<const unsigned, Shape>, const unsigned>(nda::reinterpret<const unsigned>(cr), a);
  case 4: return same_elements<nda::array_ref<int, Shape>, int>(nda::reinterpret_const<int>(cr), a);
  default: {
    nda::array_ref<int, Shape> w = nda::reinterpret_const<int>(cr);
    if (!injective(m)) return;
    int k = 0;
    for_each(m, [&](const Idx& i) { w[index<Shape::rank()>(i)] = k++; });
    k = 0;
    for_each(m, [&](const Idx& i) { CHECK(*a.at(i) == k++); });
  }
  }
}
PROP_T(reinterpret_arrays, 0.6, shapes_low) {
  GenOpts o;
  MS m = gen<Shape>(s, o);
  if (!injective(m)) return;
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  nda::array<int, Shape> a(make<Shape>(m), 5);
  const nda::array<int, Shape>& ca = a;
  auto v = nda::reinterpret<unsigned>(a);
  auto w = nda::reinterpret<unsigned>(ca);
  static_assert(std::is_same<decltype(v), nda::array_ref<unsigned, Shape>>::value, "wrong type");
  static_assert(std::is_same<decltype(w), nda::const_array_ref<unsigned, Shape>>::value, "the reinterpretation of a const array must be const");
  CHECK((const void*)v.base() == (const void*)a.base() && (const void*)w.base() == (const void*)a.base());
  CHECK(model(v.shape()) == m && model(w.shape()) == m);
  unsigned k = 0x80000000u;
  for_each(m, [&](const Idx& i) { v[index<Shape::rank()>(i)] = k++; });
  k = 0x80000000u;
  for_each(m, [&](const Idx& i) {
    CHECK((unsigned)a[index<Shape::rank()>(i)] == k);
    CHECK(w[index<Shape::rank()>(i)] == k);
    k++;
  });
}
#endif

#if PART == 4
// ---- convert_shape of views, of the same and of different rank
template <class From, class To>
struct conv {
  using from = From;
  using to = To;
};
template <class From, class To>
static void convert(Src& s, Ctx& c) {
  NOTE(c, type_name<From>() << " to " << type_name<To>());
  constexpr size_t RF = From::rank(), RT = To::rank();
  std::vector<SD> fd = statics<From>(), td = statics<To>();
  // The static parameters of both.
  std::vector<SD> both = fd;
  for (size_t d = 0; d < RF; d++) {
    if (d < RT) {
      if (td[d].smin && !fd[d].smin) both[d].smin = true, both[d].min = td[d].min;
      if (td[d].sext && !fd[d].sext) both[d].sext = true, both[d].ext = td[d].ext;
      if (td[d].sstr && !fd[d].sstr) both[d].sstr = true, both[d].str = td[d].str;
    } else {
      // Sliced: must have extent 1.
      if (!fd[d].sext) both[d].sext = true, both[d].ext = 1;
    }
  }
  GenOpts o;
  o.overlap = true;
  o.huge = true;
  o.max_size = 200;
  MS m = gen(s, both, o);
  NOTE(c, "shape " << str(m));
  MS e = m;
  e.resize(RT);
  for (size_t d = RF; d < RT; d++) {
    e[d].min = td[d].smin ? td[d].min : 0;
    e[d].ext = 1;
    e[d].str = td[d].sstr ? td[d].str : UNRES;
  }
  Mem a(m);
  nda::array_ref<int, From> r(a.base, make<From>(m));
  auto check = [&](const auto& v) {
    CHECK_M(model(v.shape()) == e, "the converted shape is " << str(model(v.shape())) << " instead of " << str(e));
    CHECK(v.base() == a.base);
    for_each(e, [&](const Idx& j) {
      Idx i = j;
      i.resize(RF);
      for (size_t d = RT; d < RF; d++) i[d] = m[d].min;
      const int* x = &v[index<RT>(j)];
      CHECK_M(x == a.at(i), "element " << str(j) << " is at another address");
    });
    a.unchanged();
  };
  c.nontrivial = size_of(m) > 1;
  c.cls(RF > RT, "dims are dropped");
  c.cls(RF < RT, "dims are added");
  auto v = nda::convert_shape<To>(r);
  static_assert(std::is_same<decltype(v), nda::array_ref<int, To>>::value, "wrong type");
  check(v);
  auto w = nda::convert_shape<To>(nda::const_array_ref<int, From>(r));
  static_assert(std::is_same<decltype(w), nda::const_array_ref<int, To>>::value, "wrong type");
  check(w);
  // Just the shape.
  To t = nda::convert_shape<To>(make<From>(m));
  CHECK(model(t) == e);
  if (injective(m)) {
    nda::array<int, From> arr(make<From>(m), 1);
    const nda::array<int, From>& carr = arr;
    auto x = nda::convert_shape<To>(arr);
    auto y = nda::convert_shape<To>(carr);
    static_assert(std::is_same<decltype(x), nda::array_ref<int, To>>::value, "wrong type");
    static_assert(std::is_same<decltype(y), nda::const_array_ref<int, To>>::value, "the conversion of a const array must be const");
    CHECK(model(x.shape()) == e && model(y.shape()) == e);
    CHECK(x.base() == arr.base() && y.base() == arr.base());
  }
}
template <class... C>
struct convs {
  static constexpr size_t size = sizeof...(C);
};
template <class... C>
static void pick_conv(size_t i, Src& s, Ctx& c, convs<C...>) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {&convert<typename C::from, typename C::to>...};
  fns[i](s, c);
}
using conv_list = convs<conv<any_shape<2>, dense_shape<2>>, conv<dense_shape<2>, any_shape<2>>, conv<any_shape<3>, chunky_image_shape<3>>,
    conv<any_shape<3>, planar_image_shape>, conv<chunky_image_shape<3, 4>, any_shape<3>>, conv<any_shape<1>, any_shape<2>>, conv<any_shape<1>, shape<dim<>, dim<>, dim<2, 1, 7>>>,
    conv<any_shape<2>, any_shape<1>>, conv<any_shape<3>, dense_shape<1>>, conv<any_shape<3>, shape<>>, conv<shape<>, any_shape<2>>,
    conv<any_shape<2>, shape<dim<-1, dynamic, dynamic>, dim<dynamic, 3, dynamic>>>, conv<shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>, any_shape<2>>,
    conv<any_shape<2>, matrix_shape<2, 5>>, conv<matrix_shape<2, 5>, any_shape<3>>, conv<any_shape<4>, shape<dim<>, dim<>, fixed_dim<2>, dim<>>>,
    conv<any_shape<4>, matrix_shape<>>, conv<any_shape<1>, any_shape<5>>, conv<any_shape<5>, any_shape<2>>, conv<shape<dim<dynamic, dynamic, -3>>, any_shape<2>>>;
PROP(convert_shapes, 1.5) { pick_conv(s.pick(conv_list::size), s, c, conv_list()); }
#endif

#if PART == 5
// ---- new shapes of views, with an offset
// A shape whose offsets are, with the returned offset, inside those of `m`.
template <class NewShape>
static bool gen_inside(Src& s, Ctx& c, const MS& m, MS& n, i64& offset, bool unresolved) {
  const i64 lo = nd::empty(m) ? 0 : flat_min(m), hi = nd::empty(m) ? -1 : flat_max(m);
  GenOpts o;
  o.max_size = std::max<i64>(1, hi - lo + 1);
  o.max_ext = o.max_size;
  o.overlap = s.chance(1, 3);
  n = gen<NewShape>(s, o);
  MS f = n;
  if (unresolved && s.chance(1, 3)) {
    std::vector<SD> sd = statics<NewShape>();
    for (size_t d = 0; d < n.size(); d++) {
      if (!sd[d].sstr) n[d].str = UNRES;
    }
    f = resolved(n);
    if (!nd::empty(f) && flat_max(f) - flat_min(f) + 1 > o.max_size) return false;
  }
  if (nd::empty(f)) {
    offset = lo + (hi >= lo ? s.range(0, hi - lo + 1) : 0);
    return true;
  }
  if (nd::empty(m)) return false;
  i64 room = (hi - lo) - (flat_max(f) - flat_min(f));
  if (room < 0) return false;
  // flat_min(f) + offset is in [lo, lo + room]
  i64 k = s.pick(2) ? s.range(0, room) : (s.pick(2) ? room : 0);
  offset = lo + k - flat_min(f);
  (void)c;
  return true;
}

template <class Old, class New>
static void reshape_view(Src& s, Ctx& c) {
  NOTE(c, type_name<Old>() << " to " << type_name<New>());
  MS m;
  if (!gen_any<Old>(s, c, m, true)) return;
  MS n;
  i64 offset;
  if (!gen_inside<New>(s, c, m, n, offset, true)) return;
  NOTE(c, "new shape " << str(n) << " offset " << offset);
  Mem a(m);
  MS f = resolved(n);
  c.nontrivial = size_of(f) > 1;
  c.cls(offset != 0, "with an offset");
  c.cls(offset < 0, "with a negative offset");
  nda::array_ref<int, Old> r(a.base, make<Old>(m));
  New shp = make<New>(n);
  auto check = [&](const auto& v) {
    CHECK_M(model(v.shape()) == f, "the view has shape " << str(model(v.shape())) << " instead of " << str(f));
    CHECK_M(v.base() == a.base + offset, "the base is " << (v.base() - a.base) << " instead of " << offset);
    constexpr size_t R = New::rank();
    for_each(f, [&](const Idx& i) {
      const int* x = &v[index<R>(i)];
      CHECK_M(x == a.base + offset + offset_of(f, i), "element " << str(i) << " is at " << x - a.base);
    });
  };
  auto v = offset == 0 && s.chance(1, 2) ? nda::reinterpret_shape(r, shp) : nda::reinterpret_shape(r, shp, offset);
  static_assert(std::is_same<decltype(v), nda::array_ref<int, New>>::value, "wrong type");
  check(v);
  auto w = nda::reinterpret_shape(nda::const_array_ref<int, Old>(r), shp, offset);
  static_assert(std::is_same<decltype(w), nda::const_array_ref<int, New>>::value, "wrong type");
  check(w);
  CHECK(r.base() == a.base && model(r.shape()) == m);
  a.unchanged();
  // Of arrays.
  if (injective(m) && !nd::empty(m)) {
    nda::array<int, Old> arr(make<Old>(m), 0);
    const nda::array<int, Old>& carr = arr;
    auto check_of = [&](const auto& v) {
      CHECK_M(model(v.shape()) == f, "the view of the array has shape " << str(model(v.shape())) << " instead of " << str(f));
      CHECK_M(v.base() == arr.base() + offset, "the base of the view of the array is " << (v.base() - arr.base()) << " instead of " << offset);
    };
    auto va = offset == 0 && s.chance(1, 2) ? nda::reinterpret_shape(arr, shp) : nda::reinterpret_shape(arr, shp, offset);
    auto vc = offset == 0 && s.chance(1, 2) ? nda::reinterpret_shape(carr, shp) : nda::reinterpret_shape(carr, shp, offset);
    static_assert(std::is_same<decltype(va), nda::array_ref<int, New>>::value, "wrong type");
    static_assert(std::is_same<decltype(vc), nda::const_array_ref<int, New>>::value, "wrong type");
    check_of(va);
    check_of(vc);
  }
  // Back again.
  if (!nd::empty(f) && flat_max(f) - flat_min(f) == flat_max(m) - flat_min(m)) {
    auto b = nda::reinterpret_shape(v, make<Old>(m), -offset);
    CHECK(b.base() == a.base);
    c.cls("and back");
  }
}
using view_fns = void (*)(Src&, Ctx&);
static const view_fns reshape_views[] = {reshape_view<any_shape<1>, any_shape<1>>, reshape_view<any_shape<2>, any_shape<1>>,
    reshape_view<any_shape<1>, any_shape<2>>, reshape_view<any_shape<2>, dense_shape<2>>, reshape_view<any_shape<3>, any_shape<2>>,
    reshape_view<dense_shape<2>, any_shape<4>>, reshape_view<chunky_image_shape<3>, dense_shape<2>>, reshape_view<any_shape<2>, fixed_dense_shape<3, 4>>,
    reshape_view<any_shape<2>, shape<>>, reshape_view<shape<>, any_shape<1>>, reshape_view<shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>, any_shape<2>>,
    reshape_view<any_shape<2>, shape<dim<dynamic, dynamic, -1>>>};
PROP(reinterpret_shape_of_refs, 1.5) { reshape_views[s.pick(sizeof(reshape_views) / sizeof(*reshape_views))](s, c); }

using set_list = types<any_shape<1>, any_shape<2>, any_shape<3>, dense_shape<2>, chunky_image_shape<3>, shape<dim<-2, dynamic, -1>>,
    shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>, any_shape<5>>;
PROP_T(set_shape_of_refs, 1.0, set_list) {
  MS m;
  if (!gen_any<Shape>(s, c, m, true)) return;
  Mem a(m);
  nda::array_ref<int, Shape> r(a.base, make<Shape>(m));
  nda::array_ref<int, Shape> other = r;
  i64 at = 0;
  MS cur = m;
  for (int k = (int)s.range(1, 3); k > 0; k--) {
    MS n;
    i64 offset;
    if (!gen_inside<Shape>(s, c, cur, n, offset, false)) return;
    NOTE(c, "set_shape(" << str(n) << ", " << offset << ")");
    if (offset == 0 && s.chance(1, 2)) r.set_shape(make<Shape>(n));
    else r.set_shape(make<Shape>(n), offset);
    at += offset;
    CHECK_M(model(r.shape()) == n, "the shape is " << str(model(r.shape())));
    CHECK_M(r.base() == a.base + at, "the base is at " << r.base() - a.base << " instead of " << at);
    for_each(n, [&](const Idx& i) {
      const int* x = &r[index<Shape::rank()>(i)];
      CHECK(x == a.base + at + offset_of(n, i));
    });
    c.nontrivial |= size_of(n) > 1;
    cur = n;
  }
  CHECK(other.base() == a.base && model(other.shape()) == m);
  a.unchanged();
}
#endif

#if PART == 6
// ---- owning arrays: the storage stays with the array
using hist::alloc_info;
using hist::TAlloc;
using hist::Traits;
using hist::world;

static bool gen_within(Src& s, const std::vector<SD>& sd, i64 lo, i64 hi, MS& n, i64& offset, bool may_unresolved) {
  GenOpts o;
  o.max_size = std::max<i64>(1, hi - lo + 1);
  o.max_ext = o.max_size;
  n = gen(s, sd, o);
  if (may_unresolved && s.chance(1, 3)) {
    for (size_t d = 0; d < n.size(); d++) {
      if (!sd[d].sstr) n[d].str = UNRES;
    }
  }
  MS f = resolved(n);
  if (!injective(f)) return false;
  if (nd::empty(f)) {
    offset = hi >= lo ? s.range(lo, hi) : 0;
    return true;
  }
  i64 room = (hi - lo) - (flat_max(f) - flat_min(f));
  if (hi < lo || room < 0) return false;
  i64 k = s.pick(2) ? s.range(0, room) : (s.pick(2) ? room : 0);
  offset = lo + k - flat_min(f);
  return true;
}

struct Owned {
  const int* block = nullptr;  // the lowest address
  i64 n = 0;
};
template <class A>
static void owns(const A& a, int id, i64 n) {
  using AI = alloc_info<typename A::allocator_type>;
  if (!AI::tracked) return;
  CHECK(AI::id(a.get_allocator()) == id);
  CHECK_IEQ(world().blocks.size(), n > 0 ? 1 : 0);
  if (n > 0) CHECK((i64)world().blocks.begin()->second.n == n);
}

template <class Shape>
static MS gen_default() {
  return model(nda::array<int, Shape>().shape());
}
template <class Old, class New, class Alloc>
static void owning(Src& s, Ctx& c) {
  NOTE(c, type_name<Old>() << " to " << type_name<New>());
  using AI = alloc_info<Alloc>;
  world().reset();
  std::vector<SD> od = statics<Old>(), nd_ = statics<New>();
  GenOpts o;
  o.max_size = 60;
  MS m = gen(s, od, o);
  if (!injective(m)) return;
  NOTE(c, "shape " << str(m));
  // The allocators must be equal, or propagate.
  const int id = AI::tracked && AI::move ? (int)s.pick(3) : 0;
  const i64 lo = nd::empty(m) ? 0 : flat_min(m), hi = nd::empty(m) ? -1 : flat_max(m);
  {
    nda::array<int, Old, Alloc> a(make<Old>(m), 0, AI::make(id));
    std::map<i64, int> mem;  // by offset from the base of a
    const int* origin = a.base();
    int next = 1;
    auto put = [&](const MS& f, i64 at, auto& x) {
      for_each(f, [&](const Idx& i) {
        x[index<std::remove_reference_t<decltype(x)>::rank()>(i)] = next;
        mem[at + offset_of(f, i)] = next++;
      });
    };
    auto look = [&](const MS& f, i64 at, const auto& x, const char* what) {
      CHECK_M(model(x.shape()) == f, what << ": the shape is " << str(model(x.shape())) << " instead of " << str(f));
      if (nd::empty(f)) return;
      CHECK_M(x.base() == origin + at, what << ": the base is at " << x.base() - origin << " instead of " << at);
      for_each(f, [&](const Idx& i) {
        auto it = mem.find(at + offset_of(f, i));
        int v = x[index<std::remove_reference_t<decltype(x)>::rank()>(i)];
        if (it != mem.end()) CHECK_M(v == it->second, what << ": element " << str(i) << " is " << v << " instead of " << it->second);
      });
    };
    put(m, 0, a);
    i64 at = 0;
    MS cur = m;
    // Other shapes of the same array.
    for (int k = (int)s.range(0, 2); k > 0; k--) {
      MS n;
      i64 offset;
      i64 l = nd::empty(cur) ? 0 : flat_min(cur), h = nd::empty(cur) ? -1 : flat_max(cur);
      if (!gen_within(s, od, l, h, n, offset, false)) break;
      NOTE(c, "set_shape(" << str(n) << ", " << offset << ")");
      if (offset == 0 && s.chance(1, 2)) a.set_shape(make<Old>(n));
      else a.set_shape(make<Old>(n), offset);
      at += offset;
      cur = n;
      look(cur, at, a, "after set_shape");
      owns(a, id, hi - lo + 1);
      c.nontrivial |= size_of(cur) > 1;
      c.cls("set_shape of an array");
    }
    if (s.chance(1, 2)) put(cur, at, a);
    switch (s.pick(4)) {
    case 0: {
      // The array is used as any other.
      NOTE(c, "copied");
      nda::array<int, Old, Alloc> b(a);
      CHECK(model(b.shape()) == cur);
      CHECK(nd::empty(cur) || b.base() != a.base());
      for_each(cur, [&](const Idx& i) { CHECK(b[index<Old::rank()>(i)] == a[index<Old::rank()>(i)]); });
      break;
    }
    case 1: {
      NOTE(c, "moved");
      nda::array<int, Old, Alloc> b(std::move(a));
      if (AI::move || id == 0) look(cur, at, b, "after a move");
      break;
    }
    case 2: {
      MS n = gen(s, od, o);
      if (!injective(n)) break;
      NOTE(c, "assign(" << str(n) << ")");
      a.assign(make<Old>(n), 77);
      CHECK(model(a.shape()) == n);
      for_each(n, [&](const Idx& i) { CHECK(a[index<Old::rank()>(i)] == 77); });
      break;
    }
    default: {
      MS n;
      i64 offset;
      i64 l = nd::empty(cur) ? 0 : flat_min(cur), h = nd::empty(cur) ? -1 : flat_max(cur);
      if (!gen_within(s, nd_, l, h, n, offset, true)) break;
      NOTE(c, "move_reinterpret_shape(" << str(n) << ", " << offset << ")");
      i64 allocations = world().allocations;
      nda::array<int, New, Alloc> b = offset == 0 && s.chance(1, 2) ? nda::move_reinterpret_shape(std::move(a), make<New>(n))
                                                                  : nda::move_reinterpret_shape(std::move(a), make<New>(n), offset);
      (void)allocations;
      MS f = resolved(n);
      look(f, at + offset, b, "after move_reinterpret_shape");
      owns(b, id, hi - lo + 1);
      c.nontrivial |= size_of(f) > 1;
      c.cls("move_reinterpret_shape");
      c.cls(offset != 0, "with an offset");
      // The source is as good as new, unless its shape can not be empty.
      if (nd::empty(gen_default<Old>())) {
        nda::array<int, Old, Alloc> fresh;
        CHECK(a.empty());
        CHECK(model(a.shape()) == model(fresh.shape()));
        CHECK(a == fresh);
        a.assign(make<Old>(m), 5);
        for_each(m, [&](const Idx& i) { CHECK(a[index<Old::rank()>(i)] == 5); });
      }
      put(f, at + offset, b);
      nda::array<int, New, Alloc> b2(b);
      CHECK(model(b2.shape()) == f);
      for_each(f, [&](const Idx& i) { CHECK(b2[index<New::rank()>(i)] == b[index<New::rank()>(i)]); });
      look(f, at + offset, b, "after a copy");
    }
    }
  }
  CHECK_M(world().error.empty(), world().error);
  CHECK_M(world().blocks.empty(), "a block is not released");
}
using TA = TAlloc<int, Traits<0, 0, 0, 0>>;
using TP = TAlloc<int, Traits<1, 1, 1, 0>>;
using fn = void (*)(Src&, Ctx&);
static const fn fns[] = {owning<any_shape<1>, any_shape<2>, TA>, owning<any_shape<2>, any_shape<1>, TP>, owning<any_shape<2>, dense_shape<2>, TA>,
    owning<chunky_image_shape<3>, dense_shape<2>, TP>, owning<dense_shape<1>, fixed_dense_shape<3, 4>, TA>,
    owning<fixed_dense_shape<3, 4>, dense_shape<1>, TA>, owning<fixed_dense_shape<4, 4>, fixed_dense_shape<2, 3>, TP>,
    owning<any_shape<3>, shape<>, TA>, owning<any_shape<2>, any_shape<3>, std::allocator<int>>, owning<any_shape<2>, any_shape<5>, TP>};
PROP(storage, 2.0) { fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c); }

// Conversions to another rank.
PROP(move_convert, 0.6) {
  world().reset();
  GenOpts o;
  o.max_size = 60;
  MS m = gen(s, statics<any_shape<2>>(), o);
  NOTE(c, "shape " << str(m));
  if (!injective(m)) return;
  c.nontrivial = size_of(m) > 1;
  using A2 = nda::array<int, any_shape<2>, TA>;
  using A3 = nda::array<int, any_shape<3>, TA>;
  A2 a(make<any_shape<2>>(m), 9);
  const int* base = a.base();
  A3 b = nda::move_reinterpret_shape<any_shape<3>>(std::move(a));
  CHECK(b.base() == base);
  MS e = model(b.shape());
  CHECK(e[0] == m[0] && e[1] == m[1] && e[2].min == 0 && e[2].ext == 1);
  for_each(e, [&](const Idx& i) { CHECK(&b[index<3>(i)] == base + offset_of(m, {i[0], i[1]}) && b[index<3>(i)] == 9); });
  CHECK(b.shape().is_resolved());
  A3 copy(b);
  CHECK(copy == b);
  A2 d = nda::move_reinterpret_shape<any_shape<2>>(std::move(b));
  CHECK(d.base() == base && model(d.shape()) == m);
  CHECK_M(world().error.empty(), world().error);
}
#endif
