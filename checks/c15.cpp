// C15: static and dynamic shape parameters are interchangeable and checked.
#include "shapes.h"
using namespace nd;

constexpr i64 DYN = nda::dynamic;

// A model value for a pair of dims: satisfies both, where they are static.
static MD gen_for(Src& s, const SD& a, const SD& b) {
  MD m;
  const bool huge = s.chance(1, 10);
  m.min = a.smin ? a.min : b.smin ? b.min : huge ? s.around(i64(1) << (sizeof(nda::index_t) == 8 ? 40 : 28)) : s.around(20);
  m.ext = a.sext ? a.ext : b.sext ? b.ext : huge ? s.range(0, i64(1) << (sizeof(nda::index_t) == 8 ? 40 : 28)) : s.range(0, 20);
  m.str = a.sstr ? a.str : b.sstr ? b.str : s.chance(1, 5) ? UNRES : s.around(30);
  return m;
}

template <class A, class B>
constexpr bool no_conflict() {
  return (A::Min == nda::dynamic || B::Min == nda::dynamic || A::Min == B::Min) &&
         (A::Extent == nda::dynamic || B::Extent == nda::dynamic || A::Extent == B::Extent) &&
         (A::Stride == nda::dynamic || B::Stride == nda::dynamic || A::Stride == B::Stride);
}
template <class A, class B>
constexpr bool no_interval_conflict() {
  return (A::Min == nda::dynamic || B::Min == nda::dynamic || A::Min == B::Min) &&
         (A::Extent == nda::dynamic || B::Extent == nda::dynamic || A::Extent == B::Extent);
}

static std::string show(const SD& d) {
  std::ostringstream os;
  auto p = [&](bool st, i64 v) {
    if (st) os << v;
    else os << "?";
  };
  os << "<";
  p(d.smin, d.min);
  os << ",";
  p(d.sext, d.ext);
  os << ",";
  p(d.sstr, d.str);
  os << ">";
  return os.str();
}

template <class D>
static void has(const D& d, const MD& m, const char* what) {
  MD g = model_dim(d);
  CHECK_M(g == m, what << " is " << g << " instead of " << m);
}

template <class Dst>
static MD expect(MD m) {
  SD b = static_dim<Dst>();
  if (b.sstr) m.str = b.str;
  return m;
}

#if PART <= 1
template <class A, class B, bool Ok>
struct dim_pair {
  static void run(Src& s, Ctx& c) { c.cls("conflicting static parameters"); }
};
template <class A, class B>
struct dim_pair<A, B, true> {
  static void run(Src& s, Ctx& c) {
    SD sa = static_dim<A>(), sb = static_dim<B>();
    MD m = gen_for(s, sa, sb);
    NOTE(c, "dim" << show(sa) << " " << m << " to dim" << show(sb));
    c.nontrivial = true;
    const A a = make_dim<A>(m);
    // A dim with a static stride has that one.
    MD ma = expect<A>(m);
    has(a, ma, "the source");
    MD e = expect<B>(ma);
    B b(a);
    has(b, e, "the converted dim");
    B b2 = a;
    has(b2, e, "the implicitly converted dim");
    MD m3 = gen_for(s, sb, sb);
    B b3 = make_dim<B>(m3);
    b3 = a;
    // An unresolved stride becomes the static one.
    has(b3, e, "the assigned dim");
    has(a, ma, "the source");
    // And back.
    A a2(b);
    has(a2, expect<A>(e), "the dim converted back");
    // Equality is that of the values.
    CHECK_EQ(a == b, ma == e);
    CHECK_EQ(b == a, ma == e);
    CHECK_EQ(a != b, !(ma == e));
    MD n = gen_for(s, sb, sb);
    if (s.chance(1, 2)) {
      // Almost equal.
      n = e;
      switch (s.pick(3)) {
      case 0:
        if (!sb.smin) n.min++;
        break;
      case 1:
        if (!sb.sext) n.ext++;
        break;
      default:
        if (!sb.sstr) n.str = n.str == UNRES ? 1 : n.str + 1;
      }
    }
    B o = make_dim<B>(n);
    n = expect<B>(n);
    CHECK_EQ(a == o, ma == n);
    CHECK_EQ(a != o, !(ma == n));
    // As intervals.
    using IA = nda::interval<A::Min, A::Extent>;
    using IB = nda::interval<B::Min, B::Extent>;
    const IA ia((index_t)ma.min, (index_t)ma.ext);
    IB ib(ia);
    CHECK_IEQ(ib.min(), ma.min);
    CHECK_IEQ(ib.extent(), ma.ext);
    IB ic((index_t)n.min, (index_t)n.ext);
    CHECK_EQ(ia == ic, ma.min == n.min && ma.ext == n.ext);
    CHECK_EQ(ia != ic, !(ma.min == n.min && ma.ext == n.ext));
    ic = ia;
    CHECK_IEQ(ic.min(), ma.min);
    CHECK_IEQ(ic.extent(), ma.ext);
    // An interval makes a dim with the default stride.
    B bi(ib);
    has(bi, expect<B>(MD{ma.min, ma.ext, UNRES}), "the dim of an interval");
    // Or with the stride it is given.
    MD w = gen_for(s, sb, sb);
    w.min = ma.min;
    w.ext = ma.ext;
    if (w.str != UNRES) {
      B bs(ib, (index_t)w.str);
      has(bs, expect<B>(w), "the dim of an interval and a stride");
    }
  }
};
template <class A, class... B>
static void from_dim(size_t i, Src& s, Ctx& c) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {&dim_pair<A, B, no_conflict<A, B>()>::run...};
  fns[i](s, c);
}
#define DIMS                                                                                                                   \
  dim<>, dim<2>, dim<dynamic, 3>, dim<dynamic, dynamic, 4>, dim<2, 3>, dim<2, dynamic, 4>, dim<dynamic, 3, 4>, dim<2, 3, 4>, dim<dynamic, dynamic, 1>, \
      dim<0>, dim<dynamic, dynamic, -1>, dim<dynamic, dynamic, 0>, dim<-3, 5>, dim<dynamic, 0>, dim<dynamic, 1>
template <class... D>
static void any_dim(size_t i, size_t j, Src& s, Ctx& c, types<D...>) {
  using Fn = void (*)(size_t, Src&, Ctx&);
  static const Fn fns[] = {&from_dim<D, DIMS>...};
  fns[i](j, s, c);
}
using dims_a = types<dim<>, dim<2>, dim<dynamic, 3>, dim<dynamic, dynamic, 4>, dim<2, 3>, dim<2, dynamic, 4>, dim<dynamic, 3, 4>>;
using dims_b = types<dim<2, 3, 4>, dim<dynamic, dynamic, 1>, dim<0>, dim<dynamic, dynamic, -1>, dim<dynamic, dynamic, 0>, dim<-3, 5>, dim<dynamic, 0>, dim<dynamic, 1>>;
#if PART == 0
PROP(dim_pairs, 1.0) {
  size_t i = s.pick(dims_a::size);
  any_dim(i, s.pick(types<DIMS>::size), s, c, dims_a());
}
#else
PROP(dim_pairs_b, 1.0) {
  size_t i = s.pick(dims_b::size);
  any_dim(i, s.pick(types<DIMS>::size), s, c, dims_b());
}
#endif
#endif

// ---- shapes
template <class... A>
struct list_of;

template <class A, class B, size_t... I>
constexpr bool all_ok(std::index_sequence<I...>) {
  bool r = true;
  (void)std::initializer_list<int>{(r = r && no_conflict<dim_t<A, I>, dim_t<B, I>>(), 0)...};
  return r;
}

// Is `m` compatible with the static parameters `d`?
static bool fits(const MD& m, const SD& d) {
  return (!d.smin || m.min == d.min) && (!d.sext || m.ext == d.ext) && (!d.sstr || m.str == UNRES || m.str == d.str);
}

template <class A, class B, bool Ok>
struct convert_pair {
  static void run(Src&, Ctx& c, const MS&, const A&) { c.cls("conflicting static parameters"); }
};
template <class A, class B>
struct convert_pair<A, B, true> {
  static void run(Src& s, Ctx& c, const MS& m, const A& a) {
    constexpr size_t R = A::rank();
    std::vector<SD> sb = statics<B>();
    MS e = m;
    for (size_t d = 0; d < R; d++) {
      if (sb[d].sstr) e[d].str = sb[d].str;
    }
    c.cls("converted");
    c.nontrivial = true;
    B b(a);
    CHECK_M(model(b) == e, "the converted shape is " << str(model(b)) << " instead of " << str(e));
    B b2 = a;
    CHECK(model(b2) == e);
    B b3;
    b3 = a;
    CHECK_M(model(b3) == e, "the assigned shape is " << str(model(b3)) << " instead of " << str(e));
    B b4 = nda::convert_shape<B>(a);
    CHECK_M(model(b4) == e, "the result of convert_shape is " << str(model(b4)) << " instead of " << str(e));
    B b5(a.dims());
    CHECK(model(b5) == e);
    CHECK_EQ(a == b, m == e);
    CHECK_EQ(b != a, !(m == e));
    if (a.is_resolved()) {
      // Views refer to the same elements.
      static int x[4];
      nda::array_ref<int, A> ra(x + 1, a);
      nda::array_ref<int, B> rb = ra;
      CHECK(rb.base() == ra.base());
      CHECK(model(rb.shape()) == e);
      nda::array_ref<int, B> rc;
      rc = ra;
      CHECK(rc.base() == ra.base());
      CHECK_M(model(rc.shape()) == e, "the assigned ref has shape " << str(model(rc.shape())));
      nda::const_array_ref<int, B> rd = nda::const_array_ref<int, A>(ra);
      CHECK(rd.base() == ra.base() && model(rd.shape()) == e);
    }
  }
};

template <class A, class B>
static void shape_pair(Src& s, Ctx& c) {
  constexpr size_t R = A::rank();
  NOTE(c, type_name<A>() << " to " << type_name<B>());
  std::vector<SD> sa = statics<A>(), sb = statics<B>();
  MS m(R);
  for (size_t d = 0; d < R; d++) {
    // Mostly values that fit.
    m[d] = s.chance(1, 8) ? gen_for(s, sa[d], sa[d]) : gen_for(s, sa[d], sb[d]);
    if (s.chance(1, 10)) {
      switch (s.pick(3)) {
      case 0:
        if (!sa[d].smin) m[d].min += s.around(1);
        break;
      case 1:
        if (!sa[d].sext) m[d].ext = std::max<i64>(0, m[d].ext + s.around(1));
        break;
      default:
        if (!sa[d].sstr && m[d].str != UNRES) m[d].str += s.around(1);
      }
    }
  }
  NOTE(c, "values " << str(m));
  A a = make<A>(m);
  CHECK(model(a) == m);
  bool ok = true;
  for (size_t d = 0; d < R; d++) ok = ok && fits(m[d], sb[d]);
  CHECK_EQ(nda::is_compatible<B>(a), ok);
  CHECK_EQ(nda::is_explicitly_compatible<B>(a), ok);
  c.cls(!ok, "not compatible");
  c.nontrivial = true;
  if (ok) convert_pair<A, B, all_ok<A, B>(std::make_index_sequence<R>())>::run(s, c, m, a);
  // Equality of any values.
  MS n(R);
  for (size_t d = 0; d < R; d++) {
    n[d] = m[d];
    if (sb[d].smin) n[d].min = sb[d].min;
    if (sb[d].sext) n[d].ext = sb[d].ext;
    if (sb[d].sstr) n[d].str = sb[d].str;
  }
  if (R && s.chance(1, 2)) {
    size_t d = s.pick(R);
    if (s.chance(1, 3)) {
      if (!sb[d].smin) n[d].min++;
    } else if (s.chance(1, 2)) {
      if (!sb[d].sext) n[d].ext++;
    } else if (!sb[d].sstr) {
      n[d].str = n[d].str == UNRES ? 1 : n[d].str + 1;
    }
  }
  B b = make<B>(n);
  CHECK_EQ(a == b, m == n);
  CHECK_EQ(a != b, !(m == n));
}
template <class A, class... B>
static void from_shape(size_t i, Src& s, Ctx& c, types<B...>) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {&shape_pair<A, B>...};
  fns[i](s, c);
}
template <class... A>
static void any_pair(Src& s, Ctx& c, types<A...> l) {
  using Fn = void (*)(size_t, Src&, Ctx&, types<A...>);
  static const Fn fns[] = {&from_shape<A, A...>...};
  size_t i = s.pick(sizeof...(A));
  fns[i](s.pick(sizeof...(A)), s, c, l);
}

using rank1 = types<any_shape<1>, dense_shape<1>, shape<dim<2>>, shape<dim<dynamic, 3>>, shape<dim<2, 3>>, shape<dim<dynamic, 3, 4>>, shape<dim<2, 3, 1>>,
    shape<dim<dynamic, dynamic, -1>>, shape<dim<dynamic, dynamic, 0>>>;
using rank2 = types<any_shape<2>, dense_shape<2>, matrix_shape<2, 5>, shape<dim<1>, dim<dynamic, 4>>, shape<dim<dynamic, dynamic, 4>, dense_dim<>>,
    shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>, fixed_dense_shape<3, 4>>;
using rank3 = types<any_shape<3>, dense_shape<3>, chunky_image_shape<3>, planar_image_shape, chunky_image_shape<3, 4>, shape<dim<0>, dim<>, dim<0, 3>>>;
#if PART == 2
PROP(shapes_of_rank_1, 1.0) { any_pair(s, c, rank1()); }
#endif
#if PART == 3
PROP(shapes_of_rank_2, 1.0) { any_pair(s, c, rank2()); }
#endif
#if PART == 4
PROP(shapes_of_rank_3, 0.8) { any_pair(s, c, rank3()); }
PROP(shapes_of_rank_0, 0.05) {
  shape<> a, b;
  CHECK(a == b && !(a != b));
  CHECK(nda::is_compatible<shape<>>(a) && nda::is_explicitly_compatible<shape<>>(a));
  c.nontrivial = s.chance(1, 2);
}
// Conversions to another rank: only of trivial dims.
template <class A, class B>
static void ranks(Src& s, Ctx& c) {
  NOTE(c, type_name<A>() << " to " << type_name<B>());
  constexpr size_t RA = A::rank(), RB = B::rank();
  std::vector<SD> sa = statics<A>(), sb = statics<B>();
  MS m(RA);
  for (size_t d = 0; d < RA; d++) {
    SD o = d < RB ? sb[d] : sa[d];
    m[d] = s.chance(1, 6) ? gen_for(s, sa[d], sa[d]) : gen_for(s, sa[d], o);
    if (d >= RB && !sa[d].sext && s.chance(4, 5)) m[d].ext = 1;
  }
  NOTE(c, "values " << str(m));
  A a = make<A>(m);
  bool ok = true;
  for (size_t d = 0; d < std::min(RA, RB); d++) ok = ok && fits(m[d], sb[d]);
  for (size_t d = RB; d < RA; d++) ok = ok && m[d].ext == 1;
  for (size_t d = RA; d < RB; d++) ok = ok && (!sb[d].sext || sb[d].ext == 1);
  CHECK_EQ(nda::is_explicitly_compatible<B>(a), ok);
  c.nontrivial = true;
  c.cls(!ok, "not compatible");
  if (!ok) return;
  B b = nda::convert_shape<B>(a);
  MS e = m;
  e.resize(RB);
  for (size_t d = 0; d < RB; d++) {
    if (d >= RA) e[d] = MD{sb[d].smin ? sb[d].min : 0, 1, UNRES};
    if (sb[d].sstr) e[d].str = sb[d].str;
  }
  CHECK_M(model(b) == e, "the converted shape is " << str(model(b)) << " instead of " << str(e));
}
PROP(other_ranks, 0.8) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {ranks<any_shape<1>, any_shape<3>>, ranks<any_shape<3>, any_shape<1>>, ranks<any_shape<3>, dense_shape<2>>,
      ranks<dense_shape<2>, any_shape<1>>, ranks<any_shape<1>, shape<dim<>, dim<dynamic, 1>>>, ranks<any_shape<1>, shape<dim<>, dim<dynamic, 3>>>,
      ranks<any_shape<2>, shape<>>, ranks<shape<>, any_shape<2>>, ranks<any_shape<2>, shape<dim<1>, dim<dynamic, 4>, dim<2, 1, 3>, dim<>>>,
      ranks<shape<dim<>, dim<>, dim<dynamic, 1>>, any_shape<2>>, ranks<any_shape<4>, matrix_shape<>>, ranks<shape<>, any_shape<4>>,
      ranks<any_shape<1>, any_shape<6>>, ranks<any_shape<2>, shape<dim<>, dim<>, dim<>, dim<3>, dim<dynamic, dynamic, 5>>>, ranks<any_shape<6>, any_shape<2>>,
      ranks<any_shape<5>, shape<>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
#endif

// ---- the same results for static and dynamic parameters
static std::string text(const Idx& i) { return str(i); }
template <class T>
static std::string text(const T& t) {
  std::ostringstream os;
  os << t;
  return os.str();
}
template <class A, class B>
static void same(const A& a, const B& b, const char* what) {
  CHECK_M(a == b, what << ": " << text(a) << " with static parameters, " << text(b) << " without");
}
template <class A, class B>
static void same_shape(const A& a, const B& b, const char* what) {
  CHECK_M(model(a) == model(b), what << ": " << str(model(a)) << " with static parameters, " << str(model(b)) << " without");
}
template <class Tuple>
static Idx vals(const Tuple& t) {
  return from_index(t);
}

template <class Shape>
static void differential(Src& s, Ctx& c) {
  constexpr size_t R = Shape::rank();
  using D = any_shape<R>;
  GenOpts o;
  o.unresolved = s.chance(1, 3);
  o.overlap = !o.unresolved;
  o.max_size = 120;
  MS m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  Shape a = make<Shape>(m);
  D b = make<D>(m);
  same(a.is_resolved(), b.is_resolved(), "is_resolved");
  a.resolve();
  b.resolve();
  same_shape(a, b, "resolve");
  same(vals(a.min()), vals(b.min()), "min");
  same(vals(a.max()), vals(b.max()), "max");
  same(vals(a.extent()), vals(b.extent()), "extent");
  same(vals(a.stride()), vals(b.stride()), "stride");
  same(a.size(), b.size(), "size");
  same(a.empty(), b.empty(), "empty");
  same(a.is_compact(), b.is_compact(), "is_compact");
  same(a.is_one_to_one(), b.is_one_to_one(), "is_one_to_one");
  same(a.flat_min(), b.flat_min(), "flat_min");
  same(a.flat_max(), b.flat_max(), "flat_max");
  same(a.flat_extent(), b.flat_extent(), "flat_extent");
  same(a == b, true, "==");
  same(a != b, false, "!=");
  same_shape(a.bounds(), b.bounds(), "bounds");
  same_shape(nda::make_compact(a).bounds(), nda::make_compact(b).bounds(), "make_compact");
  for (size_t d = 0; d < R; d++) same(model_dim(a.dim(d)), model_dim(b.dim(d)), "dim");
  Idx x(R);
  for (size_t d = 0; d < R; d++) x[d] = model(a)[d].min + s.around(model(a)[d].ext + 3);
  same(a[index<R>(x)], b[index<R>(x)], "operator[]");
  same(a.is_in_range(index<R>(x)), b.is_in_range(index<R>(x)), "is_in_range");
  {
    std::vector<Idx> va, vb;
    nda::for_each_index_in_order(a, [&](const typename Shape::index_type& i) { va.push_back(from_index(i)); });
    nda::for_each_index_in_order(b, [&](const typename D::index_type& i) { vb.push_back(from_index(i)); });
    same(va == vb, true, "for_each_index_in_order");
  }
  // Arrays.
  MS f = model(a);
  if (!injective(f)) return;
  nda::array<int, Shape> aa(a, 0);
  nda::array<int, D> bb(b, 0);
  int k = 0;
  for_each(f, [&](const Idx& i) {
    aa[index<R>(i)] = k;
    bb[index<R>(i)] = k++;
  });
  same(nda::equal(aa, bb), true, "equal");
  same(aa.base() - aa.data(), bb.base() - bb.data(), "base");
  std::vector<int> va(aa.data(), aa.data() + (nd::empty(f) ? 0 : a.flat_extent())), vb(bb.data(), bb.data() + (nd::empty(f) ? 0 : b.flat_extent()));
  // Gaps hold whatever they hold.
  for_each(f, [&](const Idx& i) {
    i64 at = offset_of(f, i) - flat_min(f);
    same(va[at], vb[at], "memory");
  });
  auto ca = nda::make_compact_copy(aa);
  auto cb = nda::make_compact_copy(bb);
  same(nda::equal(ca, cb), true, "make_compact_copy");
  i64 sa = 0, sb = 0;
  aa.for_each_value([&](int v) { sa += v; });
  bb.for_each_value([&](int v) { sb += v; });
  same(sa, sb, "for_each_value");
  // Reshape to other bounds, as far as they are dynamic.
  MS n = f;
  std::vector<SD> sd = statics<Shape>();
  for (size_t d = 0; d < R; d++) {
    if (!sd[d].smin) n[d].min += s.around(3);
    if (!sd[d].sext) n[d].ext = std::max<i64>(0, n[d].ext + s.around(3));
    n[d].str = sd[d].sstr ? sd[d].str : UNRES;
  }
  if (!injective(resolved(n))) return;
  aa.reshape(make<Shape>(n));
  bb.reshape(make<D>(n));
  same_shape(aa.shape(), bb.shape(), "reshape");
  same(nda::equal(aa, bb), true, "reshape");
}
#if PART == 5
using diff5 = types<dense_shape<1>, shape<dim<2>>, shape<dim<dynamic, 3>>, shape<dim<2, 3, 4>>, shape<dim<-2, dynamic, -1>>, matrix_shape<2, 5>, dense_shape<2>,
    shape<dim<1>, dim<dynamic, 4>>>;
PROP_T(same_results_low, 1.0, diff5) { differential<Shape>(s, c); }
#endif
#if PART == 6
using diff6 = types<shape<dim<dynamic, dynamic, 4>, dense_dim<>>, shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>, fixed_dense_shape<3, 4>, chunky_image_shape<3>,
    planar_image_shape, chunky_image_shape<3, 4>, shape<dim<0>, dim<>, dim<0, 3>>, shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>>;
PROP_T(same_results, 1.0, diff6) { differential<Shape>(s, c); }

// Slices and crops.
template <class Shape>
static void slices(Src& s, Ctx& c) {
  using D = any_shape<2>;
  GenOpts o;
  MS m = gen<Shape>(s, o);
  if (!injective(m)) return;
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  nda::array<int, Shape> a(make<Shape>(m), 1);
  nda::array<int, D> b(make<D>(m), 1);
  if (nd::empty(m)) return;
  index_t x = (index_t)s.range(m[0].min, m[0].max()), y = (index_t)s.range(m[1].min, m[1].max());
  index_t x1 = (index_t)s.range(x, m[0].max()), y1 = (index_t)s.range(y, m[1].max());
  NOTE(c, "at " << x << "," << y << " to " << x1 << "," << y1);
  auto cmp = [&](const auto& p, const auto& q, const char* what) {
    same_shape(p.shape(), q.shape(), what);
    same(p.base() - a.base(), q.base() - b.base(), what);
  };
  cmp(a(nda::_, y), b(nda::_, y), "a(_, y)");
  cmp(a(x, nda::_), b(x, nda::_), "a(x, _)");
  cmp(a(nda::r(x, x1 + 1), y), b(nda::r(x, x1 + 1), y), "a(r, y)");
  cmp(a(nda::r(x, x1 + 1), nda::r(y, y1 + 1)), b(nda::r(x, x1 + 1), nda::r(y, y1 + 1)), "a(r, r)");
  cmp(a(nda::_, nda::r(y, y1 + 1)), b(nda::_, nda::r(y, y1 + 1)), "a(_, r)");
  cmp(a(nda::r<1>(x), nda::r<1>(y1)), b(nda::r<1>(x), nda::r<1>(y1)), "a(r<1>, r<1>)");
  cmp(nda::transpose<1, 0>(a), nda::transpose<1, 0>(b), "transpose");
}
using slice_list = types<dense_shape<2>, matrix_shape<2, 5>, shape<dim<1>, dim<dynamic, 4>>, shape<dim<dynamic, dynamic, 4>, dense_dim<>>,
    shape<dim<1, 4, 1>, dim<dynamic, 3, 4>>, fixed_dense_shape<3, 4>, shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>>;
PROP_T(same_slices, 0.8, slice_list) { slices<Shape>(s, c); }
#endif
