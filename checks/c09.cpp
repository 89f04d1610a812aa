// C09: equality compares shape and every element, and nothing else.
#include <cstring>
#include "shapes.h"
using namespace nd;

static int value_at(const Idx& i, int salt) {
  uint64_t h = (uint64_t)salt;
  for (i64 x : i) h = pbt::mix(h ^ (uint64_t)x);
  return (int)(h % 5);
}

template <class T>
struct Mem : Buffer<T> {
  MS m;
  Mem(const MS& m, int junk) : Buffer<T>(m, T()), m(m) {
    for (size_t i = 0; i < this->mem.size(); i++) this->mem[i] = (T)(junk + (int)(i % 7));
  }
  T& at(const Idx& i) { return this->base[offset_of(m, i)]; }
  void fill(int salt) {
    for_each(m, [&](const Idx& i) { at(i) = (T)value_at(i, salt); });
  }
};

// Change some elements; returns how many.
template <class M>
static int tamper(Src& s, Ctx& c, M& b) {
  if (nd::empty(b.m)) return 0;
  int n = (int)s.weighted({3, 4, 1});
  for (int k = 0; k < n; k++) {
    Idx at;
    for (const MD& d : b.m) {
      // Corners, edges and anything between.
      switch (s.pick(3)) {
      case 0: at.push_back(d.min); break;
      case 1: at.push_back(d.max()); break;
      default: at.push_back(d.min + (i64)s.pick((size_t)d.ext)); break;
      }
    }
    NOTE(c, "element " << str(at) << " differs");
    b.at(at) = 17 + k;
  }
  return n;
}

static MS gen_case(Src& s, Ctx& c, const std::vector<SD>& sd, bool overlap) {
  GenOpts o;
  o.overlap = overlap;
  o.huge = true;
  if (s.chance(1, 12)) {
    o.max_ext = 100;
    o.max_size = 2000;
  }
  MS m = gen(s, sd, o);
  NOTE(c, "a " << str(m));
  c.nontrivial = size_of(m) > 1;
  c.cls(nd::empty(m), "empty");
  return m;
}

// Change the shape a bit, within the static bounds.
static bool nudge(Src& s, MS& m, const std::vector<SD>& sd, bool stride) {
  if (m.empty()) return false;
  size_t d = s.pick(m.size());
  switch (s.pick(stride ? 3 : 2)) {
  case 0:
    if (sd[d].smin) return false;
    m[d].min += s.chance(1, 2) ? 1 : -1;
    return true;
  case 1: {
    if (sd[d].sext) return false;
    if (m[d].ext == 0) m[d].ext = 1 + (i64)s.pick(3);
    else if (s.chance(1, 2) && m.size() > 1) {
      // Another shape with the same number of elements.
      size_t e = (d + 1) % m.size();
      if (sd[e].sext || m[d].ext == m[e].ext) return false;
      std::swap(m[d].ext, m[e].ext);
    } else m[d].ext--;
    return true;
  }
  default:
    if (sd[d].sstr) return false;
    m[d].str = m[d].str + s.range(1, 3);
    return true;
  }
}

template <class A, class B>
static void expect_eq(const A& a, const B& b, bool want) {
  CHECK_M((a == b) == want, "a == b is " << (a == b));
  CHECK_M((a != b) == !want, "a != b is " << (a != b));
  CHECK_M((b == a) == want, "b == a is " << (b == a));
  CHECK_M((b != a) == !want, "b != a is " << (b != a));
}

#if PART == 0 || PART == 1
#if PART == 0
#define NAME operators
#define NAME2 array_operators
#define LIST shapes_low
#else
#define NAME operators_high
#define NAME2 array_operators_high
#define LIST shapes_high
#endif
#define LATE_PROP_T(name, weight, list) PROP_T(name, weight, list)
LATE_PROP_T(NAME, 1.0, LIST) {
  std::vector<SD> sd = statics<Shape>();
  MS m = gen_case(s, c, sd, true), n = m;
  bool changed = s.chance(1, 4) && nudge(s, n, sd, true);
  c.cls(changed, "different shapes");
  NOTE(c, "b " << str(n));
  Mem<int> a(m, 100), b(n, 200);
  int salt = (int)s.draw(3);
  a.fill(salt);
  b.fill(salt);
  int diff = changed ? 0 : tamper(s, c, b);
  c.cls(diff > 0, "different elements");
  // Elements that share memory are all equal to the last one written.
  bool want = m == n;
  if (want) {
    for_each(m, [&](const Idx& i) { want = want && a.at(i) == b.at(i); });
  }
  c.cls(want, "equal");
  using Ref = nda::array_ref<int, Shape>;
  Ref ra(a.base, make<Shape>(m)), rb(b.base, make<Shape>(n));
  expect_eq(ra, rb, want);
  expect_eq(ra.cref(), rb.cref(), want);
  expect_eq(ra, ra, true);
  CHECK_EQ(nda::equal(ra, rb), changed && same_bounds(m, n) ? nda::equal(ra, rb) : want);
}
LATE_PROP_T(NAME2, 0.5, LIST) {
  std::vector<SD> sd = statics<Shape>();
  MS m = gen_case(s, c, sd, false), n = m;
  if (!injective(m)) return;
  bool changed = s.chance(1, 4) && nudge(s, n, sd, true) && injective(n);
  if (!changed) n = m;
  NOTE(c, "b " << str(n));
  constexpr size_t R = Shape::rank();
  // The padding of the arrays is not initialized.
  nda::array<int, Shape> a(make<Shape>(m), 1), b(make<Shape>(n), 1);
  for_each(m, [&](const Idx& i) { a[index<R>(i)] = value_at(i, 1); });
  for_each(n, [&](const Idx& i) { b[index<R>(i)] = value_at(i, 1); });
  bool want = m == n;
  if (want && !nd::empty(m) && s.chance(1, 2)) {
    i64 k = (i64)s.pick((size_t)size_of(m));
    for_each(m, [&](const Idx& i) {
      if (k-- == 0) {
        b[index<R>(i)] += 9;
        NOTE(c, "element " << str(i) << " differs");
      }
    });
    want = false;
  }
  const auto& ca = a;
  expect_eq(a, b, want);
  expect_eq(ca, b, want);
  CHECK(a == a && !(a != a));
  auto copy = a;
  CHECK(copy == a);
}
#endif

template <class S, class D>
struct pair_of {
  using src = S;
  using dst = D;
};
template <class SA, class SB, class TA, class TB>
static void equal_pair(Src& s, Ctx& c) {
  NOTE(c, type_name<SA>() << " and " << type_name<SB>());
  std::vector<SD> sa = statics<SA>(), sb = statics<SB>(), both = sa;
  for (size_t d = 0; d < sa.size(); d++) {
    if (sb[d].smin) both[d].smin = true, both[d].min = sb[d].min;
    if (sb[d].sext) both[d].sext = true, both[d].ext = sb[d].ext;
  }
  MS m = gen_case(s, c, both, true), n = m;
  bool changed = s.chance(1, 5) && nudge(s, n, sb, false);
  if (changed && same_bounds(m, n)) changed = false;
  n = relayout(s, n, sb, GenOpts());
  if (!injective(n)) return;
  NOTE(c, "b " << str(n));
  c.cls(changed, "different bounds");
  Mem<TA> a(m, 50);
  Mem<TB> b(n, 60);
  if (injective(m)) {
    a.fill(3);
    b.fill(3);
  } else {
    // Elements share memory: the other array has copies of them.
    for_each(m, [&](const Idx& i) { a.at(i) = (TA)value_at(i, 3); });
    for_each(n, [&](const Idx& i) { b.at(i) = in_range(m, i) ? (TB)a.at(i) : TB(1); });
  }
  if (!changed) tamper(s, c, b);
  bool want = same_bounds(m, n);
  if (want) {
    for_each(m, [&](const Idx& i) { want = want && a.at(i) == b.at(i); });
  }
  c.cls(want, "equal");
  nda::array_ref<TA, SA> ra(a.base, make<SA>(m));
  nda::array_ref<TB, SB> rb(b.base, make<SB>(n));
  CHECK_M(nda::equal(ra, rb) == want, "equal(a, b) is " << nda::equal(ra, rb));
  CHECK_M(nda::equal(rb, ra) == want, "equal(b, a) is " << nda::equal(rb, ra));
  CHECK_EQ(nda::equal(ra.cref(), rb.cref()), want);
  CHECK_EQ(nda::equal(ra, rb.cref()), want);
  CHECK(nda::equal(ra, ra) && nda::equal(rb, rb));
  if (injective(m)) {
    auto ca = nda::make_copy(ra);
    auto cb = nda::make_copy(rb);
    CHECK_EQ(nda::equal(ca, rb), want);
    CHECK_EQ(nda::equal(ra, cb), want);
    CHECK_EQ(nda::equal(ca, cb), want);
  }
}
template <class TA, class TB, class Pairs>
struct run_pair;
template <class TA, class TB, class... P>
struct run_pair<TA, TB, types<P...>> {
  static void run(Src& s, Ctx& c) {
    static void (*const fns[])(Src&, Ctx&) = {equal_pair<typename P::src, typename P::dst, TA, TB>...};
    fns[s.pick(sizeof...(P))](s, c);
  }
};
// Two views of the same storage: only the values at each index count.
template <class SA, class SB>
static void same_storage(Src& s, Ctx& c) {
  NOTE(c, type_name<SA>() << " and " << type_name<SB>());
  std::vector<SD> sa = statics<SA>(), sb = statics<SB>(), both = sa;
  for (size_t d = 0; d < sa.size(); d++) {
    if (sb[d].smin) both[d].smin = true, both[d].min = sb[d].min;
    if (sb[d].sext) both[d].sext = true, both[d].ext = sb[d].ext;
  }
  MS m = gen_case(s, c, both, true);
  MS n = s.chance(1, 4) ? m : relayout(s, m, sb, GenOpts());
  for (size_t d = 0; d < sb.size(); d++) {
    if (sb[d].sstr) n[d].str = sb[d].str;
  }
  // The second view often starts at the same element.
  NOTE(c, "b " << str(n));
  if (nd::empty(m)) {
    int x = 1;
    CHECK(nda::equal(nda::array_ref<int, SA>(&x, make<SA>(m)), nda::array_ref<int, SB>(&x, make<SB>(n))));
    return;
  }
  const i64 lo = std::min(flat_min(m), flat_min(n)), hi = std::max(flat_max(m), flat_max(n));
  const i64 shift = s.chance(1, 3) ? (i64)s.range(0, 3) : 0;
  std::vector<int> mem((size_t)(hi - lo + 1 + shift));
  const bool few = s.chance(1, 2);
  for (int& v : mem) v = (int)s.pick(few ? 2 : 5);
  if (s.chance(1, 5)) std::fill(mem.begin(), mem.end(), 4);
  int* base = mem.data() - lo;
  bool want = true;
  for_each(m, [&](const Idx& i) { want = want && base[offset_of(m, i)] == base[offset_of(n, i) + shift]; });
  c.cls(want, "equal");
  c.cls(!shift, "same base");
  nda::array_ref<int, SA> ra(base, make<SA>(m));
  nda::array_ref<int, SB> rb(base + shift, make<SB>(n));
  CHECK_M(nda::equal(ra, rb) == want, "equal(a, b) is " << nda::equal(ra, rb));
  CHECK_M(nda::equal(rb, ra) == want, "equal(b, a) is " << nda::equal(rb, ra));
  CHECK_EQ(nda::equal(ra.cref(), rb.cref()), want);
  expect_eq(ra, nda::array_ref<int, SA>(base, make<SA>(m)), true);
}
using A1 = any_shape<1>;
using A2 = any_shape<2>;
using A3 = any_shape<3>;
using A4 = any_shape<4>;
using D1 = dense_shape<1>;
using D2 = dense_shape<2>;
using D3 = dense_shape<3>;
using D4 = dense_shape<4>;

#if PART == 2
PROP(equal_1_2, 0.6) {
  run_pair<int, int, types<pair_of<A2, A2>, pair_of<A2, D2>, pair_of<A1, D1>, pair_of<D2, D2>, pair_of<matrix_shape<>, D2>,
      pair_of<matrix_shape<>, matrix_shape<>>, pair_of<A2, fixed_dense_shape<3, 4>>, pair_of<matrix_shape<2, 5>, A2>, pair_of<shape<>, shape<>>>>::run(s, c);
}
PROP(views_of_one_storage, 0.4) {
  static void (*const fns[])(Src&, Ctx&) = {same_storage<A1, A1>, same_storage<A2, A2>, same_storage<A2, D2>, same_storage<A3, A3>,
      same_storage<matrix_shape<>, D2>, same_storage<D1, A1>, same_storage<planar_image_shape, A3>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
PROP(equal_types, 0.4) {
  switch (s.pick(6)) {
  case 3: return equal_pair<A2, D2, int, float>(s, c);
  case 4: return equal_pair<D2, D2, float, int>(s, c);
  case 5: return equal_pair<A2, A2, double, long long>(s, c);
  case 0: return equal_pair<A2, D2, int, double>(s, c);
  case 1: return equal_pair<D2, matrix_shape<>, unsigned char, int>(s, c);
  default: return equal_pair<A2, A2, float, short>(s, c);
  }
}
#endif
#if PART == 3
PROP(equal_3_4, 0.6) {
  run_pair<int, int, types<pair_of<A3, A3>, pair_of<A3, D3>, pair_of<planar_image_shape, chunky_image_shape<>>,
      pair_of<chunky_image_shape<3>, chunky_image_shape<3, 4>>, pair_of<chunky_image_shape<>, chunky_image_shape<3>>, pair_of<A4, A4>, pair_of<D4, A4>,
      pair_of<any_shape<6>, any_shape<6>>, pair_of<any_shape<5>, any_shape<5>>, pair_of<any_shape<8>, any_shape<8>>>>::run(s, c);
}
// Assign only the bytes of the value.
template <class T>
static void assign_value(T& to, const T& from) {
  to = from;
}
struct Padded;
static void assign_value(Padded& to, const Padded& from);
// Operators are only defined between views of one type.
template <class R>
static void compare_same(const R& a, const R& b, bool want) {
  expect_eq(a, b, want);
  expect_eq(a.cref(), b.cref(), want);
  auto ca = nda::make_copy(a);
  auto cb = nda::make_copy(b);
  expect_eq(ca, cb, want);
}
template <class A, class B>
static void compare_same(const A&, const B&, bool) {}
// Elements of which the bytes and the value are different things.
struct Padded {
  char a;
  int b;
  bool operator==(const Padded& r) const { return a == r.a && b == r.b; }
  bool operator!=(const Padded& r) const { return !(*this == r); }
};
struct Fraction {
  // 1/2 equals 2/4.
  short num, den;
  bool operator==(const Fraction& r) const { return num * r.den == r.num * den; }
  bool operator!=(const Fraction& r) const { return !(*this == r); }
};
static void assign_value(Padded& to, const Padded& from) {
  to.a = from.a;
  to.b = from.b;
}
static void draw_value(Src& s, double& v, bool plain) {
#ifdef __FAST_MATH__
  // The compiler may assume that there are no NaNs and infinities.
  const double t[] = {0.0, -0.0, 1.5, 0.0, -1.5, 2.5, 1e30};
#else
  const double t[] = {0.0, -0.0, 1.5, 0.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 5e-324};
#endif
  v = t[s.pick(plain ? 2 : 7)];
}
static void draw_value(Src& s, float& v, bool plain) {
  double d;
  draw_value(s, d, plain);
  v = (float)d;
}
static void draw_value(Src& s, long double& v, bool plain) {
  double d;
  draw_value(s, d, plain);
  v = d;
}
static void draw_value(Src& s, Padded& v, bool plain) {
  v.a = plain ? 1 : (char)s.pick(2);
  v.b = plain ? 2 : (int)s.pick(2);
}
static void draw_value(Src& s, Fraction& v, bool plain) {
  const short k = (short)(1 + s.pick(3));
  v.num = (short)(k * (plain ? 1 : 1 + s.pick(2)));
  v.den = (short)(k * 2);
}
template <class T, class SA, class SB>
static void value_pair(Src& s, Ctx& c) {
  NOTE(c, type_name<SA>() << " and " << type_name<SB>());
  MS m = gen_case(s, c, statics<SA>(), false);
  if (!injective(m)) return;
  const bool same = std::is_same<SA, SB>::value && s.chance(3, 4);
  MS n = same ? m : relayout(s, m, statics<SB>(), GenOpts());
  if (!injective(n)) return;
  NOTE(c, "b " << str(n));
  Buffer<T> a(m, T()), b(n, T());
  // The bytes that are not part of the value differ.
  if (!a.mem.empty()) std::memset((void*)a.mem.data(), 0x11, a.mem.size() * sizeof(T));
  if (!b.mem.empty()) std::memset((void*)b.mem.data(), 0x22, b.mem.size() * sizeof(T));
  const bool plain = s.chance(1, 2);
  // Draw a few pairs of values that all of the elements take.
  std::vector<std::pair<T, T>> pairs(3);
  for (auto& p : pairs) {
    draw_value(s, p.first, plain);
    if (s.chance(1, 3)) p.second = p.first;
    else draw_value(s, p.second, plain);
  }
  const size_t kinds = 1 + s.pick(3);
  size_t k = 0;
  bool want = true;
  for_each(m, [&](const Idx& i) {
    const auto& p = pairs[k++ % kinds];
    assign_value(a.base[offset_of(m, i)], p.first);
    assign_value(b.base[offset_of(n, i)], p.second);
    want = want && !(p.first != p.second);
  });
  c.cls(want, "equal");
  c.cls(plain, "equal values of other bytes");
  nda::array_ref<T, SA> ra(a.base, make<SA>(m));
  nda::array_ref<T, SB> rb(b.base, make<SB>(n));
  CHECK_M(nda::equal(ra, rb) == want, "equal(a, b) is " << nda::equal(ra, rb));
  CHECK_M(nda::equal(rb.cref(), ra) == want, "equal(b, a) is " << nda::equal(rb.cref(), ra));
  compare_same(ra, rb, want && m == n);
}
PROP(equal_values, 0.4) {
  static void (*const fns[])(Src&, Ctx&) = {value_pair<double, A3, A3>, value_pair<float, A2, A2>, value_pair<float, D2, D2>, value_pair<double, A1, A1>,
      value_pair<double, D3, A3>, value_pair<Padded, A2, A2>, value_pair<Padded, D2, D2>, value_pair<Fraction, A3, A3>, value_pair<Fraction, D1, D1>,
      value_pair<long double, A2, A2>, value_pair<Fraction, A2, matrix_shape<>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
// Elements that are not plain memory.
PROP(equal_strings, 0.2) {
  MS m = gen_case(s, c, statics<A2>(), false);
  if (!injective(m)) return;
  MS n = relayout(s, m, statics<D2>(), GenOpts());
  nda::array<std::string, A2> a(make<A2>(m), std::string("the same long string everywhere"));
  nda::array<std::string, D2> b(make<D2>(n), std::string("the same long string everywhere"));
  CHECK(nda::equal(a, b));
  if (nd::empty(m)) return;
  Idx at = {m[0].min + (i64)s.pick((size_t)m[0].ext), m[1].min + (i64)s.pick((size_t)m[1].ext)};
  b[index<2>(at)].back() = 'E';
  CHECK(!nda::equal(a, b));
  CHECK(!nda::equal(b, a));
  a[index<2>(at)].back() = 'E';
  CHECK(nda::equal(a, b));
  // Only operator!= of the elements counts.
  struct Sign {
    int v;
    bool operator!=(const Sign& r) const { return (v < 0) != (r.v < 0); }
    bool operator==(const Sign& r) const { return !(*this != r); }
  };
  nda::array<Sign, A2> p(make<A2>(m), Sign{1}), q(make<A2>(m), Sign{2});
  CHECK(p == q && nda::equal(p, q) && !(p != q));
  q[index<2>(at)].v = -1;
  CHECK(p != q && !nda::equal(p, q) && !(p == q));
}
#endif
