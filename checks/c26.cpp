// C26: intervals, dims and index iterators behave as the sets of integers they denote.
#include "nd.h"
using namespace nd;

static i64 gen_at(Src& s) {
  if (s.chance(1, 6)) return s.around(sizeof(nda::index_t) == 8 ? i64(1) << 60 : i64(1) << 28);
  return s.around(s.chance(1, 2) ? 12 : 1000);
}
static i64 gen_ext(Src& s) {
  if (s.chance(1, 8)) return s.range(0, sizeof(nda::index_t) == 8 ? i64(1) << 60 : i64(1) << 28);
  return s.range(0, s.chance(3, 4) ? 12 : 300);
}

// The values of an object with static parameters Min and Extent.
template <class D>
static MD gen_values(Src& s) {
  MD m;
  const i64 mn = D::Min, ex = D::Extent;
  m.min = mn == nda::dynamic ? gen_at(s) : mn;
  m.ext = ex == nda::dynamic ? gen_ext(s) : ex;
  return m;
}
static bool contains(const MD& m, i64 at) { return at >= m.min && at < m.min + m.ext; }
// A value near the ends of m.
static i64 near_value(Src& s, const MD& m) {
  switch (s.pick(4)) {
  case 0: return m.min + s.around(2);
  case 1: return m.min + m.ext + s.around(2);
  case 2: return m.ext > 0 ? s.range(m.min, m.min + m.ext - 1) : m.min;
  default: return gen_at(s);
  }
}

template <class D>
static void queries(Src& s, Ctx& c, const D& d, const MD& m) {
  CHECK_IEQ(d.min(), m.min);
  CHECK_IEQ(d.extent(), m.ext);
  CHECK_IEQ(d.size(), m.ext);
  CHECK_IEQ(d.max(), m.min + m.ext - 1);
  for (int k = 0; k < 3; k++) {
    i64 at = near_value(s, m);
    CHECK_M(d.is_in_range((index_t)at) == contains(m, at), m << ".is_in_range(" << at << ")");
    // Other sets, static or not.
    MD o;
    o.min = near_value(s, m);
    o.ext = s.chance(1, 2) ? s.range(1, 6) : std::max<i64>(1, m.min + m.ext - o.min + s.around(1));
    const bool in = contains(m, o.min) && contains(m, o.max());
    c.cls(in, "inside");
    CHECK_M(d.is_in_range(nda::interval<>((index_t)o.min, (index_t)o.ext)) == in, m << ".is_in_range(interval " << o << ")");
    CHECK_M(d.is_in_range(nda::dim<>((index_t)o.min, (index_t)o.ext, 7)) == in, m << ".is_in_range(dim " << o << ")");
    CHECK_EQ(d.is_in_range(nda::fixed_interval<3>((index_t)o.min)), contains(m, o.min) && contains(m, o.min + 2));
    CHECK_EQ(d.is_in_range(nda::interval<2, 4>()), contains(m, 2) && contains(m, 5));
    CHECK_EQ(d.is_in_range(nda::dim<-1, dynamic, 3>(-1, (index_t)o.ext)), contains(m, -1) && contains(m, -2 + o.ext));
    if (m.ext > 0) {
      i64 e = at < m.min ? m.min : at > m.max() ? m.max() : at;
      CHECK_IEQ(nda::clamp((index_t)at, d), e);
      CHECK_IEQ(nda::clamp((index_t)at, (index_t)m.min, (index_t)m.max()), e);
    }
  }
  // Iteration. (Members of dims, too.)
  CHECK_IEQ(*d.begin(), m.min);
  CHECK_IEQ(*d.end(), m.min + m.ext);
  CHECK((d.begin() == d.end()) == (m.ext == 0));
  CHECK((d.begin() != d.end()) == (m.ext != 0));
  CHECK_IEQ(d.end() - d.begin(), m.ext);
  if (m.ext <= 400) {
    i64 k = 0;
    for (index_t i : d) {
      CHECK_M(i == m.min + k, "iteration gives " << i << " as element " << k << " of " << m);
      k++;
      CHECK(k <= m.ext);
    }
    CHECK_IEQ(k, m.ext);
  }
}

template <class I>
static void interval_case(Src& s, Ctx& c) {
  MD m = gen_values<I>(s);
  NOTE(c, "interval<" << (i64)I::Min << "," << (i64)I::Extent << "> " << m);
  c.nontrivial = m.ext != 0;
  c.cls(m.ext == 0, "empty");
  I v((index_t)m.min, (index_t)m.ext);
  queries(s, c, v, m);
  static_assert(I::Max == (I::Min == nda::dynamic || I::Extent == nda::dynamic ? nda::dynamic : I::Min + I::Extent - 1), "Max");
  {
    // The default min and extent.
    I d;
    CHECK_IEQ(d.min(), I::Min != nda::dynamic ? (i64)I::Min : 0);
    CHECK_IEQ(d.extent(), I::Extent != nda::dynamic ? (i64)I::Extent : 1);
    I e((index_t)m.min);
    CHECK_IEQ(e.min(), m.min);
    CHECK_IEQ(e.extent(), I::Extent != nda::dynamic ? (i64)I::Extent : 1);
  }
  // Free functions.
  CHECK(*begin(v) == m.min && *end(v) == m.min + m.ext);
  I w = v;
  CHECK(w == v && !(w != v));
  // Setters.
  for (int k = 0; k < 3; k++) {
    MD n = gen_values<I>(s);
    switch (s.pick(4)) {
    case 0:
      w.set_min((index_t)n.min);
      m.min = n.min;
      break;
    case 1:
      w.set_extent((index_t)n.ext);
      m.ext = n.ext;
      break;
    case 2: {
      // The max changes the extent.
      i64 mx = I::Extent != nda::dynamic ? m.min + m.ext - 1 : m.min - 1 + s.range(0, 50);
      w.set_max((index_t)mx);
      m.ext = mx - m.min + 1;
      break;
    }
    default:
      w = I((index_t)n.min, (index_t)n.ext);
      m = n;
    }
    CHECK_IEQ(w.min(), m.min);
    CHECK_IEQ(w.extent(), m.ext);
    CHECK_IEQ(w.max(), m.min + m.ext - 1);
  }
  queries(s, c, w, m);
  // Equality is that of the bounds.
  MD n = m;
  switch (s.pick(4)) {
  case 0: n.min++; break;
  case 1: n.ext++; break;
  case 2: n = gen_values<nda::interval<>>(s); break;
  default: break;
  }
  nda::interval<> o((index_t)n.min, (index_t)n.ext);
  CHECK_EQ(w == o, m == n);
  CHECK_EQ(o == w, m == n);
  CHECK_EQ(w != o, !(m == n));
}

template <class D>
static void dim_case(Src& s, Ctx& c) {
  MD m = gen_values<D>(s);
  const i64 st = D::Stride;
  m.str = st != nda::dynamic ? st : s.around(s.chance(1, 2) ? 5 : 1000);
  NOTE(c, "dim<" << (i64)D::Min << "," << (i64)D::Extent << "," << st << "> " << m);
  c.nontrivial = m.ext != 0;
  c.cls(m.ext == 0, "empty");
  D v((index_t)m.min, (index_t)m.ext, (index_t)m.str);
  queries(s, c, v, m);
  static_assert(D::Max == (D::Min == nda::dynamic || D::Extent == nda::dynamic ? nda::dynamic : D::Min + D::Extent - 1), "Max");
  CHECK_IEQ(v.stride(), m.str);
  {
    const i64 dmin = D::Min != nda::dynamic ? (i64)D::Min : 0, dext = D::Extent != nda::dynamic ? (i64)D::Extent : 0;
    const i64 dstr = st != nda::dynamic ? st : UNRES;
    D d;
    CHECK(model_dim(d) == (MD{dmin, dext, dstr}));
    D e((index_t)m.ext);
    CHECK(model_dim(e) == (MD{dmin, m.ext, dstr}));
    D f((index_t)m.min, (index_t)m.ext);
    CHECK(model_dim(f) == (MD{m.min, m.ext, dstr}));
    nda::interval<D::Min, D::Extent> iv((index_t)m.min, (index_t)m.ext);
    D g(iv, (index_t)m.str);
    CHECK(model_dim(g) == m);
    D h(iv);
    CHECK(model_dim(h) == (MD{m.min, m.ext, dstr}));
  }
  // The offset is linear and does not depend on the extent.
  const bool small = m.min > -100000 && m.min < 100000;
  for (int k = 0; small && k < 3; k++) {
    i64 at = m.min + s.around(s.chance(1, 2) ? 10 : 100000);
    CHECK_M((i64)v.flat_offset((index_t)at) == (at - m.min) * m.str, "flat_offset(" << at << ") of " << m << " is " << v.flat_offset((index_t)at));
  }
  CHECK_IEQ(v.flat_offset((index_t)m.min), 0);
  D w = v;
  for (int k = 0; k < 3; k++) {
    MD n = gen_values<D>(s);
    switch (s.pick(4)) {
    case 0:
      w.set_min((index_t)n.min);
      m.min = n.min;
      break;
    case 1:
      w.set_extent((index_t)n.ext);
      m.ext = n.ext;
      break;
    case 2: {
      i64 mx = D::Extent != nda::dynamic ? m.min + m.ext - 1 : m.min - 1 + s.range(0, 50);
      w.set_max((index_t)mx);
      m.ext = mx - m.min + 1;
      break;
    }
    default:
      m.str = st != nda::dynamic ? st : s.around(40);
      w.set_stride((index_t)m.str);
    }
    CHECK_M(model_dim(w) == m, "the dim is " << model_dim(w) << " instead of " << m);
  }
  queries(s, c, w, m);
  MD n = m;
  switch (s.pick(5)) {
  case 0: n.min++; break;
  case 1: n.ext++; break;
  case 2: n.str++; break;
  default: break;
  }
  nda::dim<> o((index_t)n.min, (index_t)n.ext, (index_t)n.str);
  CHECK_EQ(w == o, m == n);
  CHECK_EQ(o == w, m == n);
  CHECK_EQ(w != o, !(m == n));
}


template <class... I>
static void pick_interval(Src& s, Ctx& c, types<I...>) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {&interval_case<I>...};
  fns[s.pick(sizeof...(I))](s, c);
}
template <class... D>
static void pick_dim(Src& s, Ctx& c, types<D...>) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {&dim_case<D>...};
  fns[s.pick(sizeof...(D))](s, c);
}
using nda::interval;
using intervals = types<interval<>, interval<0>, interval<dynamic, 8>, interval<2, 3>, interval<-5>, interval<dynamic, 0>, interval<0, 0>, interval<-4, 4>,
    interval<dynamic, 1>, interval<100000>>;
using dims = types<dim<>, dim<0>, dim<dynamic, 8>, dim<2, 3>, dim<-5, dynamic, 2>, dim<dynamic, 0>, dim<0, 4, 1>, dim<dynamic, dynamic, 1>, dim<dynamic, dynamic, -3>,
    dim<dynamic, dynamic, 0>, dim<dynamic, 5, 7>, dim<-3, 3, -1>>;

PROP(intervals_as_sets, 1.0) { pick_interval(s, c, intervals()); }
PROP(dims_as_sets, 1.0) { pick_dim(s, c, dims()); }

// Index iterators are integers.
PROP(iterators, 0.6) {
  i64 i = gen_at(s);
  nda::index_iterator it((index_t)i);
  NOTE(c, "iterator at " << i);
  c.nontrivial = true;
  for (int k = (int)s.range(1, 8); k > 0; k--) {
    i64 n = s.around(20);
    switch (s.pick(9)) {
    case 0: CHECK_IEQ(*(++it), i + 1); i++; break;
    case 1: CHECK_IEQ(*(it++), i); i++; break;
    case 2: CHECK_IEQ(*(--it), i - 1); i--; break;
    case 3: CHECK_IEQ(*(it--), i); i--; break;
    case 4: CHECK_IEQ(*(it += (index_t)n), i + n); i += n; break;
    case 5: CHECK_IEQ(*(it -= (index_t)n), i - n); i -= n; break;
    case 6: CHECK_IEQ(*(it + (index_t)n), i + n); break;
    case 7: CHECK_IEQ(*(it - (index_t)n), i - n); break;
    default: CHECK_IEQ(it[(index_t)n], i + n);
    }
    CHECK_IEQ(*it, i);
    nda::index_iterator o((index_t)(i + n));
    CHECK_EQ(it == o, n == 0);
    CHECK_EQ(it != o, n != 0);
    CHECK_IEQ(o - it, n);
    CHECK_IEQ(it - o, -n);
  }
}

template <index_t E>
static void fixed_range(i64 b) {
  auto f = nda::range<E>((index_t)b);
  auto g = nda::r<E>((index_t)b);
  static_assert(std::is_same<decltype(f), nda::fixed_interval<E>>::value && std::is_same<decltype(g), nda::fixed_interval<E>>::value, "wrong type");
  CHECK(f.min() == b && f.extent() == E && f.max() == b + E - 1);
  CHECK(g.min() == b && g.extent() == E && g.max() == b + E - 1);
}
// Makers of intervals, and clamp.
PROP(ranges, 0.6) {
  i64 b = gen_at(s), e = b + gen_ext(s);
  NOTE(c, "range " << b << " to " << e);
  c.nontrivial = e != b;
  auto check = [&](const nda::interval<>& v) {
    CHECK_IEQ(v.min(), b);
    CHECK_IEQ(v.extent(), e - b);
    CHECK_IEQ(v.max(), e - 1);
    CHECK_IEQ(*v.end(), e);
  };
  check(nda::range((index_t)b, (index_t)e));
  check(nda::r((index_t)b, (index_t)e));
  fixed_range<1>(b);
  fixed_range<5>(b);
  fixed_range<0>(b);
  i64 x = s.chance(1, 2) ? b + s.around(3) : e + s.around(3);
  if (e > b) {
    i64 y = x < b ? b : x > e ? e : x;
    CHECK_IEQ(nda::clamp((index_t)x, (index_t)b, (index_t)e), y);
  }
}
