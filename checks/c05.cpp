// C05: splitting an interval yields inner intervals that cover it and stay inside.
#include "shapes.h"
using namespace nd;

struct IV {
  i64 min, ext;
  bool operator==(const IV& r) const { return min == r.min && ext == r.ext; }
};
template <class T>
static IV iv(const T& t) {
  return {(i64)t.min(), (i64)t.extent()};
}
static std::string str(const IV& i) {
  std::ostringstream os;
  os << "[" << i.min << "+" << i.ext << ")";
  return os.str();
}

// The windows of a split, by definition.
static std::vector<IV> expected(i64 min, i64 ext, i64 factor, bool fixed) {
  std::vector<IV> r;
  for (i64 k = 0; k < ext; k += factor) {
    IV i = {min + k, factor};
    if (k + factor > ext) {
      if (fixed) i.min = min + ext - factor;
      else i.ext = ext - k;
    }
    r.push_back(i);
  }
  return r;
}

template <class Split>
static void check_split(Src& s, Ctx& c, const Split& sp, i64 min, i64 ext, i64 factor, bool fixed) {
  std::vector<IV> want = expected(min, ext, factor, fixed);
  const i64 n = (i64)want.size();
  c.nontrivial = n >= 2;
  c.cls(ext % factor != 0, "the last interval is partial");
  c.cls(n >= 3, "at least three intervals");
  // Stepping.
  std::vector<IV> got;
  for (auto i : sp) {
    got.push_back(iv(i));
    CHECK_M((i64)got.size() <= n, "too many intervals: " << str(got.back()));
  }
  CHECK_IEQ(got.size(), n);
  for (i64 k = 0; k < n; k++) CHECK_M(got[k] == want[k], "interval " << k << " is " << str(got[k]) << " instead of " << str(want[k]));
  // Coverage from the definition of the property, not the model.
  std::set<i64> covered;
  for (const IV& i : got) {
    CHECK(i.ext > 0);
    CHECK(i.min >= min && i.min + i.ext <= min + ext);
    if (ext <= 2000)
      for (i64 x = i.min; x < i.min + i.ext; x++) covered.insert(x);
  }
  if (ext <= 2000) CHECK_IEQ(covered.size(), ext);
  // Random access.
  CHECK_IEQ(sp.size(), n);
  CHECK_IEQ(sp.end() - sp.begin(), n);
  CHECK_EQ(sp.begin() == sp.end(), n == 0);
  CHECK_EQ(sp.begin() != sp.end(), n != 0);
  for (int t = 0; t < 6; t++) {
    i64 a = s.range(0, n), b = s.range(0, n - a);
    auto i = sp.begin() + (index_t)a;
    auto j = sp.begin();
    for (i64 k = 0; k < a; k++) {
      // Both forms of increment.
      if (k & 1) {
        auto old = j++;
        CHECK(iv(*old) == want[k]);
      } else {
        ++j;
      }
    }
    CHECK_M(i == j, "begin + " << a);
    CHECK(!(i != j));
    if (a == n) {
      CHECK_M(i == sp.end(), "begin + " << a << " is not the end");
      CHECK(!(i != sp.end()));
    } else {
      CHECK_M(iv(*i) == want[a], "begin + " << a << " is " << str(iv(*i)) << " instead of " << str(want[a]));
      CHECK(iv(*i) == iv(*j));
      CHECK_IEQ(i->min(), want[a].min);
      CHECK_IEQ(i->extent(), want[a].ext);
      CHECK(i != sp.end());
      CHECK(iv(sp.begin()[(index_t)a]) == want[a]);
      CHECK(iv(*sp[(index_t)a]) == want[a]);
    }
    CHECK_M(sp.end() - i == n - a, "end - (begin + " << a << ") = " << sp.end() - i << " of " << n);
    CHECK_M(i - sp.begin() == a, "(begin + " << a << ") - begin = " << i - sp.begin() << " of " << n);
    auto k = i + (index_t)b;
    CHECK_M(k == sp.begin() + (index_t)(a + b), "(begin + " << a << ") + " << b);
    if (a + b < n) {
      CHECK(iv(*k) == want[a + b]);
      CHECK(iv(i[(index_t)b]) == want[a + b]);
    }
    CHECK_M(k - i == b, "(begin + " << a + b << ") - (begin + " << a << ") = " << k - i << " of " << n);
    auto l = i;
    l += (index_t)b;
    CHECK(l == k);
    CHECK((l == i) == (b == 0));
    // Past the end.
    auto e = i + (index_t)(n - a + s.range(0, 3));
    CHECK_M(e == sp.end(), "advancing past the end");
  }
}

static i64 gen_factor(Src& s, i64 ext) {
  switch (s.weighted({4, 3, 1, 1})) {
  case 0: return s.range(1, 9);
  case 1: return s.range(1, std::max<i64>(1, ext + 2));
  case 2: return std::max<i64>(1, ext - s.range(0, 1));
  default: return std::max<i64>(1, ext / s.range(2, 4));
  }
}
static i64 gen_ext(Src& s) { return s.weighted({6, 2, 1}) == 0 ? s.range(0, 24) : s.chance(1, 2) ? s.range(0, 70) : s.range(100, 1000); }
static i64 gen_mn(Src& s) { return s.chance(1, 8) ? s.around(1000000) : s.around(30); }

PROP(runtime_factor, 1.0) {
  i64 min = gen_mn(s), ext = gen_ext(s), f = gen_factor(s, ext);
  NOTE(c, "split([" << min << "+" << ext << "), " << f << ")");
  switch (s.pick(4)) {
  case 0: return check_split(s, c, nda::split(interval<>((index_t)min, (index_t)ext), (index_t)f), min, ext, f, false);
  case 1: return check_split(s, c, nda::split(dim<>((index_t)min, (index_t)ext, 3), (index_t)f), min, ext, f, false);
  case 2: return check_split(s, c, nda::split(dense_dim<>((index_t)min, (index_t)ext), (index_t)f), min, ext, f, false);
  default: return check_split(s, c, nda::split(interval<0>(0, (index_t)ext), (index_t)f), 0, ext, f, false);
  }
}
PROP(runtime_factor_static_interval, 0.3) {
  i64 min = gen_mn(s), f = gen_factor(s, 12);
  NOTE(c, "split of a static interval by " << f);
  switch (s.pick(5)) {
  case 0: return check_split(s, c, nda::split(interval<2, 12>(), (index_t)f), 2, 12, f, false);
  case 1: return check_split(s, c, nda::split(interval<dynamic, 7>((index_t)min), (index_t)f), min, 7, f, false);
  case 2: return check_split(s, c, nda::split(dim<-3, 10, 2>(), (index_t)f), -3, 10, f, false);
  case 3: return check_split(s, c, nda::split(fixed_dim<9>((index_t)min, 9, 4), (index_t)f), min, 9, f, false);
  default: return check_split(s, c, nda::split(dense_dim<-1>(-1, 5), (index_t)f), -1, 5, f, false);
  }
}

template <index_t F>
static void fixed_factor_case(Src& s, Ctx& c) {
  i64 min = gen_mn(s), ext = F + (s.chance(1, 4) ? 0 : gen_ext(s));
  NOTE(c, "split<" << F << ">([" << min << "+" << ext << "))");
  switch (s.pick(4)) {
  case 0: return check_split(s, c, nda::split<F>(interval<>((index_t)min, (index_t)ext)), min, ext, F, true);
  case 1: return check_split(s, c, nda::split<F>(dim<>((index_t)min, (index_t)ext, -2)), min, ext, F, true);
  case 2: return check_split(s, c, nda::split<F>(dense_dim<>((index_t)min, (index_t)ext)), min, ext, F, true);
  default: return check_split(s, c, nda::split<F>(interval<-2>(-2, (index_t)ext)), -2, ext, F, true);
  }
}
PROP(fixed_factor, 1.0) {
  switch (s.pick(8)) {
  case 0: return fixed_factor_case<4>(s, c);
  case 1: return fixed_factor_case<1>(s, c);
  case 2: return fixed_factor_case<2>(s, c);
  case 3: return fixed_factor_case<3>(s, c);
  case 4: return fixed_factor_case<5>(s, c);
  case 5: return fixed_factor_case<7>(s, c);
  case 6: return fixed_factor_case<8>(s, c);
  default: return fixed_factor_case<16>(s, c);
  }
}
PROP(fixed_factor_static_interval, 0.2) {
  i64 min = gen_mn(s);
  switch (s.pick(4)) {
  case 0: return check_split(s, c, nda::split<5>(interval<2, 12>()), 2, 12, 5, true);
  case 1: return check_split(s, c, nda::split<3>(interval<dynamic, 7>((index_t)min)), min, 7, 3, true);
  case 2: return check_split(s, c, nda::split<4>(dim<-3, 10, 2>()), -3, 10, 4, true);
  default: return check_split(s, c, nda::split<9>(fixed_dim<9>((index_t)min, 9, 4)), min, 9, 9, true);
  }
}

// Tiles of a 2D array cover the array, and are views onto it.
PROP(tiles, 0.2) {
  GenOpts o;
  o.allow_empty = false;
  MS m = gen<any_shape<2>>(s, o);
  i64 fx = gen_factor(s, m[0].ext), fy = gen_factor(s, m[1].ext);
  NOTE(c, "tiles " << fx << " x " << fy << " of " << nd::str(m));
  c.nontrivial = fx < m[0].ext || fy < m[1].ext;
  nda::array<int, any_shape<2>> a(make<any_shape<2>>(m), 0);
  for (auto y : nda::split(a.y(), (index_t)fy)) {
    for (auto x : nda::split(a.x(), (index_t)fx)) {
      auto t = a(x, y);
      CHECK(!t.empty());
      t.for_each_value([](int& v) { v++; });
    }
  }
  for_each(m, [&](const Idx& i) { CHECK_M((a[index<2>(i)] == 1), nd::str(i) << " is in " << a[index<2>(i)] << " tiles"); });
}
PROP(fixed_tiles, 0.2) {
  GenOpts o;
  MS m = gen<any_shape<2>>(s, o);
  m[0].ext = s.range(3, 12);
  m[1].ext = s.range(2, 12);
  m[0].str = 1;
  m[1].str = 12;
  NOTE(c, "tiles 3 x 2 of " << nd::str(m));
  c.nontrivial = m[0].ext % 3 || m[1].ext % 2;
  nda::array<int, any_shape<2>> a(make<any_shape<2>>(m), 0);
  for (auto y : nda::split<2>(a.y())) {
    for (auto x : nda::split<3>(a.x())) {
      auto t = a(x, y);
      CHECK(t.x().extent() == 3 && t.y().extent() == 2);
      CHECK(decltype(t)::shape_type::rank() == 2);
      nda::fill(t, 1);
    }
  }
  for_each(m, [&](const Idx& i) { CHECK_M((a[index<2>(i)] == 1), nd::str(i)); });
}
