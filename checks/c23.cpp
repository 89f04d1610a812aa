// C23: rational arithmetic is exact.
#include <cmath>
#include "examples/resample/rational.h"
#include "pbt.h"
using namespace pbt;
using i64 = int64_t;
using i128 = __int128;

// An exact fraction, reduced, with a positive denominator.
struct Q {
  i128 n, d;
};
static i128 gcd_(i128 a, i128 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}
static Q q(i128 n, i128 d = 1) {
  i128 g = gcd_(n, d);
  if (d < 0) g = -g;
  return {n / g, d / g};
}
static i128 floor_(i128 a, i128 b) { return a / b - (a % b != 0 && (a < 0) != (b < 0)); }
static Q add(Q a, Q b) { return q(a.n * b.d + b.n * a.d, a.d * b.d); }
static Q sub(Q a, Q b) { return q(a.n * b.d - b.n * a.d, a.d * b.d); }
static Q mul(Q a, Q b) { return q(a.n * b.n, a.d * b.d); }
static Q div_(Q a, Q b) { return q(a.n * b.d, a.d * b.n); }
static int cmp(Q a, Q b) {
  i128 x = a.n * b.d - b.n * a.d;
  return x < 0 ? -1 : x > 0;
}
static std::string str(Q a) { return std::to_string((i64)a.n) + "/" + std::to_string((i64)a.d); }

// The largest numerator or denominator such that all intermediate products fit in T.
template <class T>
static i128 bound() {
  return sizeof(T) == 4 ? (i128)1 << 14 : (i128)1 << 30;
}
template <class T>
static bool fits(Q a) {
  return a.n <= bound<T>() && a.n >= -bound<T>() && a.d <= bound<T>();
}
template <class T>
static void same(const rational<T>& r, Q want, const char* what) {
  CHECK_M(r.numerator() == want.n && r.denominator() == want.d,
      what << " is " << r.numerator() << "/" << r.denominator() << " instead of " << str(want));
}

template <class T>
static T gen_int(Src& s, T lim) {
  switch (s.weighted({5, 2, 2, 1})) {
  case 0: return (T)s.around(std::min<i64>(12, lim));
  case 1: return (T)s.around(lim);
  case 2: {
    // A number with many divisors.
    T x = 1;
    for (int k = (int)s.range(0, 6); k > 0; k--) {
      const int p[] = {2, 3, 5, 7};
      T y = x * p[s.pick(4)];
      if (y <= lim) x = y;
    }
    return s.chance(1, 2) ? -x : x;
  }
  default: return s.chance(1, 2) ? -lim : lim;
  }
}
template <class T>
struct V {
  rational<T> r;
  Q q;
};
template <class T>
static V<T> gen_value(Src& s, Ctx& c) {
  const T lim = (T)bound<T>();
  T n = gen_int<T>(s, lim);
  if (s.chance(1, 4)) {
    NOTE(c, "value " << n);
    V<T> v{rational<T>(n), q(n)};
    same(v.r, v.q, "the integer");
    return v;
  }
  T d = gen_int<T>(s, lim);
  if (d < 0) d = -d;
  if (d == 0) d = 1;
  NOTE(c, "value " << n << "/" << d);
  V<T> v{rational<T>(n, d), q(n, d)};
  same(v.r, v.q, "the fraction");
  return v;
}

template <class T>
static void functions(Ctx& c, const V<T>& v) {
  const Q a = v.q;
  CHECK_EQ((i64)floor(v.r), (i64)floor_(a.n, a.d));
  CHECK_EQ((i64)ceil(v.r), (i64)-floor_(-a.n, a.d));
  CHECK_EQ((i64)round(v.r), (i64)floor_(2 * a.n + a.d, 2 * a.d));
  same(frac(v.r), q(a.n - floor_(a.n, a.d) * a.d, a.d), "frac");
  float f = to_float(v.r), want = (float)((double)a.n / (double)a.d);
  CHECK_M(std::abs(f - want) <= std::abs(want) * 3e-7f, "to_float is " << f << " instead of " << want);
}
template <class T>
static void compare(const V<T>& a, const V<T>& b) {
  int k = cmp(a.q, b.q);
  CHECK_EQ(a.r < b.r, k < 0);
  CHECK_EQ(a.r <= b.r, k <= 0);
  CHECK_EQ(a.r > b.r, k > 0);
  CHECK_EQ(a.r >= b.r, k >= 0);
  CHECK_EQ(a.r == b.r, k == 0);
  CHECK_EQ(a.r != b.r, k != 0);
  same(min(a.r, b.r), k < 0 ? a.q : b.q, "min");
  same(max(a.r, b.r), k > 0 ? a.q : b.q, "max");
}

// A history of arithmetic on a few registers.
template <class T>
static void history(Src& s, Ctx& c) {
  std::vector<V<T>> reg;
  int n = (int)s.range(2, 4);
  for (int i = 0; i < n; i++) reg.push_back(gen_value<T>(s, c));
  int steps = (int)s.range(1, 12), done = 0;
  for (int i = 0; i < steps; i++) {
    const V<T> a = reg[s.pick(reg.size())], b = reg[s.pick(reg.size())];
    const size_t to = s.pick(reg.size());
    const bool scalar = s.chance(1, 3);  // an integer on the left
    T k = scalar ? gen_int<T>(s, 64) : 0;
    const Q x = scalar ? q(k) : a.q;
    Q y;
    const size_t op = s.pick(4);
    if (op == 3 && b.q.n <= 0) continue;  // (a denominator that is not positive)
    y = op == 0 ? add(x, b.q) : op == 1 ? sub(x, b.q) : op == 2 ? mul(x, b.q) : div_(x, b.q);
    if (!fits<T>(y)) {
      c.cls("overflow skipped");
      continue;
    }
    NOTE(c, (scalar ? std::to_string(k) : str(a.q)) << " " << "+-*/"[op] << " " << str(b.q));
    rational<T> r = scalar ? (op == 0 ? k + b.r : op == 1 ? k - b.r : op == 2 ? k * b.r : k / b.r)
                           : (op == 0 ? a.r + b.r : op == 1 ? a.r - b.r : op == 2 ? a.r * b.r : a.r / b.r);
    same(r, y, "the result");
    done++;
    reg[to] = V<T>{r, y};
    functions(c, reg[to]);
    compare(reg[to], reg[s.pick(reg.size())]);
    c.cls(y.n < 0, "negative");
    c.cls(y.d > 1, "not an integer");
  }
  c.nontrivial = done >= 2;
}
PROP(history_int, 1.0) { history<int>(s, c); }
PROP(history_int64, 1.0) {
  if (s.chance(1, 2)) {
    history<long>(s, c);
  } else {
    history<long long>(s, c);
  }
}

// The integer functions.
template <class T>
static void euclid(Src& s, Ctx& c) {
  T lim = (T)bound<T>();
  T a = gen_int<T>(s, lim), b = gen_int<T>(s, lim);
  if (b == 0) b = 1;
  if (s.chance(1, 4)) a = b * (T)s.around(9);
  NOTE(c, a << " and " << b);
  T d = euclidean_div(a, b), m = euclidean_mod(a, b);
  CHECK_EQ(d * b + m, a);
  CHECK_M(m >= 0 && m < std::abs(b), "the remainder is " << m);
  T g = gcd(a, b);
  CHECK_EQ((i64)std::abs(g), (i64)gcd_(a, b));
  c.nontrivial = a != 0 && std::abs(b) > 1;
  c.cls(a < 0 && b < 0, "both negative");
  V<T> v{rational<T>(a, std::abs(b)), q(a, std::abs(b))};
  same(v.r, v.q, "the fraction");
  functions(c, v);
}
PROP(euclidean, 1.0) {
  if (s.chance(1, 2)) {
    euclid<int>(s, c);
  } else {
    euclid<long>(s, c);
  }
}

// Denominators that are negative, and divisions by negative values.
PROP(negative_denominators, 0.1) {
  using T = long;
  V<T> a = gen_value<T>(s, c), b = gen_value<T>(s, c);
  c.nontrivial = true;
  if (s.chance(1, 2)) {
    T n = gen_int<T>(s, 1000), d = -(T)s.range(1, 1000);
    NOTE(c, n << "/" << d);
    a = V<T>{rational<T>(n, d), q(n, d)};
    c.known("negative-denominator");
    same(a.r, a.q, "the fraction");
  } else {
    if (b.q.n > 0) b = V<T>{rational<T>(0) - b.r, q(-b.q.n, b.q.d)};
    if (b.q.n == 0) return;
    if (!fits<T>(div_(a.q, b.q))) return;
    NOTE(c, str(a.q) << " / " << str(b.q));
    c.known("negative-denominator");
    a = V<T>{a.r / b.r, div_(a.q, b.q)};
    same(a.r, a.q, "the quotient");
  }
  functions(c, a);
  compare(a, b);
}
