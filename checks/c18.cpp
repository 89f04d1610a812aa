// C18: z-order traversal visits every point exactly once, in z-curve order.
#include "array/z_order.h"
#include "nd.h"
using namespace nd;

// The position of a point on the z-curve: the bits of its coordinates, interleaved, the most
// significant bits first, and the last coordinate first among bits of equal significance.
using Key = unsigned __int128;
static Key position(const Idx& a) {
  Key k = 0;
  for (size_t d = 0; d < a.size(); d++) {
    for (int bit = 0; a[d] >> bit; bit++) {
      if ((a[d] >> bit) & 1) k |= (Key)1 << (bit * a.size() + d);
    }
  }
  return k;
}

static i64 gen_length(Src& s, i64 room) {
  i64 n;
  switch (s.weighted({5, 3, 1, 1})) {
  case 0: n = s.range(1, 9); break;
  case 1: {
    const i64 p[] = {2, 4, 8, 16, 32, 64, 128};
    n = p[s.pick(7)] + s.around(1);
    break;
  }
  case 2: n = s.range(0, 1); break;
  default: n = s.range(1, 300);
  }
  return std::min(n, std::max<i64>(1, room));
}

// The positions that must be visited, in order.
static std::vector<Idx> curve(const std::vector<i64>& n) {
  MS m(n.size());
  for (size_t d = 0; d < n.size(); d++) m[d] = MD{0, n[d], 0};
  std::vector<Idx> all;
  std::vector<std::pair<Key, size_t>> order;
  for_each(m, [&](const Idx& i) {
    order.emplace_back(position(i), all.size());
    all.push_back(i);
  });
  std::sort(order.begin(), order.end());
  std::vector<Idx> r;
  for (const auto& o : order) r.push_back(std::move(all[o.second]));
  return r;
}

static void note(Ctx& c, const std::vector<i64>& n) {
  NOTE(c, "lengths " << str(n));
  bool equal = true, pow2 = true, empty = false;
  int longer = 0;
  for (i64 x : n) {
    equal = equal && x == n[0];
    pow2 = pow2 && x > 0 && (x & (x - 1)) == 0;
    empty = empty || x == 0;
    longer += x > 1;
  }
  c.cls(equal, "equal lengths");
  c.cls(!pow2, "not powers of two");
  c.cls(empty, "empty");
  c.nontrivial = longer >= 2 || (n.size() == 1 && n[0] > 2);
}
static void compare(const std::vector<Idx>& got, const std::vector<Idx>& want) {
  for (size_t i = 0; i < got.size() && i < want.size(); i++) {
    CHECK_M(got[i] == want[i], "visit " << i << " is of position " << str(got[i]) << " instead of " << str(want[i]));
  }
  CHECK_M(got.size() == want.size(), got.size() << " visits instead of " << want.size());
}

// ---- intervals
template <size_t R, size_t... I>
static void intervals(Src& s, Ctx& c, std::index_sequence<I...>) {
  std::vector<i64> n, mn;
  const i64 most = s.chance(1, 8) ? 3000 : 400;
  i64 room = most;
  for (size_t d = 0; d < R; d++) {
    n.push_back(gen_length(s, room));
    room /= std::max<i64>(1, n.back());
    mn.push_back(s.chance(1, 2) ? 0 : s.around(50));
  }
  note(c, n);
  NOTE(c, "mins " << str(mn));
  auto ranges = std::make_tuple(nda::interval<>((index_t)mn[I], (index_t)n[I])...);
  std::vector<Idx> got;
  const i64 limit = 4 * most;
  if (s.chance(1, 2)) {
    nda::for_each_in_z_order(ranges, [&](const nda::index_of_rank<R>& i) {
      got.push_back(from_index(i));
      CHECK((i64)got.size() < limit);
    });
  } else {
    nda::for_all_in_z_order(ranges, [&](std::enable_if_t<(I < 100), index_t>... i) {
      got.push_back(Idx{(i64)i...});
      CHECK((i64)got.size() < limit);
    });
  }
  for (Idx& g : got) {
    for (size_t d = 0; d < R; d++) {
      CHECK_M(g[d] >= mn[d] && g[d] < mn[d] + n[d], "a visit of " << str(g) << " outside of the ranges");
      g[d] -= mn[d];
    }
  }
  compare(got, curve(n));
}
template <size_t R>
static void intervals_of(Src& s, Ctx& c) {
  intervals<R>(s, c, std::make_index_sequence<R>());
}
#if PART == 0
PROP(one_to_three_intervals, 1.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {intervals_of<2>, intervals_of<3>, intervals_of<1>};
  fns[s.pick(3)](s, c);
}
PROP(four_to_six_intervals, 0.4) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {intervals_of<4>, intervals_of<5>, intervals_of<6>};
  fns[s.pick(3)](s, c);
}
#endif

#if PART == 1
// ---- other ranges: splits, dims, static intervals, containers
PROP(splits, 1.0) {
  i64 ex = s.range(1, 60), ey = s.range(1, 60), mx = s.around(20), my = s.around(20);
  i64 fx = s.range(1, std::min<i64>(ex, 12));
  ey = std::max<i64>(ey, 4);
  NOTE(c, "split(" << mx << "+" << ex << ", " << fx << "), split<4>(" << my << "+" << ey << ")");
  auto sx = nda::split(nda::interval<>((index_t)mx, (index_t)ex), (index_t)fx);
  auto sy = nda::split<4>(nda::interval<>((index_t)my, (index_t)ey));
  std::vector<std::pair<i64, i64>> x, y;
  for (auto i : sx) x.push_back({i.min(), i.extent()});
  for (auto i : sy) y.push_back({i.min(), i.extent()});
  std::vector<i64> n = {(i64)x.size(), (i64)y.size()};
  note(c, n);
  std::vector<std::array<i64, 4>> got, want;
  nda::for_all_in_z_order(std::make_tuple(sx, sy), [&](const nda::interval<>& i, const nda::fixed_interval<4>& j) {
    got.push_back({{i.min(), i.extent(), j.min(), j.extent()}});
    CHECK(got.size() < 20000);
  });
  for (const Idx& p : curve(n)) want.push_back({{x[p[0]].first, x[p[0]].second, y[p[1]].first, y[p[1]].second}});
  CHECK_IEQ(got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) CHECK_M(got[i] == want[i], "visit " << i << " is of tile " << got[i][0] << "," << got[i][2]);
}
PROP(mixed_ranges, 1.0) {
  std::vector<i64> n = {gen_length(s, 40), gen_length(s, 40), 5, gen_length(s, 4)};
  note(c, n);
  nda::dim<dynamic, dynamic, 3> d((index_t)-7, (index_t)n[0], 3);
  std::vector<int> v;
  for (i64 i = 0; i < n[1]; i++) v.push_back((int)(100 + i * i));
  nda::interval<2, 5> st;
  nda::interval<10> half(10, (index_t)n[3]);
  std::vector<Idx> got;
  auto ranges = std::make_tuple(d, v, st, half);
  if (s.chance(1, 2)) {
    nda::for_all_in_z_order(ranges, [&](index_t a, int b, index_t e, index_t f) {
      got.push_back({a, b, e, f});
      CHECK(got.size() < 100000);
    });
  } else {
    nda::for_each_in_z_order(ranges, [&](const std::tuple<index_t, int, index_t, index_t>& t) {
      got.push_back({std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)});
      CHECK(got.size() < 100000);
    });
  }
  std::vector<Idx> want;
  for (const Idx& p : curve(n)) want.push_back({p[0] - 7, v[p[1]], p[2] + 2, p[3] + 10});
  compare(got, want);
}
// Long and thin.
PROP(long_ranges, 0.3) {
  std::vector<i64> n = {s.range(1, 5000), s.range(1, 3)};
  if (s.chance(1, 2)) std::swap(n[0], n[1]);
  note(c, n);
  std::vector<Idx> got;
  nda::for_all_in_z_order(std::make_tuple(nda::interval<>(0, (index_t)n[0]), nda::interval<>(0, (index_t)n[1])), [&](index_t x, index_t y) {
    got.push_back({x, y});
    CHECK(got.size() < 40000);
  });
  compare(got, curve(n));
}
// So long that the position on the curve of the longest range needs more than 16 bits.
PROP(very_long_ranges, 0.01) {
  const i64 p[] = {32768, 65536, 131072, 262144};
  i64 n[2] = {s.chance(1, 2) ? p[s.pick(4)] + s.range(0, 3) : s.range(20000, 300000), 1};
  const int how = (int)s.pick(3);
  if (how) n[1] = s.range(1, 2);
  if (how == 2) std::swap(n[0], n[1]);
  note(c, std::vector<i64>(n, n + 2));
  // A point as x + (y << 32), its position on the curve with the bits of x below the ones of y.
  typedef uint64_t u64;
  std::vector<u64> got;
  auto fn = [&](index_t x, index_t y) {
    got.push_back((u64)x + ((u64)y << 32));
    CHECK(got.size() < 4000000);
  };
  if (how == 0) nda::for_all_in_z_order(std::make_tuple(nda::interval<>(0, (index_t)n[0])), [&](index_t x) { fn(x, 0); });
  else nda::for_all_in_z_order(std::make_tuple(nda::interval<>(0, (index_t)n[0]), nda::interval<>(0, (index_t)n[1])), fn);
  std::vector<std::pair<u64, u64>> want;
  for (u64 y = 0; y < (u64)n[1]; y++) {
    for (u64 x = 0; x < (u64)n[0]; x++) {
      u64 key = 0;
      for (int b = 0; b < 20; b++) key |= (x >> b & 1) << (2 * b) | (y >> b & 1) << (2 * b + 1);
      want.push_back({key, x + (y << 32)});
    }
  }
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i < got.size() && i < want.size(); i++)
    CHECK_M(got[i] == want[i].second, "visit " << i << " is of " << (got[i] & 0xffffffff) << "," << (got[i] >> 32));
  CHECK_IEQ(got.size(), want.size());
}
#endif
