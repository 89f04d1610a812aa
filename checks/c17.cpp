// C17: make_ein_sum infers the shape of its result and sums into it.
#include "ein.h"
using namespace ein_check;

template <int Var, size_t... I>
struct opnd {
  using idx = is<I...>;
  using shape = shape_for<Var, idx>;
  static constexpr int var = Var;
};
template <size_t... I, class A>
auto call_ein(is<I...>, A a) {
  return nda::ein<I...>(std::move(a));
}
template <class Shape>
nda::const_array_ref<V, Shape> ref(const Memory& mem, const Operand& o) {
  return nda::const_array_ref<V, Shape>(mem.mem.data() + o.base, make<Shape>(o.m));
}
template <class E, size_t... K>
V eval(const E& e, const V* v, std::index_sequence<K...>) {
  return e(v[K]...);
}

// An allocator with an identity that counts its blocks.
namespace {  // (several translation units of this file are linked)
int g_live = 0;
template <class T>
struct IdAlloc {
  using value_type = T;
  int id = 0;
  IdAlloc() {}
  explicit IdAlloc(int id) : id(id) {}
  template <class U>
  IdAlloc(const IdAlloc<U>& o) : id(o.id) {}
  T* allocate(size_t n) { g_live++; return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { g_live--; std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const IdAlloc& a, const IdAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const IdAlloc& a, const IdAlloc& b) { return a.id != b.id; }
};
}  // namespace

// The first operand dim that is addressed by loop dimension I.
struct First {
  bool found = false;
  SD sd;
  i64 min = 0, ext = 1;
};
template <class O>
void first(First& f, size_t i, const Operand& op) {
  std::vector<SD> sd = statics<typename O::shape>();
  for (size_t p = 0; p < op.is.size(); p++) {
    if (op.is[p] != i || f.found) continue;
    f.found = true;
    f.sd = sd[p];
    f.min = op.m[p].min;
    f.ext = op.m[p].ext;
  }
}

template <class Shape>
void check_shape(const Shape& sh, const std::vector<First>& dims) {
  std::vector<SD> st = statics<Shape>();
  CHECK_IEQ(Shape::rank(), dims.size());
  MS want;
  for (size_t d = 0; d < dims.size(); d++) {
    // Static bounds stay static.
    if (dims[d].sd.smin) CHECK_M(st[d].smin && st[d].min == dims[d].sd.min, "the min of dim " << d << " is not static in " << type_name<Shape>());
    if (dims[d].sd.sext) CHECK_M(st[d].sext && st[d].ext == dims[d].sd.ext, "the extent of dim " << d << " is not static in " << type_name<Shape>());
    want.push_back(MD{dims[d].min, dims[d].ext, UNRES});
  }
  MS got = model(sh);
  CHECK_M(same_bounds(got, want), "shape " << str(got) << ", expected the bounds of " << str(want));
  bool all_found = true;
  for (const First& f : dims) all_found = all_found && f.found;
  if (all_found && !nd::empty(want)) {
    // Compact, dim 0 innermost.
    resolve(want);
    CHECK_M(got == want, "shape " << str(got) << ", expected " << str(want));
  }
  if (nd::empty(want)) return;
  CHECK(sh.is_compact());
  CHECK(sh.is_one_to_one());
}

// R: is<result indices>.
template <class R, class... O, class E, size_t... N, size_t... RI>
static void kernel_impl(Src& s, Ctx& c, const E& e, std::index_sequence<N...>, is<RI...>) {
  Loops l;
  for (size_t i : R::list()) l.in_result[i] = true;
  int dummy[] = {0, (l.add<typename O::shape, typename O::idx>(false), 0)...};
  (void)dummy;
  l.gen(s);
  Memory mem;
  std::vector<Operand> ops;
  {
    // The first operand of an index decides; the others may be larger.
    Loops strict = l;
    auto one = [&](auto o) {
      using Op = decltype(o);
      Loops cur = l;
      for (size_t i : Op::idx::list()) cur.exact[i] = cur.exact[i] || !l.used[i + 0] || strict.used[i];
      ops.push_back(gen_operand<typename Op::shape, typename Op::idx>(s, c, cur, mem, false));
      for (size_t i : Op::idx::list()) strict.used[i] = false;
    };
    int d2[] = {0, (one(O()), 0)...};
    (void)d2;
  }
  mem.fill(s);
  const std::vector<V> before = mem.mem;
  // The model.
  std::vector<First> dims;
  for (size_t i : R::list()) {
    First f;
    int d3[] = {0, (first<O>(f, i, ops[N]), 0)...};
    (void)d3;
    dims.push_back(f);
  }
  const int how = (int)s.pick(3);
  V init = how ? V(s.draw(1000) + 7) : V();
  std::map<Idx, V> want;
  MS rm;
  for (const First& f : dims) rm.push_back(MD{f.min, f.ext, 0});
  for_each(rm, [&](const Idx& i) { want[i] = init; });
  i64 iterations = 0;
  l.run([&](const Idx& loop) {
    V v[8];
    size_t k = 0;
    for (const Operand& o : ops) v[k++] = before[o.at(loop)];
    want[select(R::list(), loop)] += eval(e, v, std::make_index_sequence<sizeof...(O)>());
    iterations++;
  });
  c.nontrivial = iterations > 1;
  c.cls(iterations == 0, "empty space");
  c.cls(how == 0 ? "default init" : how == 1 ? "init" : "init and allocator");
  NOTE(c, "result (" << str(Idx{(i64)RI...}) << ") init " << init);
  // The real thing.
  const Memory& cmem = mem;
  auto expr = e(call_ein(typename O::idx(), ref<typename O::shape>(cmem, ops[N]))...);
  auto sh = nda::make_ein_reduce_shape<RI...>(expr);
  check_shape(sh, dims);
  auto compare = [&](const auto& r) {
    check_shape(r.shape(), dims);
    CHECK(model(r.shape()) == model(sh));
    using Shape = typename std::decay<decltype(r)>::type::shape_type;
    static_assert(std::is_same<Shape, typename std::decay<decltype(sh)>::type>::value, "make_ein_reduce_shape must return the shape of make_ein_sum");
    static_assert(std::is_same<typename std::decay<decltype(r)>::type::value_type, V>::value, "the value_type must be T");
    for (const auto& w : want) CHECK_M(call<Shape::rank()>(r, w.first) == w.second, "the element at " << str(w.first) << " is wrong");
    CHECK_IEQ(r.size(), want.size());
  };
  g_live = 0;
  if (how == 0) {
    compare(nda::make_ein_sum<V, RI...>(expr));
  } else if (how == 1) {
    compare(nda::make_ein_sum<V, RI...>(expr, init));
  } else {
    int id = (int)s.range(1, 9);
    auto r = nda::make_ein_sum<V, RI...>(expr, init, IdAlloc<V>(id));
    static_assert(std::is_same<typename decltype(r)::allocator_type, IdAlloc<V>>::value, "the allocator must be the given one");
    CHECK_IEQ(r.get_allocator().id, id);
    compare(r);
  }
  CHECK_IEQ(g_live, 0);
  CHECK_M(mem.mem == before, "an operand was written");
}
template <class R, class... O, class E>
static void kernel(Src& s, Ctx& c, const E& e) {
  kernel_impl<R, O...>(s, c, e, std::make_index_sequence<sizeof...(O)>(), R());
}

#define KERNEL3(name, K1, K2, K3) \
  PROP(name, 1.0) { \
    switch (s.pick(3)) { \
    case 0: K1; break; \
    case 1: K2; break; \
    default: K3; \
    } \
  }

static const auto same = [](const auto& a) { return a; };
static const auto neg = [](const auto& a) { return -a; };
static const auto product = [](const auto& a, const auto& b) { return a * b; };
static const auto dot = [](const auto& x, const auto& y, const auto& z) { return (x + y) * z; };
static const auto mixed = [](const auto& x, const auto& y, const auto& z) { return mn(x, -y) / cst<V>(z) - x; };

#if PART == 0
KERNEL3(matrix_products,
    (kernel<is<0, 1>, opnd<0, 0, 2>, opnd<0, 2, 1>>(s, c, product)),
    (kernel<is<1, 0>, opnd<3, 0, 2>, opnd<3, 2, 1>>(s, c, product)),
    (kernel<is<0, 1>, opnd<2, 0, 2>, opnd<0, 2, 1>>(s, c, product)))
KERNEL3(diagonals_and_traces,
    (kernel<is<>, opnd<0, 0, 0>>(s, c, same)),
    (kernel<is<0>, opnd<0, 0, 0>>(s, c, neg)),
    (kernel<is<1>, opnd<2, 1, 1>>(s, c, same)))
#endif
#if PART == 1
KERNEL3(scalars,
    (kernel<is<>, opnd<0, 0>, opnd<1, 0>, opnd<3, 0>>(s, c, dot)),
    (kernel<is<>, opnd<2, 0, 1>, opnd<0>, opnd<0, 1, 0>>(s, c, dot)),
    (kernel<is<>, opnd<0, 3, 1>, opnd<0, 1>>(s, c, product)))
KERNEL3(transposes,
    (kernel<is<1, 0>, opnd<0, 0, 1>>(s, c, same)),
    (kernel<is<2, 0, 1>, opnd<2, 0, 1, 2>>(s, c, neg)),
    (kernel<is<0, 1, 2>, opnd<3, 2, 1, 0>>(s, c, same)))
#endif
#if PART == 2
KERNEL3(outer_products,
    (kernel<is<0, 1, 2>, opnd<0, 0>, opnd<0, 1>, opnd<0, 2>>(s, c, dot)),
    (kernel<is<2, 0, 1>, opnd<3, 1, 0>, opnd<1, 1, 2>, opnd<0, 0, 2>>(s, c, mixed)),
    (kernel<is<0, 2>, opnd<0, 0, 1>, opnd<0, 2, 1>, opnd<2, 2>>(s, c, mixed)))
KERNEL3(partial_sums,
    (kernel<is<1>, opnd<0, 0, 1, 2>>(s, c, same)),
    (kernel<is<2, 0>, opnd<0, 2, 1, 0, 3>, opnd<0, 3, 1>>(s, c, product)),
    (kernel<is<4>, opnd<1, 4, 0>, opnd<2, 0>>(s, c, product)))
#endif
#if PART == 3
// A result index that no operand has is a dimension of one element.
KERNEL3(extra_result_dims,
    (kernel<is<0, 1>, opnd<0, 0>>(s, c, same)),
    (kernel<is<1, 0>, opnd<2, 0, 2>>(s, c, neg)),
    (kernel<is<3>, opnd<0, 0>, opnd<0, 1>>(s, c, product)))
// With callables, scalars and C arrays as operands, and numbers.
PROP(other_operands, 1.0) {
  i64 n = s.range(1, 7), m = s.range(1, 7), mn_ = s.around(9);
  nda::array_of_rank<int, 2> a(nda::shape_of_rank<2>(nda::interval<>((index_t)mn_, (index_t)n), (index_t)m));
  int k = 0;
  a.for_each_value([&](int& v) { v = (k++ * 37) % 101; });
  int ca[4] = {3, 5, -7, 11};
  const int sc = (int)s.around(100);
  auto f = [](index_t x, index_t y) { return (int)(x * 10 + y); };
  c.nontrivial = n * m > 1;
  NOTE(c, n << "x" << m << " min " << mn_);
  auto r = nda::make_ein_sum<long long, 3, 0>(nda::ein<0, 1>(a) * nda::ein<3>(ca) + nda::ein(sc) - nda::ein<3, 0>(f), 1000ll);
  CHECK((model(r.shape()) == MS{{0, 4, 1}, {mn_, n, 4}}));
  for (i64 q = 0; q < 4; q++) {
    for (i64 i = 0; i < n; i++) {
      long long want = 1000;
      for (i64 j = 0; j < m; j++) want += a(i + mn_, j) * ca[q] + sc - f(q, i + mn_);
      CHECK_IEQ(r((index_t)q, (index_t)(i + mn_)), want);
    }
  }
  int total = nda::make_ein_sum<int>(nda::ein<1, 0>(a) + nda::ein<>([&] { return sc; }), 5);
  int want = 5;
  a.for_each_value([&](int v) { want += v + sc; });
  CHECK_IEQ(total, want);
}
// The sum is in T, whatever the types of the operands: each term is converted as += does.
template <class T, class TA, class TB>
static void sum_types_of(Src& s, Ctx& c) {
  const i64 n = s.range(1, 5), m = s.range(1, 6), base = s.around(3);
  using A = nda::array<TA, nda::shape_of_rank<2>>;
  A a(nda::shape_of_rank<2>((index_t)n, nda::interval<>((index_t)base, (index_t)m)));
  nda::array<TB, nda::dense_shape<1>> b(nda::dense_shape<1>(nda::dense_dim<>((index_t)base, (index_t)m)));
  a.for_each_value([&](TA& x) { x = (TA)(s.chance(1, 3) ? 127 : s.range(0, 9)); });
  b.for_each_value([&](TB& x) { x = (TB)(s.chance(1, 3) ? 127 : s.range(0, 9)); });
  const T init = (T)s.range(0, 50);
  c.nontrivial = n * m > 1;
  NOTE(c, n << "x" << m << " min " << base << ", types of " << sizeof(TA) << " and " << sizeof(TB) << " to " << sizeof(T) << " bytes");
  auto r = nda::make_ein_sum<T, 0>(nda::ein<0, 1>(a) * nda::ein<1>(b) - -nda::ein<1>(b), init);
  static_assert(std::is_same<typename decltype(r)::value_type, T>::value, "the result must have elements of type T");
  CHECK((model(r.shape()) == MS{{0, n, 1}}));
  T total = init;
  for (i64 i = 0; i < n; i++) {
    T want = init;
    for (i64 j = base; j < base + m; j++) {
      const TA x = a(i, j);
      const TB y = b(j);
      want += x * y - -y;
      total += x;
    }
    CHECK_M(r((index_t)i) == want, "element " << i << " is " << (double)r((index_t)i) << ", not " << (double)want);
  }
  T sum = nda::make_ein_sum<T>(nda::ein<1, 0>(a), init);
  if (!(std::is_floating_point<T>::value)) CHECK_M(sum == total, "the sum is " << (double)sum << ", not " << (double)total);
}
PROP(sum_types, 0.5) {
  switch (s.pick(5)) {
  case 0: return sum_types_of<long long, signed char, signed char>(s, c);
  case 1: return sum_types_of<unsigned char, int, short>(s, c);
  case 2: return sum_types_of<double, unsigned char, signed char>(s, c);
  case 3: return sum_types_of<int, float, unsigned char>(s, c);
  default: return sum_types_of<float, int, double>(s, c);
  }
}
#endif
