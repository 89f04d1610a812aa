// C16: Einstein reductions equal the loop nest they denote.
#include <complex>
#include "array/image.h"
#include "ein.h"
using namespace ein_check;

// An operand (or the result): a variant of static parameters and loop indices.
template <int Var, size_t... I>
struct opnd {
  using idx = is<I...>;
  using shape = shape_for<Var, idx>;
  static constexpr int var = Var;
};

template <size_t... I, class A>
auto call_ein(is<I...>, A a) {
  return nda::ein<I...>(a);
}
template <class Shape>
nda::array_ref<V, Shape> ref(Memory& mem, const Operand& o, std::false_type) {
  return nda::array_ref<V, Shape>(mem.mem.data() + o.base, make<Shape>(o.m));
}
template <class Shape>
nda::const_array_ref<V, Shape> ref(Memory& mem, const Operand& o, std::true_type) {
  return nda::const_array_ref<V, Shape>(mem.mem.data() + o.base, make<Shape>(o.m));
}
template <class E, size_t... K>
V eval(const E& e, const V* v, std::index_sequence<K...>) {
  return e(v[K]...);
}
template <class E, class R, class... O>
auto apply(std::true_type, const E& e, const R& r, const O&... o) {
  return e(r, o...);
}
template <class E, class R, class... O>
auto apply(std::false_type, const E& e, const R&, const O&... o) {
  return e(o...);
}
static void compare(const std::vector<V>& got, const std::vector<V>& want, i64 base) {
  for (size_t i = 0; i < want.size(); i++) {
    CHECK_M(got[i] == want[i], "the element at offset " << (i64)i - base << " from the result is wrong");
  }
}

// All operands are in one memory; if `Self`, the result is the first argument of the expression
// too; if `alias`, operands may overlap the result.
template <bool Self, Assign K, class R, class... O, class E, size_t... N>
static void kernel_impl(Src& s, Ctx& c, const E& e, bool alias, std::index_sequence<N...>) {
  using RShape = typename R::shape;
  Loops l;
  l.add<RShape, typename R::idx>(true);
  int dummy[] = {0, (l.add<typename O::shape, typename O::idx>(false), 0)...};
  (void)dummy;
  l.gen(s);
  Memory mem;
  Operand r = gen_operand<RShape, typename R::idx>(s, c, l, mem, true);
  if (R::var == 0 && R::idx::rank > 0 && s.chance(1, 12)) {
    size_t p = s.pick(R::idx::rank);
    if (r.m[p].ext > 0 && r.m[p].str > 0) {
      r.m[p].str = 0;
      l.exact[r.is[p]] = true;
      c.cls("broadcast result");
      NOTE(c, "the stride of dim " << p << " of the result is 0");
    }
  }
  const size_t n = sizeof...(O);
  // (braces: in order)
  std::vector<Operand> ops{gen_operand<typename O::shape, typename O::idx>(s, c, l, mem, false)...};
  if (alias && n > 0 && s.chance(1, 6)) {
    size_t k = s.pick(n);
    i64 lo = nd::empty(ops[k].m) ? 0 : flat_min(ops[k].m), hi = nd::empty(ops[k].m) ? 0 : flat_max(ops[k].m);
    i64 b = std::max(r.base + s.around(3), -lo);
    if (b + hi < (i64)mem.mem.size()) {
      ops[k].base = b;
      c.cls("operand aliases the result");
      NOTE(c, "operand " << k << " begins at offset " << b - r.base << " from the result");
    }
  }
  mem.fill(s);
  std::vector<V> want = mem.mem;
  i64 iterations = 0;
  l.run([&](const Idx& loop) {
    V v[8];
    size_t k = 0;
    if (Self) v[k++] = want[r.at(loop)];
    for (const Operand& o : ops) v[k++] = want[o.at(loop)];
    assign<K>::model(want[r.at(loop)], eval(e, v, std::make_index_sequence<n + (Self ? 1 : 0)>()));
    iterations++;
  });
  c.nontrivial = iterations > 1;
  c.cls(iterations == 0, "empty space");
  auto rr = ref<RShape>(mem, r, std::false_type());
  auto le = call_ein(typename R::idx(), rr);
  auto rhs = apply(std::integral_constant<bool, Self>(), e, le,
      call_ein(typename O::idx(), ref<typename O::shape>(mem, ops[N], std::integral_constant<bool, N % 2 == 1>()))...);
  auto back = nda::ein_reduce(assign<K>::expr(le, rhs));
  CHECK(back.base() == rr.base());
  CHECK(back.shape() == rr.shape());
  compare(mem.mem, want, r.base);
}
template <bool Self, Assign K, class R, class... O, class E>
static void kernel(Src& s, Ctx& c, const E& e, bool alias = true) {
  kernel_impl<Self, K, R, O...>(s, c, e, alias, std::make_index_sequence<sizeof...(O)>());
}

// A kernel with three choices of static parameters.
#define KERNEL3(name, K1, K2, K3) \
  PROP(name, 1.0) { \
    switch (s.pick(3)) { \
    case 0: K1; break; \
    case 1: K2; break; \
    default: K3; \
    } \
  }

#if PART == 0
static const auto product = [](const auto& a, const auto& b) { return a * b; };
KERNEL3(matrix_product,
    (kernel<false, Add, opnd<0, 0, 1>, opnd<0, 0, 2>, opnd<0, 2, 1>>(s, c, product)),
    (kernel<false, Add, opnd<3, 0, 1>, opnd<3, 0, 2>, opnd<3, 2, 1>>(s, c, product)),
    (kernel<false, Sub, opnd<2, 1, 0>, opnd<1, 0, 2>, opnd<0, 2, 1>>(s, c, product)))
static const auto same = [](const auto& a) { return a; };
static const auto neg = [](const auto& a) { return -a; };
KERNEL3(diagonals,
    (kernel<false, Set, opnd<0, 0>, opnd<0, 0, 0>>(s, c, same)),
    (kernel<false, Add, opnd<0>, opnd<2, 0, 0>>(s, c, neg)),
    (kernel<false, Mul, opnd<0, 1, 1>, opnd<0, 0, 1>>(s, c, same)))
KERNEL3(transposes,
    (kernel<false, Set, opnd<0, 0, 1>, opnd<0, 1, 0>>(s, c, same)),
    (kernel<false, Set, opnd<3, 1, 0, 2>, opnd<1, 0, 2, 1>>(s, c, neg)),
    (kernel<false, Set, opnd<1, 2, 1, 0>, opnd<2, 0, 1, 2>>(s, c, same)))
#endif
#if PART == 1
static const auto dot = [](const auto& x, const auto& y, const auto& z) { return (x + y) * z; };
KERNEL3(scalar_result,
    (kernel<false, Add, opnd<0>, opnd<0, 0>, opnd<0, 0>, opnd<0, 0>>(s, c, dot)),
    (kernel<false, Set, opnd<0>, opnd<1, 0>, opnd<3, 0>, opnd<2, 0>>(s, c, dot)),
    (kernel<false, Mul, opnd<0>, opnd<0, 0, 1>, opnd<0, 1>, opnd<2, 0>>(s, c, dot)))
static const auto with_max = [](const auto& r, const auto& t) { return mx(r, t); };
static const auto with_min = [](const auto& r, const auto& t, const auto& u) { return mn(t - u, r); };
KERNEL3(result_in_expression,
    (kernel<true, Set, opnd<1, 1>, opnd<0, 0, 1, 2>>(s, c, with_max)),
    (kernel<true, Set, opnd<0, 0>, opnd<0, 0, 1>, opnd<3, 1>>(s, c, with_min)),
    (kernel<true, Add, opnd<0, 2>, opnd<2, 0, 2>>(s, c, with_max)))
#endif
#if PART == 2
static const auto outer = [](const auto& x, const auto& y, const auto& z) { return x + y - z; };
KERNEL3(outer_products,
    (kernel<false, Mul, opnd<0, 0, 1, 2>, opnd<0, 0>, opnd<0, 1>, opnd<0, 2>>(s, c, outer)),
    (kernel<false, Set, opnd<0, 2, 0, 1>, opnd<2, 0>, opnd<1, 1>, opnd<3, 2>>(s, c, outer)),
    (kernel<false, Sub, opnd<3, 0, 1, 2>, opnd<0, 0, 1>, opnd<0, 1, 2>, opnd<0, 2, 0>>(s, c, outer)))
static const auto quotient = [](const auto& x, const auto& y) { return -x / y; };
static const auto casts = [](const auto& x, const auto& y) { return cst<W>(x) * cst<W>(-y); };
KERNEL3(skipped_indices,
    (kernel<false, Add, opnd<0, 3>, opnd<0, 3, 1>, opnd<0, 1>>(s, c, quotient)),
    (kernel<false, Add, opnd<0, 2, 0>, opnd<0, 4, 0, 2>, opnd<1, 4>>(s, c, casts)),
    (kernel<false, Sub, opnd<0, 5>, opnd<2, 2>, opnd<0, 5>>(s, c, casts)))
#endif
#if PART == 3
static const auto deep = [](const auto& a, const auto& b, const auto& x) { return a * (b - x) / -(a + x); };
KERNEL3(many_loops,
    (kernel<false, Add, opnd<0, 0, 2>, opnd<0, 0, 1, 2, 3>, opnd<0, 3, 4>, opnd<0, 4, 1>>(s, c, deep)),
    (kernel<false, Sub, opnd<0, 4, 2, 0>, opnd<3, 0, 1, 2>, opnd<2, 3, 4>, opnd<0, 4, 3, 1>>(s, c, deep)),
    (kernel<false, Add, opnd<0, 5>, opnd<0, 0, 1, 2>, opnd<0, 3, 4>, opnd<0, 5, 4>>(s, c, deep)))
static const auto nested = [](const auto& a, const auto& b) { return mn(a, -b) + mx(b / a, a - b) * a; };
KERNEL3(reductions,
    (kernel<false, Sub, opnd<0, 0>, opnd<0, 0, 1, 2>, opnd<0, 1>>(s, c, nested)),
    (kernel<false, Add, opnd<1, 1>, opnd<0, 0, 1>, opnd<3, 1, 0, 2>>(s, c, nested)),
    (kernel<false, Mul, opnd<2, 2>, opnd<0, 0, 1>, opnd<0, 2>>(s, c, nested)))
#endif

// The sets of loop bounds of the properties below.
static nda::interval<> gen_bounds(Src& s) {
  i64 mn = s.chance(1, 2) ? 0 : s.around(9), e = s.range(0, 6);
  if (e == 0 && !s.chance(1, 3)) e = 1;
  return nda::interval<>((index_t)mn, (index_t)e);
}
static uint64_t hash_of(i64 a, i64 b, i64 c) { return V::mk(20, (uint64_t)(a * 1000003 + b), (uint64_t)c).h; }

#if PART == 4
// ---- callables
static V function3(index_t a, index_t b, index_t cc) { return V(hash_of(a, b, cc)); }
PROP(callables, 1.0) {
  // r(i, l) op f(i, j, k) * x(j, l) * g(k)
  auto bi = gen_bounds(s), bj = gen_bounds(s), bk = gen_bounds(s), bl = gen_bounds(s);
  NOTE(c, "i " << bi.min() << "+" << bi.extent() << " j " << bj.min() << "+" << bj.extent() << " k " << bk.min() << "+" << bk.extent() << " l "
      << bl.min() << "+" << bl.extent());
  nda::array_of_rank<V, 2> r(nda::shape_of_rank<2>(bi, bl));
  nda::array_of_rank<V, 2> x(nda::shape_of_rank<2>(bj, bl));
  nda::array_of_rank<V, 1> y{nda::shape_of_rank<1>(bk)};
  auto init = [&]() {
    nda::for_all_indices(r.shape(), [&](index_t a, index_t b) { r(a, b) = V(hash_of(a, b, 1)); });
  };
  init();
  nda::for_all_indices(x.shape(), [&](index_t a, index_t b) { x(a, b) = V(hash_of(a, b, 2)); });
  nda::for_all_indices(y.shape(), [&](index_t a) { y(a) = V(hash_of(a, 0, 3)); });
  // The order of the loops: l outermost if it is number 3, i innermost if it is number 0.
  std::vector<std::array<i64, 4>> log, want_log;
  auto f = [&](index_t i, index_t j, index_t k) {
    log.push_back({{i, j, k, 0}});
    return V(hash_of(i, j, k));
  };
  int how = (int)s.pick(3);
  nda::array_of_rank<V, 2> before = r;
  if (how == 0) {
    auto back = nda::ein_reduce(nda::ein<0, 3>(r) += nda::ein<0, 1, 2>(f) * nda::ein<1, 3>(x) * nda::ein<2>(y));
    CHECK(back.base() == r.base());
  } else if (how == 1) {
    nda::ein_reduce(nda::ein<0, 3>(r) += nda::ein<0, 1, 2>(function3) * nda::ein<1, 3>(x) * nda::ein<2>(y));
  } else {
    std::function<V(index_t, index_t, index_t)> g = f;
    nda::ein_reduce(nda::ein<0, 3>(r) += nda::ein<0, 1, 2>(g) * nda::ein<1, 3>(x) * nda::ein<2>(y));
  }
  i64 n = 0;
  for (index_t l = bl.min(); l <= bl.max(); l++)
    for (index_t k = bk.min(); k <= bk.max(); k++)
      for (index_t j = bj.min(); j <= bj.max(); j++)
        for (index_t i = bi.min(); i <= bi.max(); i++) {
          before(i, l) += V(hash_of(i, j, k)) * x(j, l) * y(k);
          want_log.push_back({{i, j, k, 0}});
          n++;
        }
  c.nontrivial = n > 1;
  c.cls(how == 0 ? "lambda" : how == 1 ? "function" : "std::function");
  CHECK(r == before);
  if (how != 1) CHECK_M(log == want_log, log.size() << " calls of the operand instead of " << want_log.size() << ", or in another order");
}
// A callable without arguments is an operand that is called once for every point of the loops.
static V function0() { return V(hash_of(5, 6, 7)); }
PROP(callables_without_indices, 0.5) {
  auto bi = gen_bounds(s), bj = gen_bounds(s);
  NOTE(c, "i " << bi.min() << "+" << bi.extent() << " j " << bj.min() << "+" << bj.extent());
  nda::array_of_rank<V, 2> x(nda::shape_of_rank<2>(bi, bj));
  nda::for_all_indices(x.shape(), [&](index_t a, index_t b) { x(a, b) = V(hash_of(a, b, 2)); });
  nda::array_of_rank<V, 1> r(nda::shape_of_rank<1>(bi), V(hash_of(1, 1, 1))), want = r;
  uint64_t state = s.draw(1000), state2 = state;
  auto next = [](uint64_t& st) { return V(hash_of((i64)st++, 3, 3)); };
  auto mine = [&state, &next]() { return next(state); };
  const int how = (int)s.pick(9);
  auto const_mine = mine;
  const auto& cm = const_mine;
  std::function<V()> fun = mine;
  switch (how) {
  case 0: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein<>(mine)); break;
  case 1: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein(mine)); break;
  case 2: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein<>(cm)); break;
  case 3: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein(cm)); break;
  case 4: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein<>([&]() { return next(state); })); break;
  case 5: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein([&]() { return next(state); })); break;
  case 6: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein<>(fun)); break;
  case 7: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein(std::move(fun))); break;
  default: nda::ein_reduce(nda::ein<0>(r) += nda::ein<0, 1>(x) * nda::ein<>(function0));
  }
  i64 n = 0;
  for (index_t j = bj.min(); j <= bj.max(); j++)
    for (index_t i = bi.min(); i <= bi.max(); i++, n++) want(i) += x(i, j) * (how == 8 ? function0() : next(state2));
  c.nontrivial = n > 1;
  CHECK(r == want);
  if (how != 8) CHECK_EQ(state, state2);
  // A callable alone is what every element is set to; one that returns a reference is the result.
  V total(hash_of(4, 4, 4)), wt = total;
  auto where = [&]() -> V& { return total; };
  nda::ein_reduce(nda::ein<>(where) += nda::ein<0, 1>(x));
  for (index_t j = bj.min(); j <= bj.max(); j++)
    for (index_t i = bi.min(); i <= bi.max(); i++) wt += x(i, j);
  CHECK(total == wt);
}
// A callable that returns a reference is the result.
PROP(callable_result, 1.0) {
  auto bi = gen_bounds(s), bj = gen_bounds(s);
  nda::array_of_rank<V, 2> x(nda::shape_of_rank<2>(bi, bj));
  nda::for_all_indices(x.shape(), [&](index_t a, index_t b) { x(a, b) = V(hash_of(a, b, 2)); });
  std::map<std::pair<i64, i64>, V> got, want;
  std::vector<std::pair<i64, i64>> order, want_order;
  auto at = [&](index_t j, index_t i) -> V& {
    order.push_back({j, i});
    return got[{j, i}];
  };
  const bool set = s.chance(1, 2);
  if (set) {
    nda::ein_reduce(nda::ein<1, 0>(at) = nda::ein<0, 1>(x));
  } else {
    nda::ein_reduce(nda::ein<1, 0>(at) *= -nda::ein<0, 1>(x));
  }
  for (index_t j = bj.min(); j <= bj.max(); j++) {
    for (index_t i = bi.min(); i <= bi.max(); i++) {
      if (set) want[{j, i}] = x(i, j); else want[{j, i}] *= -x(i, j);
      want_order.push_back({j, i});
    }
  }
  c.nontrivial = want.size() > 1;
  CHECK(got == want);
  CHECK(order == want_order);
}

// ---- the order of the loops is the order of the indices, whatever the types of the shapes
// A type of shape with a loop order of its own.
using backwards = nda::shape<nda::dim<nda::dynamic, nda::dynamic, 7>, nda::dim<nda::dynamic, nda::dynamic, 1>>;
template <>
class nda::shape_traits<backwards> {
public:
  using shape_type = backwards;
  template <class Fn>
  static void for_each_index(const backwards& s, Fn&& fn) {
    for (index_t i = s.i().max(); i >= s.i().min(); i--)
      for (index_t j = s.j().max(); j >= s.j().min(); j--) fn(std::tuple<index_t, index_t>(i, j));
  }
  template <class Ptr, class Fn>
  static void for_each_value(const backwards& s, Ptr base, Fn&& fn) {
    for_each_index(s, [=, &fn](const std::tuple<index_t, index_t>& i) { fn(base[s[i]]); });
  }
};
template <class Result, class Op>
static void order_assign(int op, const Result& r, const Op& x) {
  if (op == 0) nda::ein_reduce(r = x);
  else if (op == 1) nda::ein_reduce(r += x);
  else nda::ein_reduce(r *= x);
}
template <class Result, class F, class Y, size_t... Ls>
static void order_run(int op, const Result& r, F& f, Y&, std::integral_constant<size_t, 9>, nda::internal::index_sequence<Ls...>) {
  order_assign(op, r, nda::ein<Ls...>(f));
}
template <class Result, class F, class Y, size_t Extra, size_t... Ls>
static void order_run(int op, const Result& r, F& f, Y& y, std::integral_constant<size_t, Extra>, nda::internal::index_sequence<Ls...>) {
  order_assign(op, r, nda::ein<Ls...>(f) * nda::ein<Extra>(y));
}
// The dims of the result have the indices Is; with Extra there is another one that is summed.
template <class Shape, size_t... Is, size_t Extra>
static void order_case(Src& s, Ctx& c, const Shape& shape, nda::internal::index_sequence<Is...>, std::integral_constant<size_t, Extra>) {
  constexpr size_t R = sizeof...(Is);
  const size_t number[] = {Is...};
  auto be = gen_bounds(s);
  nda::array_of_rank<V, 1> y{nda::shape_of_rank<1>(be)};
  nda::for_all_indices(y.shape(), [&](index_t a) { y(a) = V(hash_of(a, 0, 3)); });
  nda::array<V, Shape> r(shape, V(5));
  std::map<std::vector<i64>, V> want;
  nda::dim<> loops[4];
  for (size_t d = 0; d < R; d++) loops[number[d]] = r.shape().dim(d);
  if (Extra < 4) loops[Extra] = y.shape().dim(0);
  constexpr size_t n = Extra < 4 ? R + 1 : R;
  for (size_t l = n; l < 4; l++) loops[l] = nda::dim<>(0, 1);
  std::vector<std::vector<i64>> log, want_log;
  i64 calls = 0;
  auto f = [&](auto... i) {
    log.push_back({(i64)i...});
    return V(hash_of(++calls, 7, 9));
  };
  const int op = (int)s.pick(3);
  i64 k = 0;
  for (i64 i3 = loops[3].min(); i3 <= loops[3].max(); i3++)
    for (i64 i2 = loops[2].min(); i2 <= loops[2].max(); i2++)
      for (i64 i1 = loops[1].min(); i1 <= loops[1].max(); i1++)
        for (i64 i0 = loops[0].min(); i0 <= loops[0].max(); i0++) {
          const i64 at[] = {i0, i1, i2, i3};
          want_log.push_back(std::vector<i64>(at, at + n));
          std::vector<i64> key = {at[Is]...};
          V& v = want.emplace(key, V(5)).first->second;
          V x = V(hash_of(++k, 7, 9));
          if (Extra < 4) x = x * y((index_t)at[Extra < 4 ? Extra : 0]);
          if (op == 0) v = x;
          else if (op == 1) v += x;
          else v *= x;
        }
  order_run(op, nda::ein<Is...>(r), f, y, std::integral_constant<size_t, Extra>(), nda::internal::make_index_sequence<n>());
  c.nontrivial = want_log.size() > 1;
  CHECK_M(log == want_log, log.size() << " calls of the operand instead of " << want_log.size() << ", or in another order");
  for (auto& w : want) {
    nda::index_of_rank<R> i = nd::index<R>(nd::Idx(w.first.begin(), w.first.end()));
    CHECK(r[i] == w.second);
  }
}
template <class Shape>
static void order_2(Src& s, Ctx& c, const Shape& shape) {
  using nda::internal::index_sequence;
  NOTE(c, nd::type_name<Shape>() << " " << nd::str(nd::model(shape)));
  switch (s.pick(5)) {
  case 0: return order_case(s, c, shape, index_sequence<0, 1>(), std::integral_constant<size_t, 9>());
  case 1: return order_case(s, c, shape, index_sequence<1, 0>(), std::integral_constant<size_t, 9>());
  case 2: return order_case(s, c, shape, index_sequence<0, 1>(), std::integral_constant<size_t, 2>());
  case 3: return order_case(s, c, shape, index_sequence<1, 2>(), std::integral_constant<size_t, 0>());
  default: return order_case(s, c, shape, index_sequence<2, 0>(), std::integral_constant<size_t, 1>());
  }
}
template <class Shape>
static void order_3(Src& s, Ctx& c, const Shape& shape) {
  using nda::internal::index_sequence;
  NOTE(c, nd::type_name<Shape>() << " " << nd::str(nd::model(shape)));
  switch (s.pick(4)) {
  case 0: return order_case(s, c, shape, index_sequence<0, 1, 2>(), std::integral_constant<size_t, 9>());
  case 1: return order_case(s, c, shape, index_sequence<2, 0, 1>(), std::integral_constant<size_t, 9>());
  case 2: return order_case(s, c, shape, index_sequence<0, 1, 2>(), std::integral_constant<size_t, 3>());
  default: return order_case(s, c, shape, index_sequence<1, 3, 0>(), std::integral_constant<size_t, 2>());
  }
}
PROP(loop_order, 0.7) {
  auto b0 = gen_bounds(s), b1 = gen_bounds(s), b2 = gen_bounds(s);
  switch (s.pick(8)) {
  case 0: return order_2(s, c, nda::matrix_shape<>(b0, b1));
  case 1: return order_2(s, c, nda::matrix_shape<3, 4>());
  case 2: {
    backwards sh(nda::dim<nda::dynamic, nda::dynamic, 7>(b0.min(), b0.extent(), 7), nda::dim<nda::dynamic, nda::dynamic, 1>(b1.min(), std::min<index_t>(7, b1.extent()), 1));
    return order_2(s, c, sh);
  }
  case 3: return order_3(s, c, nda::chunky_image_shape<3>(b0, b1, 3));
  case 4: return order_3(s, c, nda::chunky_image_shape<>(b0, b1, nda::dense_dim<0>(0, std::max<index_t>(1, b2.extent()))));
  case 5: return order_3(s, c, nda::chunky_image_shape<3, 4>(b0, b1, 3));
  case 6: return order_3(s, c, nda::planar_image_shape(b0, b1, b2));
  default: return order_2(s, c, nda::dense_shape<2>(b0, b1));
  }
}
#endif

#if PART == 5
// ---- arrays, const arrays, scalars, C arrays, pointers, rvalue views, other element types
PROP(scalars_and_c_arrays, 1.0) {
  V ca[5];
  const V cb[4] = {V(hash_of(1, 2, 3)), V(hash_of(4, 5, 6)), V(hash_of(7, 8, 9)), V(hash_of(1, 1, 1))};
  size_t n = (size_t)s.range(0, 9);
  std::vector<V> p(n + 1);
  uint64_t seed = s.draw(1000);
  for (size_t i = 0; i < 5; i++) ca[i] = V(hash_of(seed, i, 1));
  for (size_t i = 0; i < n; i++) p[i] = V(hash_of(seed, i, 2));
  V sc(hash_of(seed, 0, 4)), out(hash_of(seed, 0, 5));
  const V cs(hash_of(seed, 0, 6));
  V p_end = p[n];
  c.nontrivial = n > 1;
  NOTE(c, "n " << n);
  V want = out;
  std::vector<V> wa(ca, ca + 5), wp = p;
  switch (s.pick(5)) {
  case 0:
    nda::ein_reduce(nda::ein(out) += nda::ein<0>(ca) * nda::ein<1>(p.data(), n) - nda::ein(sc));
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < 5; i++) want += wa[i] * wp[j] - sc;
    break;
  case 1:
    nda::ein_reduce(nda::ein<>(out) -= nda::ein(cs) / nda::ein<1>(cb) + nda::ein<0>(p.data(), n));
    for (size_t j = 0; j < 4; j++) for (size_t i = 0; i < n; i++) want -= cs / cb[j] + wp[i];
    break;
  case 2:
    nda::ein_reduce(nda::ein<0>(p.data(), n) *= nda::ein(sc) - nda::ein<1>(ca));
    for (size_t j = 0; j < 5; j++) for (size_t i = 0; i < n; i++) wp[i] *= sc - wa[j];
    break;
  case 3:
    nda::ein_reduce(nda::ein<0>(ca) += nda::ein<1>((const V*)p.data(), n));
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < 5; i++) wa[i] += wp[j];
    break;
  default:
    nda::ein_reduce(nda::ein<1>(ca) = nda::ein<1>(ca) + nda::ein(cs) * nda::ein<0>(cb));
    for (size_t j = 0; j < 5; j++) for (size_t i = 0; i < 4; i++) wa[j] = wa[j] + cs * cb[i];
  }
  CHECK(out == want);
  CHECK(std::equal(wa.begin(), wa.end(), ca));
  CHECK(p == wp);
  CHECK(p[n] == p_end);
}
// C arrays of any size, const or not, on both sides.
template <size_t N>
static void c_array_of(Src& s, Ctx& c) {
  V x[N], r[N], total(hash_of((i64)s.draw(1000), 1, 1));
  const uint64_t seed = s.draw(1000);
  for (size_t i = 0; i < N; i++) x[i] = V(hash_of((i64)seed, (i64)i, 2)), r[i] = V(hash_of((i64)seed, (i64)i, 3));
  std::vector<V> want(r, r + N);
  V wt = total;
  c.nontrivial = N > 1;
  NOTE(c, "arrays of " << N);
  const V(&cx)[N] = x;
  if (s.chance(1, 2)) nda::ein_reduce(nda::ein<>(total) += nda::ein<0>(cx) * nda::ein<1>(r));
  else nda::ein_reduce(nda::ein<>(total) += nda::ein<0>(x) * nda::ein<1>(r));
  for (size_t j = 0; j < N; j++) for (size_t i = 0; i < N; i++) wt += x[i] * want[j];
  CHECK(total == wt);
  nda::ein_reduce(nda::ein<1>(r) += nda::ein<0>(cx) * nda::ein<1>(x));
  for (size_t j = 0; j < N; j++) for (size_t i = 0; i < N; i++) want[j] += x[i] * x[j];
  CHECK(std::equal(want.begin(), want.end(), r));
  auto sum = nda::make_ein_sum<V, 0>(nda::ein<0>(cx) + nda::ein<1>(cx), V(hash_of(1, 1, 1)));
  CHECK_IEQ(sum.size(), N);
  CHECK_IEQ(sum.i().min(), 0);
  for (size_t i = 0; i < N; i++) {
    V w(hash_of(1, 1, 1));
    for (size_t j = 0; j < N; j++) w += x[i] + x[j];
    CHECK_M(sum((index_t)i) == w, "sum at " << i);
  }
}
PROP(c_arrays, 0.3) {
  static void (*const fns[])(Src&, Ctx&) = {c_array_of<1>, c_array_of<2>, c_array_of<3>, c_array_of<4>, c_array_of<5>, c_array_of<6>, c_array_of<7>, c_array_of<8>,
      c_array_of<9>, c_array_of<11>, c_array_of<13>, c_array_of<16>, c_array_of<17>, c_array_of<32>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
PROP(arrays_and_views, 1.0) {
  // Rows of a matrix, arrays and const arrays.
  i64 rows = s.range(1, 6), cols = s.range(1, 6);
  nda::matrix<V> a(nda::matrix_shape<>((index_t)rows, (index_t)cols));
  nda::array_of_rank<V, 3> t(nda::shape_of_rank<3>((index_t)cols, 3, (index_t)rows));
  uint64_t seed = s.draw(1000);
  uint64_t k = 0;
  a.for_each_value([&](V& v) { v = V(hash_of(seed, k++, 1)); });
  t.for_each_value([&](V& v) { v = V(hash_of(seed, k++, 2)); });
  i64 row = s.range(0, rows - 1), ch = s.range(0, 2);
  nda::matrix<V> a2 = a;
  nda::array_of_rank<V, 3> t2 = t;
  const nda::array_of_rank<V, 3>& ct = t;
  c.nontrivial = rows * cols > 1;
  NOTE(c, rows << "x" << cols << ", row " << row << " channel " << ch);
  switch (s.pick(4)) {
  case 0: {
    auto back = nda::ein_reduce(nda::ein<0>(a((index_t)row, nda::_)) += nda::ein<0, 2, 1>(ct) * nda::ein<1>(t(0, 2, nda::_)));
    CHECK(back.base() == &a((index_t)row, 0));
    for (i64 l = 0; l < 3; l++) for (i64 j = 0; j < rows; j++) for (i64 i = 0; i < cols; i++) a2(row, i) += t2(i, l, j) * t2(0, 2, j);
    break;
  }
  case 1:
    nda::ein_reduce(nda::ein<1, 0>(a) = nda::ein<0, 1>(ct(nda::_, (index_t)ch, nda::_)) / nda::ein<1, 0>(a));
    for (i64 j = 0; j < rows; j++) for (i64 i = 0; i < cols; i++) a2(j, i) = t2(i, ch, j) / a2(j, i);
    break;
  case 2:
    nda::ein_reduce(nda::ein<0, 1, 2>(t) -= nda::ein<2, 0>(a));
    for (i64 j = 0; j < rows; j++) for (i64 l = 0; l < 3; l++) for (i64 i = 0; i < cols; i++) t2(i, l, j) -= a2(j, i);
    break;
  default:
    nda::ein_reduce(nda::ein<0, 1>(a) = nda::ein<1, 3, 0>(t.cref()));
    for (i64 l = 0; l < 3; l++) for (i64 j = 0; j < cols; j++) for (i64 i = 0; i < rows; i++) a2(i, j) = t2(j, l, i);
  }
  CHECK(a == a2);
  CHECK(t == t2);
}
// Operands of the same type on both sides of an assignment.
PROP(same_type, 0.5) {
  i64 n = s.range(1, 6), m = s.range(1, 6);
  uint64_t seed = s.draw(1000), k = 0;
  nda::matrix<V> a(nda::matrix_shape<>((index_t)n, (index_t)m)), b(nda::matrix_shape<>((index_t)n, (index_t)m));
  a.for_each_value([&](V& v) { v = V(hash_of(seed, k++, 1)); });
  b.for_each_value([&](V& v) { v = V(hash_of(seed, k++, 2)); });
  nda::matrix<V> a2 = a, b2 = b;
  V p[6], q[6], p2[6], x(hash_of(seed, 1, 3)), y(hash_of(seed, 2, 3)), x2 = x;
  for (i64 i = 0; i < 6; i++) p[i] = p2[i] = V(hash_of(seed, i, 4)), q[i] = V(hash_of(seed, i, 5));
  c.nontrivial = n * m > 1;
  const size_t op = s.pick(6), form = s.pick(5);
  NOTE(c, n << "x" << m << ", operator " << op << ", form " << form);
  auto model = [&](V& l, const V& r) {
    switch (op) {
    case 0: l = r; break;
    case 1: l += r; break;
    case 2: l -= r; break;
    case 3: l *= r; break;
    case 4: l = r < l ? r : l; break;
    default: l = l < r ? r : l;
    }
  };
#define ASSIGN(l, r)                                \
  switch (op) {                                     \
  case 0: nda::ein_reduce((l) = (r)); break;        \
  case 1: nda::ein_reduce((l) += (r)); break;       \
  case 2: nda::ein_reduce((l) -= (r)); break;       \
  case 3: nda::ein_reduce((l) *= (r)); break;       \
  case 4: nda::ein_reduce((l) = min((l), (r))); break; \
  default: nda::ein_reduce((l) = max((l), (r)));    \
  }
  switch (form) {
  case 0:
    ASSIGN((nda::ein<0, 1>(a)), (nda::ein<0, 1>(b)));
    for (i64 j = 0; j < m; j++) for (i64 i = 0; i < n; i++) model(a2(i, j), b2(i, j));
    break;
  case 1: {
    // Named operands.
    auto l = nda::ein<1, 0>(a);
    auto r = nda::ein<1, 0>(b);
    ASSIGN(l, r);
    for (i64 j = 0; j < m; j++) for (i64 i = 0; i < n; i++) model(a2(i, j), b2(i, j));
    break;
  }
  case 2: {
    i64 i0 = s.range(0, n - 1), i1 = s.range(0, n - 1);
    ASSIGN(nda::ein<0>(a((index_t)i0, nda::_)), nda::ein<0>(b((index_t)i1, nda::_)));
    for (i64 j = 0; j < m; j++) model(a2(i0, j), b2(i1, j));
    break;
  }
  case 3:
    ASSIGN(nda::ein(x), nda::ein(y));
    model(x2, y);
    break;
  default:
    if (s.chance(1, 2)) {
      ASSIGN(nda::ein<0>(p), nda::ein<0>(q));
      for (i64 i = 0; i < 6; i++) model(p2[i], q[i]);
    } else {
      ASSIGN(nda::ein<0>(p, (size_t)n), nda::ein<0>(q, (size_t)n));
      for (i64 i = 0; i < n; i++) model(p2[i], q[i]);
    }
  }
#undef ASSIGN
  CHECK(a == a2 && b == b2 && x == x2);
  CHECK(std::equal(p, p + 6, p2));
}
// Other element types: the types of the operators are those of C++.
PROP(numbers, 1.0) {
  i64 n = s.range(1, 9), m = s.range(1, 9);
  std::vector<signed char> a(n * m), b(m);
  std::vector<double> d(n);
  for (auto& x : a) x = (signed char)s.around(127);
  for (auto& x : b) x = (signed char)s.around(127);
  for (size_t i = 0; i < d.size(); i++) d[i] = (double)s.around(1000);
  std::vector<int> r(n), want(n);
  std::vector<long long> rl(n), wl(n);
  std::vector<double> rd(n), wd(n);
  std::vector<std::complex<double>> z(n), wz(n);
  auto ra = nda::make_array_ref((const signed char*)a.data(), nda::matrix_shape<>((index_t)n, (index_t)m));
  auto rb = nda::make_array_ref(b.data(), nda::dense_shape<1>((index_t)m));
  c.nontrivial = n * m > 1;
  NOTE(c, n << "x" << m);
  nda::ein_reduce(nda::ein<0>(r.data(), n) += nda::ein<0, 1>(ra) * nda::ein<1>(rb));
  nda::ein_reduce(nda::ein<0>(rl.data(), n) += nda::cast<long long>(nda::ein<0, 1>(ra)) * nda::cast<int>(nda::ein<1>(rb)) * nda::ein<1>(rb));
  nda::ein_reduce(nda::ein<0>(rd.data(), n) -= max(nda::ein<0>(d.data(), n), nda::cast<double>(-nda::ein<0, 1>(ra))));
  nda::ein_reduce(nda::ein<0>(z.data(), n) += nda::cast<double>(nda::ein<0, 1>(ra)) * nda::ein<0>(
      [](index_t i) { return std::complex<double>((double)i, 1.0); }));
  for (i64 j = 0; j < m; j++) {
    for (i64 i = 0; i < n; i++) {
      signed char av = a[i * m + j], bv = b[j];
      want[i] += av * bv;
      wl[i] += (long long)av * bv * bv;
      wd[i] -= std::max(d[i], (double)-av);
      wz[i] += (double)av * std::complex<double>((double)i, 1.0);
    }
  }
  CHECK(r == want);
  CHECK(rl == wl);
  CHECK(rd == wd);
  CHECK(z == wz);
}
// Every operator on operands of any arithmetic types has the type and the value it has in C++, with its promotions
// and conversions (the negation of an unsigned char is a negative int, for example).
template <class T>
static T edge_value(Src& s, bool divisor) {
  // Small enough that nothing overflows that may not, with the extremes of the narrow types.
  i64 lo = -1000, hi = 1000;
  if (std::is_integral<T>::value && sizeof(T) < 4) {
    lo = (i64)std::numeric_limits<T>::min();
    hi = (i64)std::numeric_limits<T>::max();
  } else if (std::is_unsigned<T>::value) {
    lo = 0;
  }
  i64 x = s.chance(1, 4) ? (s.chance(1, 2) ? lo : hi) : s.range(std::max<i64>(lo, -9), std::min<i64>(hi, 9));
  if (divisor && x == 0) x = 1;
  return (T)x;
}
template <class R, class TA, class TB>
static void arithmetic_types_of(Src& s, Ctx& c) {
  const i64 n = s.range(1, 5), m = s.range(1, 3);
  std::vector<TA> a((size_t)(n * m));
  std::vector<TB> b((size_t)m);
  std::vector<R> r((size_t)n), want;
  for (auto& x : a) x = edge_value<TA>(s, false);
  for (auto& x : b) x = edge_value<TB>(s, true);
  for (auto& x : r) x = (R)s.range(0, 9);
  want = r;
  c.nontrivial = n * m > 1;
  const size_t op = s.pick(4), form = s.pick(7);
  NOTE(c, n << "x" << m << " of " << sizeof(TA) << " and " << sizeof(TB) << " bytes, to " << sizeof(R) << " bytes, operator " << op << ", form " << form);
  auto ra = nda::make_array_ref((const TA*)a.data(), nda::matrix_shape<>((index_t)n, (index_t)m));
  auto rb = nda::make_array_ref(b.data(), nda::dense_shape<1>((index_t)m));
  auto rr = nda::make_array_ref(r.data(), nda::dense_shape<1>((index_t)n));
  auto ea = nda::ein<0, 1>(ra);
  auto eb = nda::ein<1>(rb);
  auto er = nda::ein<0>(rr);
  auto run = [&](const auto& f) {
    auto e = f(ea, eb);
    switch (op) {
    case 0: nda::ein_reduce(er = e); break;
    case 1: nda::ein_reduce(er += e); break;
    case 2: nda::ein_reduce(er -= e); break;
    default: nda::ein_reduce(er *= eb); break;
    }
    for (i64 j = 0; j < m; j++) {
      for (i64 i = 0; i < n; i++) {
        auto x = f((TA)a[(size_t)(i * m + j)], (TB)b[(size_t)j]);
        R& w = want[(size_t)i];
        switch (op) {
        case 0: w = (R)x; break;
        case 1: w = (R)(w + x); break;
        case 2: w = (R)(w - x); break;
        default: w = (R)(w * b[(size_t)j]); break;
        }
      }
    }
  };
  switch (form) {
  case 0: run([](const auto& x, const auto&) { return -x; }); break;
  case 1: run([](const auto& x, const auto& y) { return x + y; }); break;
  case 2: run([](const auto& x, const auto& y) { return x - y; }); break;
  case 3: run([](const auto& x, const auto& y) { return x * y; }); break;
  case 4: run([](const auto& x, const auto& y) { return -(x - y); }); break;
  case 5: run([](const auto& x, const auto& y) { return -x * -y; }); break;
  default: run([](const auto& x, const auto& y) { return x - -(y + x); }); break;
  }
  for (i64 i = 0; i < n; i++) CHECK_M(r[(size_t)i] == want[(size_t)i], "element " << i << " is " << (double)r[(size_t)i] << ", not " << (double)want[(size_t)i]);
}
PROP(arithmetic_types, 0.5) {
  switch (s.pick(7)) {
  case 0: return arithmetic_types_of<long long, unsigned char, unsigned char>(s, c);
  case 1: return arithmetic_types_of<long long, signed char, short>(s, c);
  case 2: return arithmetic_types_of<double, unsigned short, signed char>(s, c);
  case 3: return arithmetic_types_of<unsigned, unsigned, unsigned char>(s, c);
  case 4: return arithmetic_types_of<double, float, signed char>(s, c);
  case 5: return arithmetic_types_of<double, double, int>(s, c);
  default: return arithmetic_types_of<double, signed char, float>(s, c);
  }
}
#endif
