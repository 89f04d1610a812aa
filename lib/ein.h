// Shared by the checks of Einstein reductions: an element type whose operators are neither
// commutative nor associative, operand generators and the model of the loop nest.
#ifndef EIN_H
#define EIN_H

#include "array/ein_reduce.h"
#include "array/matrix.h"
#include "nd.h"

namespace ein_check {

using namespace nd;

// Every operator gives a different value for different operands (up to hash collisions), so
// that any change of operator, operand, association or order changes the result.
struct V {
  uint64_t h = 0;
  V() {}
  V(uint64_t h) : h(h) {}
  static V mk(int op, uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9e3779b97f4a7c15ull + (uint64_t)op * 0xd1342543de82ef95ull;
    x ^= x >> 29;
    x = (x + b) * 0xbf58476d1ce4e5b9ull;
    return V(x ^ (x >> 32));
  }
  friend V operator+(const V& a, const V& b) { return mk(1, a.h, b.h); }
  friend V operator-(const V& a, const V& b) { return mk(2, a.h, b.h); }
  friend V operator*(const V& a, const V& b) { return mk(3, a.h, b.h); }
  friend V operator/(const V& a, const V& b) { return mk(4, a.h, b.h); }
  friend V operator-(const V& a) { return mk(5, a.h, 0); }
  V& operator+=(const V& b) { return *this = mk(6, h, b.h); }
  V& operator-=(const V& b) { return *this = mk(7, h, b.h); }
  V& operator*=(const V& b) { return *this = mk(8, h, b.h); }
  friend bool operator<(const V& a, const V& b) { return a.h < b.h; }
  friend bool operator>(const V& a, const V& b) { return a.h > b.h; }
  friend bool operator<=(const V& a, const V& b) { return a.h <= b.h; }
  friend bool operator>=(const V& a, const V& b) { return a.h >= b.h; }
  friend bool operator==(const V& a, const V& b) { return a.h == b.h; }
  friend bool operator!=(const V& a, const V& b) { return a.h != b.h; }
};
// The target of casts.
struct W {
  uint64_t h = 0;
  W() {}
  explicit W(const V& v) : h(V::mk(9, v.h, 0).h) {}
  operator V() const { return V::mk(10, h, 0); }
};
inline V operator*(const W& a, const W& b) { return V::mk(11, a.h, b.h); }
inline std::ostream& operator<<(std::ostream& os, const V& v) { return os << std::hex << v.h << std::dec; }

// The same expression text is applied to operands of the library and to values.
template <class... T>
struct values : std::integral_constant<bool, false> {};
template <class... T>
struct values<V, T...> : std::integral_constant<bool, true> {};
template <class... T>
struct values<W, T...> : std::integral_constant<bool, true> {};
template <class A, class B, class = std::enable_if_t<!values<A>::value && !values<B>::value>>
auto mn(const A& a, const B& b) {
  return nda::min(a, b);
}
inline V mn(const V& a, const V& b) { return a < b ? a : b; }
template <class A, class B, class = std::enable_if_t<!values<A>::value && !values<B>::value>>
auto mx(const A& a, const B& b) {
  return nda::max(a, b);
}
inline V mx(const V& a, const V& b) { return a < b ? b : a; }
template <class T, class A, class = std::enable_if_t<!values<A>::value>>
auto cst(const A& a) {
  return nda::cast<T>(a);
}
template <class T>
T cst(const V& a) {
  return static_cast<T>(a);
}

// Kinds of assignment.
enum Assign { Set, Add, Sub, Mul };
template <Assign K>
struct assign;
#define ASSIGN(K, op)                                                                              \
  template <>                                                                                      \
  struct assign<K> {                                                                               \
    template <class L, class R>                                                                    \
    static auto expr(const L& l, const R& r) {                                                     \
      return l op r;                                                                               \
    }                                                                                              \
    static void model(V& l, const V& r) { l op r; }                                                \
  };
ASSIGN(Set, =)
ASSIGN(Add, +=)
ASSIGN(Sub, -=)
ASSIGN(Mul, *=)
#undef ASSIGN

template <size_t... I>
struct is {
  static constexpr size_t rank = sizeof...(I);
  static std::vector<size_t> list() { return {I...}; }
};

// The static bounds of loop dimension I, where they are static.
constexpr i64 smin(size_t I) { return I == 0 ? -2 : (I == 1 ? 0 : (i64)I + 3); }
constexpr i64 sext(size_t I) { return I == 0 ? 3 : (I == 1 ? 2 : (I == 2 ? 4 : 2)); }

// The type of the dim that addresses loop dimension I, at position P of an operand.
template <int Var, size_t I, size_t P, size_t Rank>
struct dim_for;
template <size_t I, size_t P, size_t R>  // All dynamic.
struct dim_for<0, I, P, R> { using type = dim<>; };
template <size_t I, size_t P, size_t R>  // Column major.
struct dim_for<1, I, P, R> { using type = dim<dynamic, dynamic, P == 0 ? 1 : dynamic>; };
template <size_t I, size_t P, size_t R>  // Bounds known.
struct dim_for<2, I, P, R> { using type = dim<smin(I), sext(I)>; };
template <size_t I, size_t P, size_t R>  // Row major, some extents or mins known.
struct dim_for<3, I, P, R> {
  using type = dim<I % 3 == 2 ? smin(I) : dynamic, I % 3 == 0 ? sext(I) : dynamic, P + 1 == R ? 1 : dynamic>;
};
template <int Var, class Is, class Ps>
struct shape_for_impl;
template <int Var, size_t... I, size_t... P>
struct shape_for_impl<Var, is<I...>, std::index_sequence<P...>> {
  using type = shape<typename dim_for<Var, I, P, sizeof...(I)>::type...>;
};
template <int Var, class Is>
using shape_for = typename shape_for_impl<Var, Is, std::make_index_sequence<Is::rank>>::type;

constexpr size_t kMaxLoops = 7;

// The bounds of the loops, being decided.
struct Loops {
  bool used[kMaxLoops] = {}, in_result[kMaxLoops] = {}, exact[kMaxLoops] = {};
  SD st[kMaxLoops];
  i64 min[kMaxLoops] = {}, ext[kMaxLoops];
  i64 room = 600;
  Loops() { for (i64& e : ext) e = 1; }

  template <class Shape, class Is>
  void add(bool result) {
    std::vector<SD> sd = statics<Shape>();
    std::vector<size_t> l = Is::list();
    for (size_t p = 0; p < l.size(); p++) {
      used[l[p]] = true;
      if (result) in_result[l[p]] = true;
      if (sd[p].smin) st[l[p]].smin = true, st[l[p]].min = sd[p].min;
      if (sd[p].sext) st[l[p]].sext = true, st[l[p]].ext = sd[p].ext;
    }
  }
  void gen(Src& s) {
    for (size_t d = 0; d < kMaxLoops; d++) {
      if (!used[d]) continue;
      if (st[d].sext) room = std::max<i64>(1, room / st[d].ext);
    }
    for (size_t d = 0; d < kMaxLoops; d++) {
      if (!used[d]) continue;
      min[d] = st[d].smin ? st[d].min : (s.chance(1, 2) ? 0 : s.around(s.chance(1, 20) ? (sizeof(index_t) == 8 ? i64(1) << 40 : i64(1) << 22) : 30));
      if (st[d].sext) {
        ext[d] = st[d].ext;
      } else {
        ext[d] = s.chance(1, 40) ? 0 : std::min<i64>(s.range(1, 7), room);
        room = std::max<i64>(1, room / std::max<i64>(1, ext[d]));
      }
      if (ext[d] == 0) exact[d] = true;
    }
  }
  template <class Fn>
  void run(Fn&& fn) const {
    MS m(kMaxLoops);
    for (size_t d = 0; d < kMaxLoops; d++) m[d] = MD{min[d], ext[d], 0};
    for_each(m, fn);
  }
};

inline Idx select(const std::vector<size_t>& l, const Idx& loop) {
  Idx r;
  for (size_t d : l) r.push_back(loop[d]);
  return r;
}

// An operand in memory.
struct Operand {
  MS m;
  i64 base = 0;
  std::vector<size_t> is;
  i64 at(const Idx& loop) const { return base + offset_of(m, select(is, loop)); }
};

// One memory for all operands, with guards between them.
struct Memory {
  std::vector<V> mem;
  i64 add(Src& s, const MS& m) {
    i64 lo = nd::empty(m) ? 0 : flat_min(m), hi = nd::empty(m) ? -1 : flat_max(m);
    i64 start = (i64)mem.size() + 3;
    mem.resize((size_t)(start + hi - lo + 1 + 3));
    return start - lo;
  }
  void fill(Src& s) {
    uint64_t x = s.draw(1000);
    for (size_t i = 0; i < mem.size(); i++) mem[i] = V(pbt::mix(x * 100003 + i));
  }
};

// Generates the operand of type Shape addressed by Is.
template <class Shape, class Is>
Operand gen_operand(Src& s, Ctx& c, const Loops& l, Memory& mem, bool result) {
  Operand r;
  r.is = Is::list();
  std::vector<SD> sd = statics<Shape>();
  MS m(Is::rank);
  std::vector<bool> known(Is::rank);
  for (size_t p = 0; p < Is::rank; p++) {
    const size_t d = r.is[p];
    m[p] = MD{l.min[d], l.ext[d], 0};
    // An operand may be larger than the result.
    if (!result && l.in_result[d] && !l.exact[d]) {
      if (!sd[p].smin && !sd[p].sext && s.chance(1, 4)) {
        i64 a = s.range(0, 2), b = s.range(0, 2);
        m[p].min -= a;
        m[p].ext += a + b;
        c.cls("operand larger than the result");
      } else if (!sd[p].sext && s.chance(1, 4)) {
        m[p].ext += s.range(0, 2);
      }
    }
    if (sd[p].sstr) {
      known[p] = true;
      m[p].str = sd[p].str;
    } else if (!result && s.chance(1, 12)) {
      known[p] = true;
      m[p].str = 0;
      c.cls("broadcast operand");
    }
  }
  // Repeated indices: the dims must be equal.
  for (size_t p = 0; p < Is::rank; p++) {
    for (size_t q = 0; q < p; q++) {
      if (r.is[q] != r.is[p]) continue;
      m[p].min = m[q].min = l.min[r.is[p]];
      m[p].ext = m[q].ext = l.ext[r.is[p]];
    }
  }
  GenOpts o;
  gen_nested_strides(s, m, known, o);
  r.m = m;
  r.base = mem.add(s, m);
  NOTE(c, (result ? "result " : "operand ") << str(Idx(r.is.begin(), r.is.end())) << " " << type_name<Shape>() << " " << str(m));
  return r;
}

}  // namespace ein_check

#endif
