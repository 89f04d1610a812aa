// Generators and reference models of shapes and arrays, shared by all checks.
// Only the documented API of the library is used.
#ifndef ND_H
#define ND_H

#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "array/array.h"
#include "pbt.h"

namespace nd {

using nda::index_t;
using i64 = int64_t;
using pbt::Ctx;
using pbt::Src;

constexpr i64 UNRES = INT64_MIN;

// The reference model of a dim and a shape.
struct MD {
  i64 min = 0, ext = 0, str = 0;
  i64 max() const { return min + ext - 1; }
  bool operator==(const MD& r) const { return min == r.min && ext == r.ext && str == r.str; }
};
using MS = std::vector<MD>;
using Idx = std::vector<i64>;

inline std::ostream& operator<<(std::ostream& os, const MD& d) {
  os << "{" << d.min << "," << d.ext << ",";
  if (d.str == UNRES) return os << "?}";
  return os << d.str << "}";
}
inline std::string str(const MS& s) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < s.size(); i++) os << (i ? " " : "") << s[i];
  os << "]";
  return os.str();
}
inline std::string str(const Idx& s) {
  std::ostringstream os;
  os << "(";
  for (size_t i = 0; i < s.size(); i++) os << (i ? "," : "") << s[i];
  os << ")";
  return os.str();
}

inline i64 size_of(const MS& s) {
  i64 n = 1;
  for (const MD& d : s) n *= d.ext;
  return n;
}
inline bool empty(const MS& s) { return size_of(s) == 0; }
inline i64 offset_of(const MS& s, const Idx& i) {
  i64 o = 0;
  for (size_t d = 0; d < s.size(); d++) o += (i[d] - s[d].min) * s[d].str;
  return o;
}
inline i64 flat_min(const MS& s) {
  i64 o = 0;
  for (const MD& d : s) o += (d.ext - 1) * std::min<i64>(0, d.str);
  return o;
}
inline i64 flat_max(const MS& s) {
  i64 o = 0;
  for (const MD& d : s) o += (d.ext - 1) * std::max<i64>(0, d.str);
  return o;
}
inline bool in_range(const MS& s, const Idx& i) {
  for (size_t d = 0; d < s.size(); d++) {
    if (i[d] < s[d].min || i[d] >= s[d].min + s[d].ext) return false;
  }
  return true;
}
inline bool same_bounds(const MS& a, const MS& b) {
  if (a.size() != b.size()) return false;
  for (size_t d = 0; d < a.size(); d++) {
    if (a[d].min != b[d].min || a[d].ext != b[d].ext) return false;
  }
  return true;
}

// Calls fn for each index of the model, dim 0 innermost.
template <class Fn>
void for_each(const MS& s, Fn&& fn) {
  if (empty(s)) return;
  Idx i(s.size());
  for (size_t d = 0; d < s.size(); d++) i[d] = s[d].min;
  for (;;) {
    fn(const_cast<const Idx&>(i));
    size_t d = 0;
    while (d < s.size()) {
      if (++i[d] < s[d].min + s[d].ext) break;
      i[d] = s[d].min;
      d++;
    }
    if (d == s.size()) return;
  }
}

// Exact: is the map from indices to offsets injective? Small shapes only.
inline bool injective(const MS& s) {
  std::vector<i64> o;
  for_each(s, [&](const Idx& i) { o.push_back(offset_of(s, i)); });
  std::sort(o.begin(), o.end());
  return std::adjacent_find(o.begin(), o.end()) == o.end();
}

// The documented algorithm of automatic strides: each unresolved stride, in order, becomes the
// smallest candidate (1, or the |stride| * extent of a known dim) that nests with all known dims.
inline void resolve(MS& m) {
  for (size_t d = 0; d < m.size(); d++) {
    if (m[d].str != UNRES) continue;
    i64 best = INT64_MAX;
    auto consider = [&](i64 st) {
      for (const MD& k : m) {
        if (k.str == UNRES) continue;
        const i64 a = std::abs(k.str);
        if (m[d].ext == 1 && st == a && k.ext > 1) return;
        if (!(k.ext * a <= st || a >= m[d].ext * st)) return;
      }
      best = std::min(best, st);
    };
    consider(1);
    for (const MD& k : m) {
      if (k.str != UNRES) consider(std::max<i64>(1, std::abs(k.str) * k.ext));
    }
    m[d].str = best;
  }
}
inline MS resolved(MS m) {
  resolve(m);
  return m;
}

// ---------------------------------------------------------------------------
// Types <-> models.

struct SD {
  bool smin = false, sext = false, sstr = false;
  i64 min = 0, ext = 0, str = 0;
};

template <class Shape, size_t D>
using dim_t = typename std::tuple_element<D, typename Shape::dims_type>::type;

template <class Dim>
SD static_dim() {
  SD r;
  const i64 mn = Dim::Min, ex = Dim::Extent, st = Dim::Stride;
  r.smin = mn != nda::dynamic;
  r.sext = ex != nda::dynamic;
  r.sstr = st != nda::dynamic;
  r.min = mn;
  r.ext = ex;
  r.str = st;
  return r;
}

template <class Shape, size_t... D>
std::vector<SD> statics_impl(std::index_sequence<D...>) {
  return {static_dim<dim_t<Shape, D>>()...};
}
template <class Shape>
std::vector<SD> statics() {
  return statics_impl<Shape>(std::make_index_sequence<Shape::rank()>());
}

template <class Shape>
std::string type_name() {
  std::ostringstream os;
  os << "shape<";
  std::vector<SD> s = statics<Shape>();
  for (size_t i = 0; i < s.size(); i++) {
    os << (i ? " " : "") << "<";
    if (s[i].smin) os << s[i].min; else os << "?";
    os << ",";
    if (s[i].sext) os << s[i].ext; else os << "?";
    os << ",";
    if (s[i].sstr) os << s[i].str; else os << "?";
    os << ">";
  }
  os << ">";
  return os.str();
}

inline i64 from_stride(index_t s) { return s == nda::unresolved ? UNRES : (i64)s; }
inline index_t to_stride(i64 s) { return s == UNRES ? nda::unresolved : (index_t)s; }

template <class Dim>
MD model_dim(const Dim& d) {
  MD r;
  r.min = d.min();
  r.ext = d.extent();
  r.str = from_stride(d.stride());
  return r;
}
template <class Shape, size_t... D>
MS model_impl(const Shape& s, std::index_sequence<D...>) {
  return {model_dim(s.template dim<D>())...};
}
template <class Shape>
MS model(const Shape& s) {
  return model_impl(s, std::make_index_sequence<Shape::rank()>());
}

template <class Dim>
Dim make_dim(const MD& m) {
  return Dim((index_t)m.min, (index_t)m.ext,
      Dim::Stride != nda::dynamic ? (index_t)Dim::Stride : to_stride(m.str));
}
template <class Shape, size_t... D>
Shape make_shape_impl(const MS& m, std::index_sequence<D...>) {
  return Shape(std::make_tuple(make_dim<dim_t<Shape, D>>(m[D])...));
}
template <class Shape>
Shape make_shape_impl(const MS&, std::index_sequence<>) {
  return Shape();
}
template <class Shape>
Shape make(const MS& m) {
  return make_shape_impl<Shape>(m, std::make_index_sequence<Shape::rank()>());
}

template <size_t Rank>
using any_shape = nda::shape_of_rank<Rank>;

template <size_t... D>
auto index_impl(const Idx& i, std::index_sequence<D...>) {
  return std::make_tuple((index_t)i[D]...);
}
template <size_t Rank>
nda::index_of_rank<Rank> index(const Idx& i) {
  return index_impl(i, std::make_index_sequence<Rank>());
}
template <class Tuple, size_t... D>
Idx from_index_impl(const Tuple& t, std::index_sequence<D...>) {
  return Idx{(i64)std::get<D>(t)...};
}
template <class... T>
Idx from_index(const std::tuple<T...>& t) {
  return from_index_impl(t, std::make_index_sequence<sizeof...(T)>());
}
template <class A, size_t... D>
decltype(auto) call_impl(A& a, const Idx& i, std::index_sequence<D...>) {
  return a((index_t)i[D]...);
}
// a(i0, i1, ...)
template <size_t Rank, class A>
decltype(auto) call(A& a, const Idx& i) {
  return call_impl(a, i, std::make_index_sequence<Rank>());
}

// ---------------------------------------------------------------------------
// Generators.

struct GenOpts {
  i64 max_ext = 9;
  i64 max_size = 400;
  i64 max_min = 12;
  bool allow_empty = true;
  bool negative = true;   // negative strides
  bool overlap = false;   // layouts that may map several indices to one offset
  bool unresolved = false;  // leave some strides unresolved
  bool huge = false;        // also mins that do not fit in 32 bits (with 64-bit indices)
};

inline i64 gen_extent(Src& s, const GenOpts& o, i64 room) {
  i64 hi = std::min(o.max_ext, std::max<i64>(1, room));
  switch (s.weighted({40, 12, 8, o.allow_empty ? 3 : 0})) {
  case 0: return s.range(1, std::min<i64>(hi, 4));
  case 1: return s.range(1, hi);
  case 2: return 1;
  default: return 0;
  }
}

inline i64 gen_min(Src& s, const GenOpts& o) {
  if (o.huge && s.chance(1, 8)) return s.around(sizeof(index_t) == 8 ? i64(1) << 42 : i64(1) << 29);
  switch (s.weighted({3, 6, 1})) {
  case 0: return 0;
  case 1: return s.around(o.max_min);
  default: return s.around(1000);
  }
}

// Choose strides for the dims of `m` that are not static, such that all dims are nested (there
// is an order of the dims in which each dim is entirely inside the next dim's stride), with
// random order, padding and sign. Dims with known strides are marked in `known`.
inline void gen_nested_strides(Src& s, MS& m, std::vector<bool> known, const GenOpts& o) {
  std::vector<size_t> order;
  for (size_t d = 0; d < m.size(); d++) {
    if (!known[d]) order.push_back(d);
  }
  if (s.chance(1, 2)) {
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.pick(i)]);
  }
  const bool pads = s.chance(1, 2);
  const bool signs = o.negative && s.chance(1, 3);
  for (size_t d : order) {
    const i64 e = std::max<i64>(1, m[d].ext);
    std::vector<i64> cand;
    auto ok = [&](i64 st) {
      for (size_t j = 0; j < m.size(); j++) {
        if (!known[j]) continue;
        i64 a = std::abs(m[j].str), ej = std::max<i64>(1, m[j].ext);
        if (!(ej * a <= st || a >= e * st)) return false;
      }
      return true;
    };
    i64 outer = 1;
    for (size_t j = 0; j < m.size(); j++) {
      if (known[j]) outer = std::max(outer, std::abs(m[j].str) * std::max<i64>(1, m[j].ext));
    }
    if (ok(1)) cand.push_back(1);
    for (size_t j = 0; j < m.size(); j++) {
      if (!known[j]) continue;
      i64 c = std::max<i64>(1, std::abs(m[j].str) * std::max<i64>(1, m[j].ext));
      if (ok(c)) cand.push_back(c);
    }
    cand.push_back(outer);
    std::sort(cand.begin(), cand.end());
    i64 st = cand[0];
    if (cand.size() > 1 && s.chance(1, 4)) st = cand[s.pick(cand.size())];
    if (pads && s.chance(1, 2)) {
      i64 p = st + s.range(1, 6);
      if (ok(p)) st = p;
    }
    if (signs && s.chance(1, 2)) st = -st;
    m[d].str = st;
    known[d] = true;
  }
}

// With 32-bit indices, keep offsets representable, also in other layouts of the same bounds.
inline void limit_mins(MS& m, const std::vector<SD>& sd) {
  i64 w = 1;
  for (const MD& d : m) {
    if (d.str != UNRES) w = std::max(w, std::abs(d.str) * std::max<i64>(1, d.ext));
  }
  for (const MD& d : m) w = (w + 6) * std::max<i64>(2, d.ext);
  const i64 lim = std::max<i64>(12, (i64(1) << 30) / w / (i64)std::max<size_t>(1, m.size()));
  for (size_t d = 0; d < m.size(); d++) {
    if (!sd[d].smin && std::abs(m[d].min) > lim) m[d].min %= lim;
  }
}

// Generate a model shape satisfying the compile-time constants `sd`.
inline MS gen_wide(Src& s, const std::vector<SD>& sd, const GenOpts& o) {
  MS m(sd.size());
  i64 room = o.max_size;
  for (const SD& d : sd) {
    if (d.sext) room = std::max<i64>(1, room / std::max<i64>(1, d.ext));
  }
  for (size_t d = 0; d < sd.size(); d++) {
    if (sd[d].sext) {
      m[d].ext = sd[d].ext;
    } else {
      m[d].ext = gen_extent(s, o, room);
      room = std::max<i64>(1, room / std::max<i64>(1, m[d].ext));
    }
    m[d].min = sd[d].smin ? sd[d].min : gen_min(s, o);
  }
  std::vector<bool> known(sd.size());
  for (size_t d = 0; d < sd.size(); d++) {
    known[d] = sd[d].sstr;
    if (known[d]) m[d].str = sd[d].str;
  }
  if (o.unresolved) {
    // Some known, the rest unresolved.
    int mode = (int)s.weighted({2, 2, 1});
    if (mode == 0) {
      for (size_t d = 0; d < m.size(); d++) {
        if (!known[d]) m[d].str = UNRES;
      }
      return m;
    }
    gen_nested_strides(s, m, known, o);
    for (size_t d = 0; d < m.size(); d++) {
      if (!known[d] && s.chance(mode, 2)) m[d].str = UNRES;
    }
    return m;
  }
  if (o.overlap && s.chance(1, 3)) {
    for (size_t d = 0; d < m.size(); d++) {
      if (known[d]) continue;
      switch (s.weighted({3, 2, 1})) {
      case 0: m[d].str = s.range(1, 12); break;
      case 1: m[d].str = 0; break;
      default: m[d].str = o.negative ? -s.range(1, 12) : 1; break;
      }
    }
    return m;
  }
  if (!o.overlap && s.chance(1, 8)) {
    // Arbitrary strides, if they happen to be injective (e.g. interleaved).
    MS m2 = m;
    for (size_t d = 0; d < m.size(); d++) {
      if (!known[d]) m2[d].str = s.range(1, 12) * (o.negative && s.chance(1, 4) ? -1 : 1);
    }
    if (injective(m2)) return m2;
  }
  gen_nested_strides(s, m, known, o);
  if (!o.overlap) {
    // Static strides may overlap: shrink the extents until they do not.
    for (i64 e = o.max_ext; e > 0 && !injective(m); e--) {
      for (size_t d = 0; d < m.size(); d++) {
        if (!sd[d].sext) m[d].ext = std::min(m[d].ext, e);
      }
    }
  }
  return m;
}

inline MS gen(Src& s, const std::vector<SD>& sd, const GenOpts& o) {
  MS m = gen_wide(s, sd, o);
  if (sizeof(index_t) == 4 && o.huge) limit_mins(m, sd);
  return m;
}
template <class Shape>
MS gen(Src& s, const GenOpts& o) {
  return gen(s, statics<Shape>(), o);
}

// Give `m` (a shape with bounds) a new layout that satisfies `sd`, keeping mins and extents.
inline MS relayout(Src& s, const MS& m, const std::vector<SD>& sd, const GenOpts& o) {
  MS r = m;
  std::vector<bool> known(sd.size());
  for (size_t d = 0; d < sd.size(); d++) {
    known[d] = sd[d].sstr;
    if (known[d]) r[d].str = sd[d].str;
  }
  gen_nested_strides(s, r, known, o);
  return r;
}

// True if the bounds of m satisfy the static bounds sd.
inline bool bounds_fit(const MS& m, const std::vector<SD>& sd) {
  for (size_t d = 0; d < sd.size(); d++) {
    if (sd[d].smin && m[d].min != sd[d].min) return false;
    if (sd[d].sext && m[d].ext != sd[d].ext) return false;
  }
  return true;
}

// A random crop of `m` that satisfies the static bounds sd (if possible), as bounds only.
inline bool gen_crop(Src& s, const MS& m, const std::vector<SD>& sd, MS& out, bool allow_empty) {
  out.resize(m.size());
  for (size_t d = 0; d < m.size(); d++) {
    i64 lo = m[d].min, ext = m[d].ext;
    i64 e = sd[d].sext ? sd[d].ext : s.range(allow_empty ? 0 : 1, std::max<i64>(ext, 0));
    if (!sd[d].sext) e = ext - (e - (allow_empty ? 0 : 1));  // the simplest is the whole dim
    if (e > ext || e < 0) return false;
    i64 mn = sd[d].smin ? sd[d].min : lo + s.range(0, ext - e);
    if (mn < lo || mn + e > lo + ext) return false;
    out[d].min = mn;
    out[d].ext = e;
    out[d].str = 0;
  }
  return true;
}

// A guarded block of memory for array_refs: [guard | flat_extent | guard].
template <class T>
struct Buffer {
  std::vector<T> mem;
  i64 guard = 8;
  T* base = nullptr;
  Buffer() {}
  Buffer(const MS& m, T fill) { init(m, fill); }
  void init(const MS& m, T fill) {
    i64 lo = nd::empty(m) ? 0 : flat_min(m), hi = nd::empty(m) ? -1 : flat_max(m);
    mem.assign((size_t)(hi - lo + 1 + 2 * guard), fill);
    base = mem.data() + guard - lo;
  }
};

// Lists of shape types.
template <class... S>
struct types {
  static constexpr size_t size = sizeof...(S);
};

template <class Fn>
void visit_impl(size_t, Fn&&, types<>) {}
template <class S0, class... S, class Fn>
void visit_impl(size_t i, Fn&& fn, types<S0, S...>) {
  if (i == 0) {
    fn.template operator()<S0>();
  } else {
    visit_impl(i - 1, fn, types<S...>());
  }
}

using nda::broadcast_dim;
using nda::dense_dim;
using nda::dense_shape;
using nda::dim;
using nda::dynamic;
using nda::fixed_dense_shape;
using nda::fixed_dim;
using nda::interval;
using nda::shape;
using nda::shape_of_rank;
using nda::strided_dim;

}  // namespace nd

// A property over a list of types: PROP_T(name, weight, list) { ... uses Shape ... }
#define PROP_T(name, weight, list)                                                                 \
  template <class Shape>                                                                           \
  static void name##_body(pbt::Src& s, pbt::Ctx& c);                                               \
  struct name##_call {                                                                             \
    pbt::Src& s;                                                                                   \
    pbt::Ctx& c;                                                                                   \
    template <class Shape>                                                                         \
    void operator()() {                                                                            \
      NOTE(c, "type " << nd::type_name<Shape>());                                                  \
      name##_body<Shape>(s, c);                                                                    \
    }                                                                                              \
  };                                                                                               \
  PROP(name, weight) {                                                                             \
    size_t i = s.pick(list::size);                                                                 \
    nd::visit_impl(i, name##_call{s, c}, list());                                                  \
  }                                                                                                \
  template <class Shape>                                                                           \
  static void name##_body(pbt::Src& s, pbt::Ctx& c)

#endif  // ND_H
