// C04: slices and crops are exact windows onto the original elements.
#include "shapes.h"
using namespace nd;

// An argument of an indexing expression: an index, or a window.
struct W {
  bool index = false;
  bool whole = false;
  i64 min = 0, ext = 0;
};

// Kinds of arguments. `make` makes the actual argument.
struct I {
  static constexpr bool is_index = true, whole = false;
  static constexpr i64 need = 1;
  static constexpr bool zero = false;
  static constexpr i64 fixed = -1, at = 0;
  static index_t make(const W& w) { return (index_t)w.min; }
};
struct II : I {
  static int make(const W& w) { return (int)w.min; }
};
struct V {
  static constexpr bool is_index = false, whole = false, zero = false;
  static constexpr i64 fixed = -1, at = 0;
  static interval<> make(const W& w) { return interval<>((index_t)w.min, (index_t)w.ext); }
};
struct RG : V {
  static interval<> make(const W& w) { return nda::range((index_t)w.min, (index_t)(w.min + w.ext)); }
};
struct A : V {
  static constexpr bool whole = true;
  static auto make(const W&) { return nda::_; }
};
struct AL : V {
  static constexpr bool whole = true;
  static auto make(const W&) { return nda::all; }
};
struct F2 : V {
  static constexpr i64 fixed = 2;
  static auto make(const W& w) { return nda::r<2>((index_t)w.min); }
};
struct Z : V {
  static constexpr bool zero = true;
  static auto make(const W& w) { return interval<0>(0, (index_t)w.ext); }
};
struct ZF : V {
  static constexpr bool zero = true;
  static constexpr i64 fixed = 2;
  static auto make(const W&) { return interval<0, 2>(); }
};
struct D : V {
  static auto make(const W& w) { return dim<>((index_t)w.min, (index_t)w.ext, 77); }
};
struct DU : V {
  static auto make(const W& w) { return dim<>((index_t)w.min, (index_t)w.ext); }
};
struct DF : V {
  static constexpr i64 fixed = 2;
  static auto make(const W& w) { return dim<dynamic, 2, 5>((index_t)w.min, 2, 5); }
};
struct DZ : V {
  static constexpr bool zero = true;
  static auto make(const W& w) { return dense_dim<0>(0, (index_t)w.ext); }
};
// Other static mins ('zero' is whether the min is static, and 'at' what it is).
struct D21 : V {
  static constexpr bool zero = true;
  static constexpr i64 fixed = 1, at = 2;
  static auto make(const W&) { return dim<2, 1>(); }
};
struct VM : V {
  static constexpr bool zero = true;
  static constexpr i64 at = -1;
  static auto make(const W& w) { return interval<-1>(-1, (index_t)w.ext); }
};
struct V1F : V {
  static constexpr bool zero = true;
  static constexpr i64 fixed = 2, at = 1;
  static auto make(const W&) { return interval<1, 2>(); }
};
struct D1S : V {
  static constexpr bool zero = true;
  static constexpr i64 at = 1;
  static auto make(const W& w) { return dim<1, dynamic, 3>(1, (index_t)w.ext, 3); }
};
struct F1 : V {
  static constexpr i64 fixed = 1;
  static auto make(const W& w) { return nda::r<1>((index_t)w.min); }
};

// What a view is, without its type.
struct View {
  const int* base;
  MS m;
  std::vector<SD> sd;
  bool is_const;
};
template <class T, class S>
static View erase(const nda::array_ref<T, S>& r) {
  return {r.base(), model(r.shape()), statics<S>(), std::is_const<T>::value};
}

// The view must have the dims of the windows, and start at the element at their mins.
static void check_view(const View& v, const int* base, const MS& m, const std::vector<SD>& sd, const std::vector<W>& w,
    const std::vector<SD>& arg_sd) {
  MS want;
  Idx at;
  std::vector<SD> want_sd;
  for (size_t d = 0; d < m.size(); d++) {
    at.push_back(w[d].min);
    if (w[d].index) continue;
    MD k = m[d];
    k.min = w[d].min;
    k.ext = w[d].ext;
    want.push_back(k);
    SD t = sd[d];
    if (!w[d].whole) {
      t.smin = arg_sd[d].smin;
      t.min = arg_sd[d].min;
      t.sext = arg_sd[d].sext;
      t.ext = arg_sd[d].ext;
    }
    want_sd.push_back(t);
  }
  CHECK_M(v.m == want, str(v.m) << " instead of " << str(want));
  for (size_t k = 0; k < want.size(); k++) {
    if (want_sd[k].smin) CHECK_M(v.sd[k].smin && v.sd[k].min == want_sd[k].min, "the static min of dim " << k << " was lost");
    if (want_sd[k].sext) CHECK_M(v.sd[k].sext && v.sd[k].ext == want_sd[k].ext, "the static extent of dim " << k << " was lost");
    if (want_sd[k].sstr) CHECK_M(v.sd[k].sstr && v.sd[k].str == want_sd[k].str, "the static stride of dim " << k << " was lost");
  }
  if (empty(want)) return;
  CHECK_M(v.base == base + offset_of(m, at), "the base is off by " << v.base - (base + offset_of(m, at)));
}

// Static parameters of the arguments.
static std::vector<SD> arg_statics(std::initializer_list<SD> l) { return l; }
template <class K>
static SD arg_static() {
  SD r;
  r.smin = K::zero;
  r.min = K::at;
  r.sext = K::fixed >= 0;
  r.ext = K::fixed;
  return r;
}
template <class... K>
static std::vector<SD> args_of() {
  return arg_statics({arg_static<K>()...});
}

static bool contains(const MD& d, i64 i) { return i >= d.min && i < d.min + d.ext; }

static W gen_window(Src& s, const MD& d, bool is_index, bool whole, bool zero, i64 fixed, i64 at, bool& possible) {
  W w;
  w.index = is_index;
  w.whole = whole;
  if (is_index) {
    if (d.ext < 1) possible = false;
    w.min = s.range(d.min, std::max(d.min, d.max()));
    w.ext = 1;
    return w;
  }
  if (whole) {
    w.min = d.min;
    w.ext = d.ext;
    return w;
  }
  const i64 end = d.min + d.ext;
  if (zero) {
    w.min = at;
    if (d.min > at || end < at) possible = false;
  } else {
    w.min = s.range(d.min, std::max(d.min, fixed >= 0 ? end - fixed : end));
  }
  const i64 room = std::max<i64>(0, end - w.min);
  if (fixed >= 0) {
    w.ext = fixed;
    if (room < fixed) possible = false;
  } else {
    w.ext = room - s.range(0, room);
  }
  return w;
}

// Make the bounds of a dim large enough for its argument, if they are not static.
static void adapt(Src& s, MD& d, const SD& sd, bool is_index, bool zero, i64 fixed, i64 at) {
  i64 need = is_index ? 1 : std::max<i64>(0, fixed);
  if (!sd.sext && d.ext < need) d.ext = need;
  if (!sd.smin && zero) d.min = at - s.range(0, std::max<i64>(0, d.ext - std::max<i64>(1, need)));
}

template <class Shape, class... K>
struct slicer {
  static constexpr size_t R = Shape::rank();

  template <size_t... Ds>
  static void run(Src& s, Ctx& c, std::index_sequence<Ds...>) {
    std::vector<SD> sd = statics<Shape>();
    GenOpts o;
    o.max_size = 300;
    o.overlap = true;
    o.huge = true;
    MS m = gen<Shape>(s, o);
    int unused[] = {(adapt(s, m[Ds], sd[Ds], K::is_index, K::zero, K::fixed, K::at), 0)...};
    (void)unused;
    // An index that is an int must be one.
    const bool ints[] = {std::is_same<K, II>::value...};
    for (size_t d = 0; d < R; d++) {
      if (ints[d] && !sd[d].smin && std::abs(m[d].min) > (i64(1) << 30)) m[d].min %= 1000;
    }
    bool possible = true;
    std::vector<W> w = {gen_window(s, m[Ds], K::is_index, K::whole, K::zero, K::fixed, K::at, possible)...};
    if (!possible) {
      c.cls("impossible arguments (skipped)");
      return;
    }
    NOTE(c, "shape " << str(m));
    for (const W& k : w) {
      NOTE(c, (k.index ? "index " : k.whole ? "all " : "window ") << k.min << " extent " << k.ext);
      if (!k.index && !k.whole && k.ext < m[&k - &w[0]].ext) c.nontrivial = true;
      if (k.index && m[&k - &w[0]].ext > 1) c.nontrivial = true;
    }
    c.cls(empty(m), "empty");
    std::vector<SD> asd = args_of<K...>();
    auto args = std::make_tuple(K::make(w[Ds])...);
    Shape sh = make<Shape>(m);
    for (int k = 0; k < 2; k++) {
      // Arguments that may be out of range.
      std::vector<W> x = w;
      const bool zeros[] = {K::zero...};
      bool in = true, decided = true;
      for (size_t d = 0; d < R; d++) {
        if (k && !x[d].whole && !zeros[d]) x[d].min += s.around(2);
        if (x[d].whole) continue;
        if (x[d].ext == 0) decided = false;
        in = in && contains(m[d], x[d].min) && contains(m[d], x[d].min + x[d].ext - 1);
      }
      if (!decided) continue;
      c.cls(!in, "arguments out of range");
      CHECK_EQ(sh.is_in_range(K::make(x[Ds])...), in);
      CHECK_EQ(sh.is_in_range(std::make_tuple(K::make(x[Ds])...)), in);
    }
    if (empty(m)) {
      auto sub = sh(std::get<Ds>(args)...);
      check_view({nullptr, model(sub), statics<decltype(sub)>(), false}, nullptr, m, sd, w, asd);
      // A null base stays null: there is nothing to point to.
      nda::array_ref<int, Shape> null(nullptr, sh);
      View v = erase(null(std::get<Ds>(args)...));
      CHECK(v.base == nullptr);
      nda::array<int, Shape> a(sh);
      v = erase(a(std::get<Ds>(args)...));
      check_view(v, nullptr, m, sd, w, asd);
      return;
    }
    Buffer<int> buf(m, 0);
    const int* base = buf.base;
    // Shapes.
    {
      auto sub = sh(std::get<Ds>(args)...);
      auto sub2 = sh[args];
      CHECK(sub == sub2);
      CHECK(model(sh) == m);
      View v = {base + offset_of(m, Idx{w[Ds].min...}), model(sub), statics<decltype(sub)>(), false};
      check_view(v, base, m, sd, w, asd);
    }
    // References.
    const nda::array_ref<int, Shape> r(buf.base, sh);
    const nda::const_array_ref<int, Shape> cr = r;
    auto sub = r(std::get<Ds>(args)...);
    check_view(erase(sub), base, m, sd, w, asd);
    CHECK(!erase(sub).is_const);
    check_view(erase(r[args]), base, m, sd, w, asd);
    check_view(erase(cr(std::get<Ds>(args)...)), base, m, sd, w, asd);
    check_view(erase(cr[args]), base, m, sd, w, asd);
    CHECK(erase(cr[args]).is_const);
    CHECK(erase(cr(std::get<Ds>(args)...)).is_const);
    // Arrays.
    nda::array<int, Shape> a(sh);
    const auto& ca = a;
    check_view(erase(a(std::get<Ds>(args)...)), a.base(), m, sd, w, asd);
    check_view(erase(a[args]), a.base(), m, sd, w, asd);
    CHECK(!erase(a[args]).is_const);
    check_view(erase(ca(std::get<Ds>(args)...)), a.base(), m, sd, w, asd);
    check_view(erase(ca[args]), a.base(), m, sd, w, asd);
    CHECK(erase(ca[args]).is_const);
    elements(s, c, sub, base, m, w);
  }

  // Element by element, through the view, and a window of the window.
  template <class Sub>
  static void elements(Src& s, Ctx& c, Sub& sub, const int* base, const MS& m, const std::vector<W>& w) {
    constexpr size_t SR = Sub::rank();
    MS sm = model(sub.shape());
    if (empty(sm)) {
      c.cls("empty window");
      return;
    }
    auto full = [&](const Idx& j) {
      Idx i(m.size());
      size_t k = 0;
      for (size_t d = 0; d < m.size(); d++) i[d] = w[d].index ? w[d].min : j[k++];
      return i;
    };
    for_each(sm, [&](const Idx& j) {
      const int* p = &sub[index<SR>(j)];
      CHECK_M(p == base + offset_of(m, full(j)), "element at " << str(j));
    });
    again(s, c, sub, sm, base, [&](const Idx& j) { return offset_of(m, full(j)); }, std::make_index_sequence<SR>());
  }
  template <class Sub, class Fn, size_t... Ds>
  static void again(Src& s, Ctx& c, Sub& sub, const MS& sm, const int* base, Fn&& offset, std::index_sequence<Ds...>) {
    constexpr size_t SR = Sub::rank();
    bool possible = true;
    std::vector<W> w = {gen_window(s, sm[Ds], false, false, false, -1, 0, possible)...};
    auto sub2 = sub(V::make(w[Ds])...);
    MS m2 = model(sub2.shape());
    for (size_t d = 0; d < SR; d++) CHECK(m2[d].min == w[d].min && m2[d].ext == w[d].ext && m2[d].str == sm[d].str);
    for_each(m2, [&](const Idx& j) {
      const int* p = &sub2[index<SR>(j)];
      CHECK_M(p == base + offset(j), "element at " << str(j) << " of a window of a window");
    });
    if (empty(m2)) return;
    c.cls("window of a window");
    // Slice away the last dim.
    Idx at(SR);
    at[SR - 1] = s.range(m2[SR - 1].min, m2[SR - 1].max());
    auto&& sub3 = sub2[std::tuple_cat(all_but_last(std::make_index_sequence<SR - 1>()), std::make_tuple((index_t)at[SR - 1]))];
    last(sub3, base, at, offset, std::integral_constant<bool, (SR > 1)>());
  }
  template <class Sub, class Fn>
  static void again(Src&, Ctx&, Sub&, const MS&, const int*, Fn&&, std::index_sequence<>) {}
  template <size_t... Ds>
  static auto all_but_last(std::index_sequence<Ds...>) {
    return std::make_tuple((void(Ds), nda::_)...);
  }
  template <class Sub, class Fn>
  static void last(const Sub& sub, const int* base, Idx at, Fn&& offset, std::true_type) {
    MS m = model(sub.shape());
    for_each(m, [&](const Idx& j) {
      for (size_t d = 0; d < j.size(); d++) at[d] = j[d];
      const int* p = &sub[index<Sub::rank()>(j)];
      CHECK_M(p == base + offset(at), "element at " << str(j) << " of a slice of a window of a window");
    });
  }
  template <class Fn>
  static void last(const int& x, const int* base, const Idx& at, Fn&& offset, std::false_type) {
    CHECK(&x == base + offset(at));
  }
};

template <class Shape, class... K>
struct P {};
template <class Shape, class... K>
static void run_one(Src& s, Ctx& c, P<Shape, K...>) {
  NOTE(c, "type " << type_name<Shape>());
  slicer<Shape, K...>::run(s, c, std::make_index_sequence<Shape::rank()>());
}
template <class... Ps>
static void run_any(Src& s, Ctx& c) {
  using fn = void (*)(Src&, Ctx&);
  static const fn fns[] = {[](Src& s, Ctx& c) { run_one(s, c, Ps()); }...};
  fns[s.pick(sizeof...(Ps))](s, c);
}

#define S2(T) P<T, V, V>, P<T, I, V>, P<T, V, II>, P<T, A, I>, P<T, I, AL>, P<T, A, A>
#define S2B(T) P<T, F2, A>, P<T, D, Z>, P<T, I, F2>, P<T, RG, DU>, P<T, ZF, DZ>, P<T, DF, V>, P<T, D21, V1F>, P<T, F1, VM>, P<T, I, D1S>
#define S3(T) P<T, V, V, V>, P<T, I, V, A>, P<T, V, I, I>, P<T, A, D, I>, P<T, I, I, F2>

#if PART == 0
PROP(rank_1, 0.6) {
  using nega = shape<dim<-2, dynamic, -1>>;
  using a1 = any_shape<1>;
  using d1 = dense_shape<1>;
  run_any<P<a1, V>, P<a1, A>, P<a1, F2>, P<a1, Z>, P<a1, D>, P<a1, ZF>, P<d1, V>, P<d1, RG>, P<d1, DU>, P<d1, DF>, P<d1, AL>, P<a1, D21>, P<a1, V1F>, P<a1, VM>, P<d1, D1S>, P<d1, F1>, P<nega, VM>, P<nega, V>,
      P<nega, F2>, P<nega, A>>(s, c);
}
PROP(rank_2a, 1.0) { run_any<S2(any_shape<2>), S2B(any_shape<2>)>(s, c); }
#elif PART == 1
PROP(rank_2b, 1.0) { run_any<S2(dense_shape<2>), S2(matrix_shape<>)>(s, c); }
using mix2 = shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>;
using fix2 = fixed_dense_shape<3, 4>;
PROP(rank_2c, 1.0) { run_any<S2(mix2), S2B(fix2), P<fix2, V, I>, P<fix2, I, V>, P<fix2, A, V>>(s, c); }
#elif PART == 2
PROP(rank_3a, 1.0) { run_any<S3(any_shape<3>), P<any_shape<3>, Z, A, DF>, P<any_shape<3>, A, I, A>, P<any_shape<3>, D21, VM, F1>, P<any_shape<3>, A, D1S, I>>(s, c); }
PROP(rank_3b, 1.0) { run_any<S3(chunky_image_shape<3>), P<chunky_image_shape<3>, A, A, I>, P<chunky_image_shape<3>, V, V, A>>(s, c); }
#else
PROP(rank_3c, 1.0) { run_any<P<planar_image_shape, V, V, I>, P<planar_image_shape, I, V, A>, P<chunky_image_shape<>, V, I, V>, P<dense_shape<3>, D, A, F2>>(s, c); }
PROP(rank_456, 1.0) {
  using a4 = any_shape<4>;
  using a5 = any_shape<5>;
  using a6 = any_shape<6>;
  using m4 = shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>;
  run_any<P<a4, V, V, V, V>, P<a4, I, V, A, I>, P<a4, V, I, I, D>, P<a4, A, A, F2, I>, P<m4, V, A, I, A>, P<m4, V, I, V, F2>,
      P<a5, I, V, I, A, V>, P<a5, V, A, V, I, I>, P<a6, I, V, A, V, I, A>, P<a6, V, V, V, V, V, V>, P<any_shape<8>, V, I, A, V, F2, I, V, D>>(s, c);
}
#endif
