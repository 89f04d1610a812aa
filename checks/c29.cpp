// C29: results do not depend on index width, optimization, assertions or compiler.
//
// This file is compiled several times: once as the driver, and once for each variant of the
// build (other index type, optimization, assertions, compiler, language), with the namespaces
// renamed so that all of them fit in one program. The driver generates the choices of a program
// on arrays, runs it in every variant and compares what the variants observed.
#ifdef VARIANT

#include "array/ein_reduce.h"
#include "array/z_order.h"
#include "shapes.h"
using namespace nd;
using nda::array;
using nda::array_ref;

namespace {

struct Log {
  std::string text;
  template <class T>
  Log& operator<<(const T& v) {
    std::ostringstream os;
    os << v;
    text += os.str();
    return *this;
  }
};

template <class T>
std::string tuple_str(const T& t) {
  return nd::str(from_index(t));
}

// The elements of a, in the order of for_each_value, and by index.
template <class A>
void dump(Log& log, const char* what, const A& a) {
  MS m = model(a.shape());
  log << what << " " << str(m) << " size " << a.size() << " empty " << a.empty() << " compact " << (nd::empty(m) ? 0 : a.is_compact()) << ":";
  int n = 0;
  a.for_each_value([&](const int& v) {
    if (n++ < 200) log << " " << v;
  });
  log << " |";
  n = 0;
  nda::for_each_index(a.shape(), [&](const nda::index_of_rank<A::rank()>& i) {
    if (n++ < 200) log << " " << a[i];
  });
  log << "\n";
}

template <class Shape>
MS bounded(Src& s, i64 max_ext = 6) {
  GenOpts o;
  o.max_ext = max_ext;
  o.max_size = 80;
  return gen(s, statics<Shape>(), o);
}

// ---- programs
template <class Shape>
void values(Src& s, Log& log) {
  MS m = bounded<Shape>(s);
  std::vector<SD> sd = statics<Shape>();
  for (size_t d = 0; d < m.size(); d++) {
    if (!sd[d].sstr && s.chance(1, 3)) m[d].str = UNRES;
  }
  if (!injective(resolved(m))) return;
  constexpr size_t R = Shape::rank();
  array<int, Shape> a(make<Shape>(m), 7);
  dump(log, "constructed", a);
  int k = 0;
  generate(a, [&]() { return ++k; });
  dump(log, "generated", a);
  // Orders.
  log << "indices";
  nda::for_each_index(a.shape(), [&](const nda::index_of_rank<R>& i) { log << " " << tuple_str(i); });
  log << "\n";
  // Copies.
  array<int, Shape> b(a);
  log << (a == b) << nda::equal(a, b);
  MS inner;
  if (!nd::empty(m) && gen_crop(s, model(a.shape()), sd, inner, false)) {
    auto c = nda::make_copy(a, make<Shape>(inner));
    dump(log, "copy of a crop", c);
    array<int, nda::shape_of_rank<R>> d(make<nda::shape_of_rank<R>>(relayout(s, inner, statics<nda::shape_of_rank<R>>(), GenOpts())));
    nda::copy(a, d);
    dump(log, "copied", d);
    log << "equal " << nda::equal(c, d) << " " << (d == d) << "\n";
    auto e = nda::make_compact_copy(d);
    dump(log, "compact", e);
    for (MD& x : inner) x.str = UNRES;
    dump(log, "dense", nda::make_copy(d, dense_shape<R>(make<nda::shape_of_rank<R>>(inner))));
  }
  MS other = bounded<Shape>(s);
  if (injective(resolved(other))) {
    b.reshape(make<Shape>(other));
    int n = 0;
    MS overlap;
    b.for_each_value([&](int&) { n++; });
    log << "reshaped " << str(model(b.shape())) << " " << n << "\n";
    generate(b, [&]() { return --k; });
    swap(a, b);
    dump(log, "swapped", a);
    b = std::move(a);
    dump(log, "moved", b);
  }
  b.clear();
  log << "cleared " << b.size() << "\n";
}

template <class Shape>
void algebra(Src& s, Log& log) {
  MS m = bounded<Shape>(s), o = bounded<Shape>(s);
  Shape x = make<Shape>(m), y = make<Shape>(o);
  log << str(model(x)) << " " << str(model(y)) << " " << (x == y) << " " << x.size() << " " << x.empty() << "\n";
  if (!nd::empty(m)) {
    log << "flat " << x.flat_min() << " " << x.flat_max() << " " << x.flat_extent() << " " << x.is_compact() << " one to one " << x.is_one_to_one() << "\n";
    log << "in range " << x.is_in_range(y.min()) << " " << x.is_in_range(x.max()) << " " << tuple_str(x.min()) << tuple_str(x.max()) << tuple_str(x.extent()) << "\n";
    log << "offset " << x[x.max()] << " " << x[x.min()] << "\n";
    if (!nd::empty(o)) {
      log << "subset " << x.is_subset_of(y, (index_t)s.around(30)) << "\n";
      log << "compatible " << nda::is_compatible<fixed_dense_shape<3, 4>>(nda::shape_of_rank<2>(dim<>((index_t)m[0].min, (index_t)m[0].ext, 1), dim<>(0, 4, 3))) << "\n";
    }
    log << "compact " << str(model(nda::make_compact(x))) << "\n";
  }
  for (const MD& d : m) {
    nda::interval<> i((index_t)d.min, (index_t)d.ext);
    const index_t at = (index_t)s.around(20);
    log << "interval " << i.min() << " " << i.max() << " " << i.is_in_range(at) << " " << (d.ext ? nda::clamp(at, i) : 0) << ":";
    for (index_t j : i) log << " " << j;
    const index_t step = (index_t)s.range(1, 4);
    log << " split";
    if (d.ext > 0) {
      for (auto j : nda::split(i, step)) log << " " << j.min() << "," << j.extent();
    }
    if (d.ext >= 3) {
      for (auto j : nda::split<3>(i)) log << " " << j.min() << "," << j.extent();
    }
    log << "\n";
  }
}

void views(Src& s, Log& log) {
  using S3 = nda::shape_of_rank<3>;
  MS m = bounded<S3>(s, 4);
  if (nd::empty(m) || !injective(m)) return;
  array<int, S3> a(make<S3>(m));
  int k = 100;
  generate(a, [&]() { return k++; });
  index_t p[3], q[3];
  for (int d = 0; d < 3; d++) {
    p[d] = (index_t)s.range(m[d].min, m[d].max());
    q[d] = (index_t)s.range(p[d], m[d].max());
  }
  dump(log, "slice", a(p[0], nda::_, nda::_));
  dump(log, "window", a(nda::r(p[0], q[0]), p[1], nda::_));
  dump(log, "windows", a(nda::r(p[0], q[0]), nda::_, nda::r(p[2], q[2])));
  dump(log, "all", a(nda::_, nda::_, p[2]));
  dump(log, "transposed", nda::transpose<2, 0, 1>(a));
  dump(log, "reordered", nda::reorder<1, 0, 2>(a));
  nda::for_all_indices<2, 0, 1>(a.shape(), [&](index_t x, index_t y, index_t z) { log << " " << x << "," << y << "," << z; });
  log << "\n";
  nda::for_each_index<1, 2, 0>(a.shape(), [&](const nda::index_of_rank<3>& i) { log << " " << tuple_str(i); });
  log << "\n";
  // Through a view.
  auto v = a(nda::r(p[0], q[0]), nda::_, p[2]);
  nda::fill(v, -1);
  dump(log, "filled", a);
  auto r = nda::reinterpret<unsigned>(a);
  log << "as unsigned " << r(p[0], p[1], p[2]) << "\n";
}

void sums(Src& s, Log& log) {
  const i64 I = s.range(1, 4), J = s.range(1, 4), K = s.range(1, 4);
  const i64 i0 = s.around(4), j0 = s.around(4), k0 = s.around(4);
  using S1 = nda::shape_of_rank<1>;
  using S2 = nda::shape_of_rank<2>;
  auto mat = [&](i64 a0, i64 a, i64 b0, i64 b) {
    array<int, S2> x(make<S2>(relayout(s, MS{{a0, a, 0}, {b0, b, 0}}, statics<S2>(), GenOpts())));
    x.for_each_value([&](int& v) { v = (int)s.around(9); });
    return x;
  };
  auto a = mat(i0, I, k0, K);
  auto b = mat(k0, K, j0, J);
  array<int, S1> v(S1(dim<>((index_t)k0, (index_t)K)));
  v.for_each_value([&](int& x) { x = (int)s.around(9); });
  enum { i = 0, j = 1, k = 2 };
  dump(log, "product", nda::make_ein_sum<int, i, j>(nda::ein<i, k>(a) * nda::ein<k, j>(b)));
  dump(log, "vector", nda::make_ein_sum<int, i>(nda::ein<i, k>(a) * nda::ein<k>(v)));
  dump(log, "scalar", nda::make_ein_sum<int>(nda::ein<k>(v) * nda::ein<k>(v)));
  auto c = mat(i0, I, j0, J);
  nda::ein_reduce(nda::ein<i, j>(c) += nda::ein<i, k>(a) * nda::ein<k, j>(b) - nda::ein<k>(v));
  dump(log, "reduced", c);
  nda::ein_reduce(nda::ein<i, j>(c) = nda::max(nda::ein<i, j>(c), nda::ein<i, j>(c) + nda::ein<k, j>(b)));
  dump(log, "assigned", c);
  int t = 0;
  nda::ein_reduce(nda::ein(t) += nda::ein<i, j>(c));
  log << "total " << t << "\n";
  // Small integers in floats: exact in any order.
  array<float, S1> f(S1(dim<>((index_t)k0, (index_t)K)));
  f.for_each_value([&](float& x) { x = (float)s.around(30); });
  float g = nda::make_ein_sum<float>(nda::ein<k>(f) * nda::ein<k>(f));
  log << "float " << g << "\n";
}

void images(Src& s, Log& log) {
  const i64 w = s.range(1, 6), h = s.range(1, 5), x0 = s.around(4), y0 = s.around(4);
  auto go = [&](auto img) {
    int k = 1;
    generate(img, [&]() { return k++; });
    dump(log, "image", img);
    const i64 cx = s.range(0, w - 1), cy = s.range(1, h);
    dump(log, "crop", nda::crop(img, (index_t)(x0 + cx), (index_t)y0, (index_t)(x0 + w), (index_t)(y0 + cy)));
    log << img.width() << "x" << img.height() << " " << img.channels() << "\n";
    nda::for_all_indices(img.shape(), [&](index_t x, index_t y, index_t c) { log << " " << x << "," << y << "," << c; });
    log << "\n";
  };
  go(array<int, nda::chunky_image_shape<3>>(make<nda::chunky_image_shape<3>>(MS{{x0, w, 3}, {y0, h, UNRES}, {0, 3, 1}})));
  go(array<int, nda::planar_image_shape>(make<nda::planar_image_shape>(MS{{x0, w, 1}, {y0, h, UNRES}, {0, 2, UNRES}})));
}

// Refs made from partial shapes, reinterpretations, conversions.
template <class Shape>
void refs(Src& s, Log& log) {
  MS m = bounded<Shape>(s);
  std::vector<SD> sd = statics<Shape>();
  constexpr size_t R = Shape::rank();
  for (size_t d = 0; d < m.size(); d++) {
    if (!sd[d].sstr && s.chance(1, 2)) m[d].str = UNRES;
  }
  const MS res = resolved(m);
  if (nd::empty(m) || !injective(res)) {
    array_ref<int, Shape> none(nullptr, make<Shape>(m));
    log << "null ref " << str(model(none.shape())) << none.empty() << (none.base() == nullptr) << "\n";
    int k = 0;
    none = array_ref<int, Shape>(nullptr, make<Shape>(m));
    if (nd::empty(m)) none.for_each_value([&](int&) { k++; });
    log << k << "\n";
    return;
  }
  const i64 lo = flat_min(res), n = flat_max(res) - lo + 1;
  if (n > 4000) return;
  std::vector<int> mem((size_t)n, 3);
  array_ref<int, Shape> a(mem.data() - lo, make<Shape>(m));
  dump(log, "ref", a);
  log << "data " << (a.data() - mem.data()) << " base " << (a.base() - mem.data()) << "\n";
  auto b = nda::make_array_ref(mem.data() - lo, make<Shape>(m));
  log << str(model(b.shape())) << (a == b) << (a != b) << "\n";
  int k = 0;
  nda::transform_index(b, [&](const nda::index_of_rank<R>& i) { return ++k + (int)b.shape()[i]; });
  dump(log, "transformed", a.cref());
  nda::const_array_ref<int, nda::shape_of_rank<R>> g(b.cref());
  dump(log, "as a general ref", g);
  dump(log, "converted", nda::convert_shape<nda::shape_of_rank<R>>(a));
  dump(log, "with another dim", nda::convert_shape<nda::shape_of_rank<R>>(a));
  MS flat = {{(i64)s.around(5), (i64)s.range(0, n), s.chance(1, 2) ? UNRES : 1}};
  dump(log, "flat", nda::reinterpret_shape(a, make<nda::shape_of_rank<1>>(flat), (index_t)lo));
  array_ref<int, Shape> w = a;
  MS inner;
  if (gen_crop(s, res, sd, inner, false)) {
    // The base of a window in the same storage.
    i64 at = 0;
    for (size_t d = 0; d < R; d++) {
      at += (inner[d].min - res[d].min) * res[d].str;
      inner[d].str = res[d].str;
    }
    w.set_shape(make<Shape>(inner), (index_t)at);
    dump(log, "window", w);
    log << "compatible " << nda::is_compatible<Shape>(g.shape()) << nda::is_explicitly_compatible<nda::shape_of_rank<R + 1>>(w.shape()) << nda::is_compatible<Shape>(nda::shape_of_rank<R>(make<nda::shape_of_rank<R>>(inner))) << "\n";
  }
  array<int, Shape> own = nda::make_copy(a);
  array<int, Shape> taken = nda::make_move(own.ref(), own.shape());
  dump(log, "moved", taken);
  auto compact = nda::make_compact_move(taken);
  dump(log, "compact", compact);
  const index_t size = (index_t)own.shape().flat_extent();
  auto line = nda::move_reinterpret_shape<nda::shape_of_rank<1>>(
      std::move(own), nda::shape_of_rank<1>(dim<>((index_t)s.around(4), size - 1, 1)), (index_t)own.shape().flat_min());
  log << "line " << str(model(line.shape())) << line.size() << "; left " << own.size() << "\n";
}

// Arrays as values, with an allocator.
void history(Src& s, Log& log) {
  using S2 = nda::shape_of_rank<2>;
  using A = array<int, S2, nda::auto_allocator<int, 12>>;
  std::vector<A> v(3);
  int k = 1;
  auto partial = [&]() {
    MS m = bounded<S2>(s, 4);
    for (MD& d : m) {
      if (s.chance(1, 2)) d.str = UNRES;
    }
    if (!injective(resolved(m))) m[0].str = m[1].str = UNRES;
    return make<S2>(m);
  };
  const int steps = (int)s.range(1, 8);
  for (int i = 0; i < steps; i++) {
    const size_t op = s.pick(10), x = s.pick(3), y = s.pick(3);
    A& a = v[x];
    log << "op " << op << " " << x << " " << y << "\n";
    switch (op) {
    case 0: a = A(partial(), k); break;
    case 1: a.assign(partial(), k); break;
    case 2: a = v[y]; break;
    case 3:
      if (x != y) a = std::move(v[y]);
      break;
    case 4: swap(a, v[y]); break;
    case 5: {
      a.reshape(partial());
      // New elements have the value of int().
      break;
    }
    case 6: a.clear(); break;
    case 7: nda::generate(a, [&]() { return ++k; }); break;
    case 8: {
      A t(a);
      const S2 to = partial();
      v[y] = A(to, 2);
      MS in;
      if (gen_crop(s, model(t.shape()), statics<S2>(), in, false) && !nd::empty(in)) {
        v[y] = nda::make_move(std::move(t), make<S2>(relayout(s, in, statics<S2>(), GenOpts())), nda::auto_allocator<int, 12>());
        dump(log, "moved", v[y]);
      }
      break;
    }
    default: log << (a == v[y]) << (a != v[y]) << nda::equal(a, v[y]) << "\n"; break;
    }
    k++;
    if (op != 8) dump(log, "array", a);
  }
  for (A& a : v) dump(log, "array", a);
}

void orders(Src& s, Log& log) {
  nda::interval<> x{(index_t)s.around(9), (index_t)s.range(0, 7)}, y{(index_t)s.around(9), (index_t)s.range(0, 7)};
  log << "z";
  nda::for_all_in_z_order(std::make_tuple(x, y), [&](index_t i, index_t j) { log << " " << i << "," << j; });
  if (x.extent() > 0 && y.extent() > 0) {
    const index_t f = (index_t)s.range(1, 4);
    auto sx = nda::split(x, f);
    log << " splits " << sx.size();
    nda::for_all_in_z_order(std::make_tuple(sx, y), [&](const nda::interval<>& i, index_t j) { log << " " << i.min() << "," << i.max() << "," << j; });
    auto it = sx.begin() + (sx.size() - 1);
    log << " last " << it->min() << " " << it->extent() << " " << (sx.end() - it) << " " << (++it == sx.end());
  }
  log << "\n";
  // Intervals and dims are changed and converted.
  nda::dim<> d{(index_t)s.around(9), (index_t)s.range(0, 9), (index_t)s.around(9)};
  nda::dim<> e = d;
  e.set_min((index_t)s.around(9));
  e.set_max(e.min() + (index_t)s.range(0, 5));
  log << e.min() << " " << e.max() << " " << e.extent() << " " << e.stride() << (d == e) << (d != e) << d.is_in_range(e) << e.flat_offset((index_t)s.around(20)) << "\n";
  nda::dim<dynamic, 4> f(e.min(), 4, e.stride());
  nda::interval<dynamic, 4> g(f.min(), 4);
  e = f;
  log << e.min() << " " << e.extent() << " " << e.stride() << " " << (g == nda::interval<>(f.min(), f.extent())) << " " << (*(g.begin() + 2)) << " " << g.begin()[1] << " " << (g.end() - g.begin()) << "\n";
  index_t n = 0;
  for (auto i = f.begin(); i != f.end(); i++) n += *i;
  log << n << "\n";
}

}  // namespace

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" void CAT(c29_variant_, VARIANT)(const uint64_t* tape, size_t n, std::string* out) {
  static pbt::Slot slot;
  slot.tape_len = 0;
  std::vector<uint64_t> in(tape, tape + n);
  Src s(&slot, &in);
  Log log;
  try {
    using V = void (*)(Src&, Log&);
    static const V programs[] = {views, sums, images, values<any_shape<1>>, values<any_shape<2>>, values<any_shape<3>>, values<dense_shape<2>>,
        values<nda::chunky_image_shape<3>>, values<fixed_dense_shape<3, 4>>, values<shape<dim<-2, dynamic, -1>, dim<>>>, algebra<any_shape<1>>,
        algebra<any_shape<2>>, algebra<any_shape<3>>, algebra<any_shape<4>>, algebra<dense_shape<3>>,
        history, orders, refs<any_shape<1>>, refs<any_shape<2>>, refs<any_shape<3>>, refs<dense_shape<2>>, refs<shape<dim<-2, dynamic, -1>, dim<>>>,
        refs<nda::chunky_image_shape<3>>, refs<nda::matrix_shape<>>};
    const size_t k = s.pick(sizeof(programs) / sizeof(*programs));
    log << "program " << k << "\n";
    programs[k](s, log);
  } catch (const pbt::Failure& f) {
    log << "failed: " << f.msg << "\n";
  } catch (const std::exception& e) { log << "exception: " << e.what() << "\n"; }
  *out = log.text;
}

#else  // The driver.

#include "pbt.h"
using pbt::Ctx;
using pbt::Src;

#define VARIANTS(X)                                                                                \
  X(0, "clang -O0, assertions, 64 bit")                                                            \
  X(1, "clang -O2 -DNDEBUG -ffast-math, 64 bit")                                                   \
  X(2, "clang -O0, assertions, 32 bit")                                                            \
  X(3, "clang -O3 -DNDEBUG -std=c++17, 32 bit")                                                    \
  X(4, "gcc -O2, assertions, 64 bit")                                                              \
  X(5, "gcc -O3 -DNDEBUG -std=c++20, 32 bit")
#define X(n, name) extern "C" void c29_variant_##n(const uint64_t*, size_t, std::string*);
VARIANTS(X)
#undef X

PROP(variants, 1.0) {
  std::vector<uint64_t> tape;
  const size_t n = 40;
  for (size_t i = 0; i < n; i++) tape.push_back(s.draw(0xffffffff));
  // The rest is derived.
  uint64_t x = tape.back();
  while (x && tape.size() < 400) tape.push_back(x = pbt::mix(x) >> 32);
  struct V {
    const char* name;
    void (*run)(const uint64_t*, size_t, std::string*);
  };
#define X(n, name) {name, c29_variant_##n},
  static const V variants[] = {VARIANTS(X)};
#undef X
  std::string first;
  for (const V& v : variants) {
    std::string out;
    v.run(tape.data(), tape.size(), &out);
    if (&v == variants) {
      first = out;
      NOTE(c, out.substr(0, 6000));
      c.nontrivial = std::count(out.begin(), out.end(), '\n') > 4;
      continue;
    }
    if (out == first) continue;
    // The first difference.
    std::istringstream a(first), b(out);
    std::string la, lb;
    while (true) {
      bool ha = (bool)std::getline(a, la), hb = (bool)std::getline(b, lb);
      if (ha && hb && la == lb) continue;
      FAIL_("the variants differ.\n" << variants[0].name << ": " << (ha ? la : "ends") << "\n" << v.name << ": " << (hb ? lb : "ends"));
    }
  }
}
#endif
