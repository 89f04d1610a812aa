// C07: value loops touch each element exactly once and never the padding.
#include "shapes.h"
using namespace nd;

// A callable that must be used in place.
struct Life {
  int copies = 0, moves = 0;
  Life() {}
  Life(const Life& r) { const_cast<Life&>(r).copies++; }
  Life(Life&& r) { r.moves++; }
  void in_place() {
    CHECK_M(copies == 0, "the callable of the caller is copied");
    CHECK_M(moves == 0, "the callable of the caller is moved from");
  }
};

// How many indices share each position of the buffer.
static std::vector<int> visits(const MS& m, size_t n, i64 base) {
  std::vector<int> r(n);
  for_each(m, [&](const Idx& i) { r[base + offset_of(m, i)]++; });
  return r;
}

static MS gen_case(Src& s, Ctx& c, const std::vector<SD>& sd, bool overlap) {
  GenOpts o;
  o.overlap = overlap;
  if (s.chance(1, 12)) {
    o.max_ext = 300;
    o.max_size = 3000;
  }
  o.huge = true;
  MS m = gen(s, sd, o);
  NOTE(c, "shape " << str(m));
  const i64 n = size_of(m);
  bool compact = n > 0 && flat_max(m) - flat_min(m) + 1 <= n;
  c.nontrivial = n > 1 && m.size() > 0;
  c.cls(n == 0, "empty");
  c.cls(n > 1 && !compact, "with padding or permuted");
  for (const MD& d : m) {
    if (d.str < 0 && d.ext > 1) {
      c.cls("negative stride");
      break;
    }
  }
  return m;
}

template <class T>
struct Mem : Buffer<T> {
  MS m;
  i64 origin;
  std::vector<T> before;
  Mem(const MS& m, T fill) : Buffer<T>(m, fill), m(m), origin(this->base - this->mem.data()) {}
  void number() {
    for (size_t i = 0; i < this->mem.size(); i++) this->mem[i] = (T)(i + 100);
    before = this->mem;
  }
  i64 pos(const T* p) {
    i64 d = p - this->mem.data();
    CHECK_M(d >= 0 && d < (i64)this->mem.size(), "address outside of the buffer");
    return d;
  }
};

static void check_counts(const std::vector<int>& got, const std::vector<int>& want, i64 origin) {
  for (size_t i = 0; i < want.size(); i++) {
    CHECK_M(got[i] == want[i], "the element at offset " << (i64)i - origin << " is visited " << got[i] << " times instead of " << want[i]);
  }
}

// for_each_value on all kinds of arrays and refs.
template <class A, class T>
static void each(Src& s, A&& a, Mem<T>& b, bool is_const) {
  std::vector<int> got(b.mem.size());
  bool want_const = is_const, was_const = false;
  i64 n = 0;
  auto visit = [&](auto& v) {
    was_const = std::is_const<typename std::remove_reference<decltype(v)>::type>::value;
    CHECK(was_const == want_const);
    got[b.pos(&v)]++;
    n++;
  };
  a.for_each_value(visit);
  CHECK_IEQ(n, size_of(b.m));
  check_counts(got, visits(b.m, b.mem.size(), b.origin), b.origin);
  CHECK_M(b.mem == b.before, "the loop changes memory");
}

struct Negate : Life {
  i64 n = 0;
  void operator()(int& v) {
    v = -v;
    n++;
  }
};

#define LATE_PROP_T(name, weight, list) PROP_T(name, weight, list)
#if PART == 0 || PART == 1
#if PART == 0
#define LIST shapes_low
#define REFS refs
#define WRITES writes
#else
#define LIST shapes_high
#define REFS refs_high
#define WRITES writes_high
#endif

LATE_PROP_T(REFS, 1.0, LIST) {
  MS m = gen_case(s, c, statics<Shape>(), true);
  Mem<int> b(m, 0);
  b.number();
  nda::array_ref<int, Shape> ref(nd::empty(m) && s.chance(1, 2) ? nullptr : b.base, make<Shape>(m));
  nda::const_array_ref<int, Shape> cref = ref;
  switch (s.pick(3)) {
  case 0: return each(s, ref, b, false);
  case 1: return each(s, cref, b, true);
  default: {
    const auto cr = ref;
    return each(s, cr, b, false);
  }
  }
}
LATE_PROP_T(WRITES, 1.0, LIST) {
  MS m = gen_case(s, c, statics<Shape>(), true);
  Mem<int> b(m, 0);
  b.number();
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  std::vector<int> v = visits(m, b.mem.size(), b.origin), want = b.before;
  for (size_t i = 0; i < want.size(); i++) {
    if (v[i] & 1) want[i] = -want[i];
  }
  Negate f;
  ref.for_each_value(f);
  f.in_place();
  CHECK_IEQ(f.n, size_of(m));
  for (size_t i = 0; i < want.size(); i++) CHECK_M(b.mem[i] == want[i], "the memory at offset " << (i64)i - b.origin << " is " << b.mem[i] << " instead of " << want[i]);
}
#endif

#if PART == 2
// Arrays: the padding of an array is memory of its buffer.
PROP_T(arrays, 1.0, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), false);
  if (!injective(m)) return;
  nda::array<int, Shape> a(make<Shape>(m));
  Mem<int> b(m, 0);
  i64 n = 0;
  for_each(m, [&](const Idx& i) { a[index<Shape::rank()>(i)] = (int)++n; });
  const auto& ca = a;
  std::map<const int*, int> seen;
  auto count = [&](const int& v) { seen[&v]++; };
  struct Const {
    std::map<const int*, int>& seen;
    void operator()(const int& v) { seen[&v]++; }
    void operator()(int&) { FAIL_("mutable element of a const array"); }
  };
  if (s.chance(1, 2)) {
    Const f{seen};
    ca.for_each_value(f);
  } else {
    a.for_each_value(count);
  }
  CHECK_IEQ(seen.size(), n);
  for (auto& k : seen) CHECK_IEQ(k.second, 1);
  for_each(m, [&](const Idx& i) { CHECK_M(seen.count(&a[index<Shape::rank()>(i)]), str(i) << " is not visited"); });
}
#endif

#if PART == 3
// fill and generate.
struct Counter : Life {
  int n = 0;
  int operator()() { return ++n; }
};
struct MoveOnlyCounter {
  std::unique_ptr<int> n{new int(0)};
  int operator()() { return ++*n; }
};
static int g_counter;
static int free_counter() { return ++g_counter; }

PROP_T(fills, 1.0, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), true);
  Mem<int> b(m, 0);
  b.number();
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  std::vector<int> v = visits(m, b.mem.size(), b.origin);
  int value = (int)s.around(1000);
  const int* src = &value;
  int stored = value;
  if (!nd::empty(m) && s.chance(1, 3)) {
    // The value is an element of the array itself.
    i64 k = (i64)s.pick((size_t)size_of(m));
    for_each(m, [&](const Idx& i) {
      if (k-- == 0) src = &b.base[offset_of(m, i)];
    });
    stored = *src;
    c.cls("the value is an element of the array");
    NOTE(c, "the value is the element at offset " << src - b.base);
  }
  nda::fill(ref, *src);
  for (size_t i = 0; i < v.size(); i++) {
    int want = v[i] ? stored : b.before[i];
    CHECK_M(b.mem[i] == want, "the memory at offset " << (i64)i - b.origin << " is " << b.mem[i] << " instead of " << want);
  }
}
PROP_T(generates, 1.0, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), true);
  Mem<int> b(m, 0);
  b.number();
  for (int& x : b.mem) x = -1;
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  std::vector<int> v = visits(m, b.mem.size(), b.origin);
  int calls = 0;
  switch (s.pick(4)) {
  case 0: {
    Counter g;
    nda::generate(ref, g);
    g.in_place();
    calls = g.n;
    break;
  }
  case 1: nda::generate(ref, [&]() { return ++calls; }); break;
  case 2: {
    MoveOnlyCounter g;
    nda::generate(ref, g);
    CHECK_M(g.n != nullptr, "the generator of the caller is moved from");
    calls = *g.n;
    break;
  }
  default:
    g_counter = 0;
    nda::generate(ref, free_counter);
    calls = g_counter;
  }
  CHECK_M(calls == size_of(m), "the generator is called " << calls << " times for " << size_of(m) << " elements");
  std::set<int> values;
  for (size_t i = 0; i < v.size(); i++) {
    if (!v[i]) {
      CHECK_M(b.mem[i] == -1, "the memory at offset " << (i64)i - b.origin << " is not an element, but is written");
    } else {
      CHECK(b.mem[i] >= 1 && b.mem[i] <= calls);
      CHECK_M(values.insert(b.mem[i]).second, "the result " << b.mem[i] << " is stored twice");
    }
  }
}
// On arrays.
PROP_T(array_fills, 0.5, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), false);
  if (!injective(m)) return;
  nda::array<int, Shape> a(make<Shape>(m), 3);
  if (s.chance(1, 2)) {
    int value = (int)s.around(1000);
    nda::fill(a, value);
    for_each(m, [&](const Idx& i) { CHECK_EQ(a[index<Shape::rank()>(i)], value); });
  } else {
    Counter g;
    nda::generate(a, g);
    g.in_place();
    CHECK_IEQ(g.n, size_of(m));
    std::set<int> values;
    for_each(m, [&](const Idx& i) { values.insert(a[index<Shape::rank()>(i)]); });
    CHECK_IEQ(values.size(), size_of(m));
    if (!values.empty()) CHECK(*values.begin() == 1 && *values.rbegin() == (int)size_of(m));
  }
}
#endif

#if PART == 4
// transform_index and transform_indices.
static int hash(const Idx& i) {
  uint64_t h = 7;
  for (i64 x : i) h = pbt::mix(h ^ (uint64_t)x);
  return (int)(h & 0x3fffffff);
}
template <size_t R>
struct TupleFn : Life {
  int n = 0;
  int operator()(const nda::index_of_rank<R>& i) {
    n++;
    return hash(from_index(i));
  }
};
struct ListFn : Life {
  int n = 0;
  template <class... T>
  int operator()(T... i) {
    n++;
    return hash(Idx{(i64)i...});
  }
};
template <size_t R>
static int free_fn(const nda::index_of_rank<R>& i) {
  return hash(from_index(i));
}
// A call of transform_* in one of the forms.
template <size_t R, class A>
static void transform(Src& s, A&& a, i64 n) {
  switch (s.pick(5)) {
  case 0: return nda::transform_index(a, [](const nda::index_of_rank<R>& i) { return hash(from_index(i)); });
  case 1: return nda::transform_indices(a, [](auto... i) { return hash(Idx{(i64)i...}); });
  case 2: {
    TupleFn<R> f;
    nda::transform_index(a, f);
    f.in_place();
    CHECK_IEQ(f.n, n);
    return;
  }
  case 3: {
    ListFn f;
    nda::transform_indices(a, f);
    f.in_place();
    CHECK_IEQ(f.n, n);
    return;
  }
  default: return nda::transform_index(a, free_fn<R>);
  }
}
PROP_T(transforms, 1.0, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), true);
  Mem<int> b(m, 0);
  b.number();
  for (int& x : b.mem) x = -1;
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  transform<Shape::rank()>(s, ref, size_of(m));
  std::vector<std::set<int>> want(b.mem.size());
  for_each(m, [&](const Idx& i) { want[b.origin + offset_of(m, i)].insert(hash(i)); });
  for (size_t i = 0; i < want.size(); i++) {
    if (want[i].empty()) {
      CHECK_M(b.mem[i] == -1, "the memory at offset " << (i64)i - b.origin << " is not an element, but is written");
    } else {
      CHECK_M(want[i].count(b.mem[i]), "the element at offset " << (i64)i - b.origin << " does not hold f(index)");
    }
  }
}
PROP_T(array_transforms, 0.5, shapes_low) {
  MS m = gen_case(s, c, statics<Shape>(), false);
  if (!injective(m)) return;
  auto run = [&](auto a) {
    transform<Shape::rank()>(s, a, size_of(m));
    for_each(m, [&](const Idx& i) { CHECK_M(a[index<Shape::rank()>(i)] == hash(i), str(i)); });
  };
  switch (s.pick(3)) {
  case 0: return run(nda::array<int, Shape, nda::uninitialized_std_allocator<int>>(make<Shape>(m)));
  case 1: return run(nda::array<int, Shape, nda::auto_allocator<int, 16>>(make<Shape>(m), 2));
  default: return run(nda::array<int, Shape>(make<Shape>(m), 3));
  }
}
PROP_T(transforms_high, 0.5, shapes_high) {
  MS m = gen_case(s, c, statics<Shape>(), false);
  if (!injective(m)) return;
  nda::array<int, Shape> a(make<Shape>(m), 3);
  transform<Shape::rank()>(s, a.ref(), size_of(m));
  for_each(m, [&](const Idx& i) { CHECK_M(a[index<Shape::rank()>(i)] == hash(i), str(i)); });
}
#endif

#if PART == 5
// Crops of arrays: the elements around the window are not touched.
template <class Ref>
static void crop_case(Src& s, Ref crop, const MS& cm, int* base, Mem<int>& b) {
  std::vector<int> want = b.mem;
  for_each(cm, [&](const Idx& i) { want[base - b.mem.data() + offset_of(cm, i)] = -7; });
  switch (s.pick(4)) {
  case 0: nda::fill(crop, -7); break;
  case 1: crop.for_each_value([](int& v) { v = -7; }); break;
  case 2: nda::generate(crop, []() { return -7; }); break;
  default: nda::transform_indices(crop, [](auto...) { return -7; });
  }
  for (size_t i = 0; i < want.size(); i++) CHECK_M(b.mem[i] == want[i], "the memory at offset " << (i64)i - b.origin << " is " << b.mem[i] << " instead of " << want[i]);
}
template <class Shape, size_t... D>
static void crops(Src& s, Ctx& c, std::index_sequence<D...>) {
  MS m = gen_case(s, c, statics<Shape>(), false);
  Mem<int> b(m, 0);
  b.number();
  nda::array_ref<int, Shape> ref(b.base, make<Shape>(m));
  MS w;
  gen_crop(s, m, std::vector<SD>(m.size()), w, true);
  MS cm = m;
  Idx mins;
  for (size_t d = 0; d < m.size(); d++) {
    cm[d].min = w[d].min;
    cm[d].ext = w[d].ext;
    mins.push_back(w[d].min);
  }
  NOTE(c, "crop " << str(cm));
  c.nontrivial = size_of(cm) > 0 && size_of(cm) < size_of(m);
  crop_case(s, ref(interval<>((index_t)w[D].min, (index_t)w[D].ext)...), cm, b.base + (nd::empty(m) ? 0 : offset_of(m, mins)), b);
}
PROP(crops_2, 0.6) {
  switch (s.pick(4)) {
  case 0: return crops<any_shape<2>>(s, c, std::make_index_sequence<2>());
  case 1: return crops<dense_shape<2>>(s, c, std::make_index_sequence<2>());
  case 2: return crops<matrix_shape<>>(s, c, std::make_index_sequence<2>());
  default: return crops<fixed_dense_shape<3, 4>>(s, c, std::make_index_sequence<2>());
  }
}
PROP(crops_3, 0.6) {
  switch (s.pick(4)) {
  case 0: return crops<any_shape<3>>(s, c, std::make_index_sequence<3>());
  case 1: return crops<planar_image_shape>(s, c, std::make_index_sequence<3>());
  case 2: return crops<chunky_image_shape<>>(s, c, std::make_index_sequence<3>());
  default: return crops<chunky_image_shape<3>>(s, c, std::make_index_sequence<3>());
  }
}
PROP(crops_4, 0.4) {
  switch (s.pick(4)) {
  case 0: return crops<any_shape<4>>(s, c, std::make_index_sequence<4>());
  case 1: return crops<dense_shape<4>>(s, c, std::make_index_sequence<4>());
  case 2: return crops<any_shape<5>>(s, c, std::make_index_sequence<5>());
  default: return crops<any_shape<7>>(s, c, std::make_index_sequence<7>());
  }
}

// Other element types.
template <class T, class Make>
static void element_case(Src& s, Ctx& c, Make value_of) {
  GenOpts o;
  MS m = gen<any_shape<2>>(s, o);
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  const T bg = value_of(-1);
  nda::array<T, any_shape<2>> a(make<any_shape<2>>(m), bg);
  for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == bg); });
  const T v = value_of((int)s.around(50));
  nda::fill(a, v);
  for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == v); });
  if (!nd::empty(m)) {
    nda::transform_indices(a, [&](index_t x, index_t y) { return value_of((int)(x * 100 + y)); });
    for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == value_of((int)(i[0] * 100 + i[1]))); });
    // A value inside the array.
    Idx at = {m[0].min + (i64)s.pick((size_t)m[0].ext), m[1].min + (i64)s.pick((size_t)m[1].ext)};
    const T want = a[index<2>(at)];
    nda::fill(a, a[index<2>(at)]);
    for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == want); });
  }
}
// The results of the functions are converted to the elements as an assignment does.
template <class T, class R>
static void converted_case(Src& s, Ctx& c) {
  GenOpts o;
  MS m = gen<any_shape<2>>(s, o);
  NOTE(c, "shape " << str(m) << ", results of " << sizeof(R) << " bytes to elements of " << sizeof(T) << " bytes");
  c.nontrivial = size_of(m) > 1;
  nda::array<T, any_shape<2>> a(make<any_shape<2>>(m), (T)1);
  const i64 k = s.range(0, 100);
  auto value_of = [&](index_t x, index_t y) { return (R)((x * 31 + y * 7 + k) % 101) / (R)4; };
  nda::transform_indices(a, value_of);
  for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == (T)value_of((index_t)i[0], (index_t)i[1])); });
  nda::transform_index(a.ref(), [&](const nda::index_of_rank<2>& i) -> R { return value_of(std::get<1>(i), std::get<0>(i)); });
  for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == (T)value_of((index_t)i[1], (index_t)i[0])); });
  const R v = value_of(1, 2);
  const R& ref = v;
  nda::generate(a, [&]() -> const R& { return ref; });
  for_each(m, [&](const Idx& i) { CHECK(a[index<2>(i)] == (T)v); });
}
PROP(converted_results, 0.2) {
  switch (s.pick(4)) {
  case 0: return converted_case<int, double>(s, c);
  case 1: return converted_case<double, int>(s, c);
  case 2: return converted_case<signed char, float>(s, c);
  default: return converted_case<long long, short>(s, c);
  }
}
PROP(element_types, 0.3) {
  switch (s.pick(4)) {
  case 0: return element_case<std::string>(s, c, [](int i) { return "a somewhat longer string " + std::to_string(i); });
  case 1: return element_case<double>(s, c, [](int i) { return i * 0.5; });
  case 2: return element_case<char>(s, c, [](int i) { return (char)i; });
  default: return element_case<std::array<int, 7>>(s, c, [](int i) { return std::array<int, 7>{{i, 1, 2, 3, 4, 5, -i}}; });
  }
}
#endif

#if PART == 6
// The loops that shape traits are made of: in the order of the dims, on the addresses of the
// elements of one or two arrays.
static MS gen_ordered(Src& s, Ctx& c, const std::vector<SD>& sd) {
  GenOpts o;
  o.overlap = true;
  o.huge = true;
  if (s.chance(1, 10)) {
    o.max_ext = 200;
    o.max_size = 2000;
  }
  MS m = gen(s, sd, o);
  NOTE(c, "shape " << str(m));
  c.cls(nd::empty(m), "empty");
  return m;
}
PROP_T(in_order, 1.0, shapes_low) {
  MS m = gen_ordered(s, c, statics<Shape>());
  c.nontrivial = size_of(m) > 1 && m.size() > 0;
  Mem<int> b(m, 0);
  b.number();
  std::vector<i64> want, got;
  for_each(m, [&](const Idx& i) { want.push_back(b.origin + offset_of(m, i)); });
  int* base = nd::empty(m) && s.chance(1, 2) ? nullptr : b.base;
  const bool traits = s.chance(1, 3), cst = s.chance(1, 2);
  auto visit = [&](auto& v) { got.push_back(b.pos(&v)); };
  if (traits) {
    if (cst) {
      nda::shape_traits<Shape>::for_each_value(make<Shape>(m), (const int*)base, visit);
    } else {
      nda::shape_traits<Shape>::for_each_value(make<Shape>(m), base, visit);
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
  } else if (cst) {
    nda::for_each_value_in_order(make<Shape>(m), (const int*)base, visit);
  } else {
    nda::for_each_value_in_order(make<Shape>(m), base, visit);
  }
  c.cls(traits, "traits");
  CHECK_IEQ(got.size(), want.size());
  for (size_t k = 0; k < want.size(); k++) CHECK_M(got[k] == want[k], "call " << k << " is for the offset " << got[k] - b.origin << " instead of " << want[k] - b.origin);
  CHECK_M(b.mem == b.before, "the loop changes memory");
}

// The window is in both arrays, which have layouts of their own.
template <class ShapeA, class ShapeB>
static void pair_case(Src& s, Ctx& c) {
  constexpr size_t R = ShapeA::rank();
  MS a = gen_ordered(s, c, statics<ShapeA>());
  MS w, bs;
  const bool may_be_empty = s.chance(1, 6);
  gen_crop(s, a, std::vector<SD>(R), w, may_be_empty || nd::empty(a));
  // The other array has the window and more around it.
  std::vector<SD> sdb = statics<ShapeB>();
  bool fits = false;
  GenOpts o;
  o.overlap = true;
  o.allow_empty = may_be_empty;
  o.max_ext = 12;
  o.max_size = 2000;
  for (int t = 0; t < 3 && !fits; t++) {
    MS v = gen(s, sdb, o);
    // Place it around the window.
    fits = true;
    for (size_t d = 0; d < R; d++) {
      w[d].ext = std::min(w[d].ext, v[d].ext);
      const i64 slack = v[d].ext - w[d].ext;
      if (!sdb[d].smin) {
        v[d].min = w[d].min - s.range(0, slack);
      } else if (v[d].min > w[d].min || v[d].min + v[d].ext < w[d].min + w[d].ext) {
        fits = false;
      }
    }
    if (fits) bs = v;
  }
  if (!fits) return;
  NOTE(c, "the other " << str(bs));
  for (size_t d = 0; d < R; d++) w[d].str = s.around(50);  // Strides that must not be used.
  NOTE(c, "window " << str(w));
  c.nontrivial = size_of(w) > 1;
  Mem<int> ma(a, 0), mb(bs, 0);
  ma.number();
  mb.number();
  std::vector<std::pair<i64, i64>> want, got;
  for_each(w, [&](const Idx& i) { want.push_back({ma.origin + offset_of(a, i), mb.origin + offset_of(bs, i)}); });
  const int* pa = ma.base;
  int* pb = mb.base;
  if (nd::empty(w) && s.chance(1, 2)) pa = nullptr;
  if (nd::empty(w) && s.chance(1, 2)) pb = nullptr;
  nda::for_each_value_in_order(make<any_shape<R>>(w), make<ShapeA>(a), pa, make<ShapeB>(bs), pb, [&](const int& x, int& y) { got.push_back({ma.pos(&x), mb.pos(&y)}); });
  CHECK_IEQ(got.size(), want.size());
  for (size_t k = 0; k < want.size(); k++) {
    CHECK_M(got[k].first == want[k].first, "call " << k << " is for the offset " << got[k].first - ma.origin << " of a instead of " << want[k].first - ma.origin);
    CHECK_M(got[k].second == want[k].second, "call " << k << " is for the offset " << got[k].second - mb.origin << " of b instead of " << want[k].second - mb.origin);
  }
}
PROP(in_order_pair, 1.0) {
  switch (s.pick(10)) {
  case 0: return pair_case<any_shape<1>, dense_shape<1>>(s, c);
  case 1: return pair_case<dense_shape<1>, any_shape<1>>(s, c);
  case 2: return pair_case<any_shape<2>, any_shape<2>>(s, c);
  case 3: return pair_case<dense_shape<2>, matrix_shape<>>(s, c);
  case 4: return pair_case<matrix_shape<>, any_shape<2>>(s, c);
  case 5: return pair_case<any_shape<3>, chunky_image_shape<>>(s, c);
  case 6: return pair_case<planar_image_shape, dense_shape<3>>(s, c);
  case 7: return pair_case<any_shape<3>, any_shape<3>>(s, c);
  case 8: return pair_case<any_shape<0>, any_shape<0>>(s, c);
  default: return pair_case<dense_shape<4>, any_shape<4>>(s, c);
  }
}

// generate calls the generator in the order of for_each_value, transform_index and
// transform_indices call the function in the order of for_each_index.
PROP_T(same_order, 0.6, shapes_low) {
  GenOpts o;
  MS m = gen<Shape>(s, o);
  NOTE(c, "shape " << str(m));
  c.nontrivial = size_of(m) > 1;
  nda::array<int, Shape> a(make<Shape>(m), 0), b(make<Shape>(m), 0);
  int n = 0, k = 0;
  const size_t form = s.pick(4);
  nda::array_ref<int, Shape> ra = a.ref();
  switch (form) {
  case 0: nda::generate(a, [&]() { return ++n; }); break;
  case 1: nda::generate(ra, [&]() { return ++n; }); break;
  case 2: nda::transform_index(a, [&](const typename Shape::index_type&) { return ++n; }); break;
  default: nda::transform_indices(ra, [&](auto...) { return ++n; });
  }
  if (form < 2) {
    b.for_each_value([&](int& v) { v = ++k; });
  } else {
    nda::for_each_index(b.shape(), [&](const typename Shape::index_type& i) { b[i] = ++k; });
  }
  CHECK_IEQ(n, k);
  for_each(m, [&](const Idx& i) { CHECK_M(a[index<Shape::rank()>(i)] == b[index<Shape::rank()>(i)], "the element " << str(i) << " is in call " << a[index<Shape::rank()>(i)] << " instead of " << b[index<Shape::rank()>(i)]); });
}
#endif
