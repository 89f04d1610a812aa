// C25: in debug builds violated preconditions stop the program (by a failed assertion, before any
// memory is touched), and operations whose preconditions hold never stop.
#include "array/ein_reduce.h"
#include "shapes.h"
using namespace nd;
using nda::array;
using nda::array_ref;

namespace {

// Runs fn in a child process. Does it end by a failed assertion?
enum End { kReturned, kAborted, kOther };
template <class Fn>
End ending(Fn&& fn) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    struct itimerval tv;
    memset(&tv, 0, sizeof(tv));
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    struct rlimit rl = {20, 20};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGABRT, SIG_DFL);
    try {
      fn();
    } catch (...) { _exit(77); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return kReturned;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return kAborted;
  return kOther;
}

// With `valid` runs fn here, otherwise it must stop.
template <class Fn>
void must(bool valid, const char* what, Fn&& fn) {
  if (valid) {
    fn();
    return;
  }
  End e = ending(fn);
  CHECK_M(e != kReturned, "a violated precondition of " << what << " is not detected");
  CHECK_M(e == kAborted, "a violated precondition of " << what << " is detected only by the damage it does");
}

// Memory that a child process shares with its parent.
struct Shared {
  static constexpr i64 N = 4096;
  int* p;
  Shared() {
    p = (int*)mmap(nullptr, N * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CHECK(p != MAP_FAILED);
    for (i64 i = 0; i < N; i++) p[i] = (int)(i % 11 + 1);
  }
  ~Shared() { munmap(p, N * sizeof(int)); }
  void untouched() const {
    for (i64 i = 0; i < N; i++) CHECK_M(p[i] == (int)(i % 11 + 1), "memory was written before the program stopped");
  }
};

GenOpts small() {
  GenOpts o;
  o.max_ext = 5;
  o.max_size = 60;
  return o;
}

// Is a dim with these values compatible with the static parameters? (An unresolved stride becomes
// the static one.)
bool fits(const MD& m, const SD& d) {
  return (!d.smin || d.min == m.min) && (!d.sext || d.ext == m.ext) && (!d.sstr || m.str == UNRES || d.str == m.str);
}
bool fits(const MS& m, const std::vector<SD>& d) {
  for (size_t i = 0; i < m.size(); i++) {
    if (!fits(m[i], d[i])) return false;
  }
  return true;
}
MS with_static_strides(MS m, const std::vector<SD>& d) {
  for (size_t i = 0; i < m.size(); i++) {
    if (m[i].str == UNRES && d[i].sstr) m[i].str = d[i].str;
  }
  return m;
}
// Changes some values of m by a little.
void disturb(Src& s, MS& m, int n) {
  for (int i = 0; i < n && !m.empty(); i++) {
    MD& d = m[s.pick(m.size())];
    i64 by = s.chance(3, 4) ? (s.chance(1, 2) ? 1 : -1) : s.around(6);
    switch (s.pick(3)) {
    case 0: d.min += by; break;
    case 1: d.ext = std::max<i64>(0, d.ext + by); break;
    default: d.str = d.str == UNRES ? s.around(20) : s.chance(1, 6) ? UNRES : d.str + by;
    }
  }
}

template <size_t Rank, size_t... D>
MS check_shape(const any_shape<Rank>& x, std::index_sequence<D...>) {
  return model(x);
}

template <class Shape, size_t... D>
Shape from_dims(const any_shape<Shape::rank()>& x, std::index_sequence<D...>) {
  return Shape(x.template dim<D>()...);
}

}  // namespace

#if PART == 0
using statics_list = types<fixed_dense_shape<3, 4>, dense_shape<1>, dense_shape<2>, dense_shape<3>, chunky_image_shape<3>, chunky_image_shape<3, 4>,
    matrix_shape<3, dynamic>, matrix_shape<2, 5>, shape<strided_dim<3>, dim<>>, shape<dim<-2, dynamic, -1>>,
    shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>, shape<dim<3>>, shape<dim<dynamic, 2>>, shape<dim<>, dim<>, dim<0, 2>>,
    shape<dim<>, dim<0>, dim<>, dim<dynamic, dynamic, 0>>>;
PROP_T(shape_conversions, 1.0, statics_list) {
  constexpr size_t R = Shape::rank();
  std::vector<SD> sd = statics<Shape>();
  GenOpts o = small();
  MS m = gen(s, sd, o);
  for (MD& d : m) {
    if (s.chance(1, 5)) d.str = UNRES;
  }
  disturb(s, m, (int)s.range(0, 2));
  NOTE(c, "from " << str(m));
  const bool ok = fits(m, sd);
  c.cls(ok, "compatible");
  c.nontrivial = true;
  const any_shape<R> x = make<any_shape<R>>(m);
  const bool resolved_all = x.is_resolved();
  const MS want = with_static_strides(m, sd);
  const int form = (int)s.pick(6);
  NOTE(c, "form " << form);
  // The test must predict what the conversion does.
  CHECK_EQ(nda::is_compatible<Shape>(x), ok);
  must(ok, "a conversion of a shape", [&] {
    switch (form) {
    case 0: CHECK_EQ(str(model(Shape(x))), str(want)); break;
    case 1: {
      Shape y = x;
      CHECK_EQ(str(model(y)), str(want));
      break;
    }
    case 2: {
      Shape y;
      y = x;
      CHECK_EQ(str(model(y)), str(want));
      break;
    }
    case 3: {
      Shape y = Shape(x.dims());
      CHECK_EQ(str(model(y)), str(want));
      break;
    }
    case 4: {
      Shape y = from_dims<Shape>(x, std::make_index_sequence<R>());
      CHECK_EQ(str(model(y)), str(want));
      break;
    }
    default: {
      if (!resolved_all) {
        CHECK_EQ(str(model(Shape(x))), str(want));
        break;
      }
      int e = 0;
      array_ref<int, any_shape<R>> r(&e, x);
      array_ref<int, Shape> y = r;
      CHECK(y.base() == &e);
      CHECK_EQ(str(model(y.shape())), str(want));
    }
    }
  });
}

// One interval or dim.
using dims_list = types<shape<dim<3, 4, 5>>, shape<dim<-2, dynamic, dynamic>>, shape<dim<dynamic, 3, dynamic>>, shape<dim<dynamic, dynamic, 1>>,
    shape<dim<0, 2>>, shape<dim<dynamic, 0>>, shape<dim<1, dynamic, -2>>, shape<dim<dynamic, 6, 0>>>;
PROP_T(static_dims, 1.0, dims_list) {
  using Dim = dim_t<Shape, 0>;
  using I = nda::interval<Dim::Min, Dim::Extent>;
  SD sd = static_dim<Dim>();
  MD m;
  m.min = sd.smin && s.chance(3, 4) ? sd.min : s.around(8);
  m.ext = sd.sext && s.chance(3, 4) ? sd.ext : s.range(0, 8);
  m.str = sd.sstr && s.chance(3, 4) ? sd.str : s.around(8);
  NOTE(c, "dim " << m);
  c.nontrivial = true;
  const bool min_ok = !sd.smin || m.min == sd.min, ext_ok = !sd.sext || m.ext == sd.ext, str_ok = !sd.sstr || m.str == sd.str;
  auto same = [&](const Dim& d) { CHECK_EQ(str(MS{model_dim(d)}), str(MS{m})); };
  auto same_i = [&](const I& i) {
    CHECK_IEQ(i.min(), m.min);
    CHECK_IEQ(i.extent(), m.ext);
  };
  const index_t mn = (index_t)m.min, ex = (index_t)m.ext, st = (index_t)m.str;
  const dim<> d(mn, ex, st);
  const nda::interval<> in(mn, ex);
  switch (s.pick(11)) {
  case 0: must(min_ok && ext_ok && str_ok, "the constructor of a dim", [&] { same(Dim(mn, ex, st)); }); break;
  case 1: must(min_ok && ext_ok && str_ok, "a conversion of a dim", [&] { same(Dim(d)); }); break;
  case 2:
    must(min_ok && ext_ok && str_ok, "an assignment of a dim", [&] {
      Dim x;
      x = d;
      same(x);
    });
    break;
  case 3: must(min_ok && ext_ok, "the constructor of an interval", [&] { same_i(I(mn, ex)); }); break;
  case 4: must(min_ok && ext_ok, "a conversion of an interval", [&] { same_i(I(in)); }); break;
  case 5:
    must(min_ok && ext_ok, "an assignment of an interval", [&] {
      I x;
      x = in;
      same_i(x);
    });
    break;
  case 6:
    must(min_ok, "set_min", [&] {
      I x;
      x.set_min(mn);
      CHECK_IEQ(x.min(), m.min);
      Dim y;
      y.set_min(mn);
      CHECK_IEQ(y.min(), m.min);
    });
    break;
  case 7:
    must(ext_ok, "set_extent", [&] {
      Dim y;
      y.set_extent(ex);
      CHECK_IEQ(y.extent(), m.ext);
    });
    break;
  case 8:
    must(str_ok, "set_stride", [&] {
      Dim y;
      y.set_stride(st);
      CHECK_IEQ(y.stride(), m.str);
    });
    break;
  case 9:
    // The min stays: the extent must fit.
    must(!sd.sext || (sd.smin ? sd.min : 0) + sd.ext == m.ext, "set_max", [&] {
      I x;
      x.set_max(ex - 1);
      CHECK_IEQ(x.max(), m.ext - 1);
    });
    break;
  default:
    must(min_ok && ext_ok, "the constructor of a dim from an interval", [&] {
      Dim y(I(in), sd.sstr ? (index_t)sd.str : 7);
      CHECK_IEQ(y.min(), m.min);
      CHECK_IEQ(y.extent(), m.ext);
    });
  }
}
#endif

#if PART == 1
// Conversions between ranks: the dims that are dropped must have extent one.
template <class Dst, class From>
static void rank_conversion(Src& s, Ctx& c) {
  NOTE(c, type_name<From>() << " to " << type_name<Dst>());
  std::vector<SD> from = statics<From>(), dst = statics<Dst>();
  const size_t common = std::min(from.size(), dst.size());
  // The kept dims fit.
  std::vector<SD> both = from;
  for (size_t d = 0; d < common; d++) {
    if (dst[d].smin) both[d].smin = true, both[d].min = dst[d].min;
    if (dst[d].sext) both[d].sext = true, both[d].ext = dst[d].ext;
    if (dst[d].sstr) both[d].sstr = true, both[d].str = dst[d].str;
  }
  for (size_t d = common; d < from.size(); d++) {
    if (!both[d].sext && s.chance(4, 5)) both[d].sext = true, both[d].ext = 1;
  }
  MS m = gen(s, both, small());
  NOTE(c, "from " << str(m));
  bool ok = true;
  for (size_t d = common; d < m.size(); d++) ok = ok && m[d].ext == 1;
  c.cls(ok, "trivial");
  c.nontrivial = from.size() > dst.size();
  const From x = make<From>(m);
  must(ok, "convert_shape", [&] {
    Dst y = nda::convert_shape<Dst>(x);
    MS got = model(y);
    for (size_t d = 0; d < common; d++) CHECK_EQ(str(MS{got[d]}), str(MS{m[d]}));
    for (size_t d = common; d < dst.size(); d++) CHECK_IEQ(got[d].ext, 1);
  });
}
PROP(rank_conversions, 1.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {rank_conversion<any_shape<1>, any_shape<2>>, rank_conversion<any_shape<1>, any_shape<3>>, rank_conversion<any_shape<2>, any_shape<3>>,
      rank_conversion<any_shape<2>, any_shape<5>>, rank_conversion<any_shape<3>, any_shape<6>>, rank_conversion<dense_shape<1>, any_shape<2>>,
      rank_conversion<any_shape<2>, chunky_image_shape<>>, rank_conversion<matrix_shape<3, dynamic>, any_shape<3>>, rank_conversion<any_shape<3>, any_shape<2>>,
      rank_conversion<any_shape<0>, any_shape<1>>, rank_conversion<shape<>, any_shape<2>>, rank_conversion<any_shape<1>, shape<dim<>, dim<dynamic, 1>, dim<0>>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}

// The bounds of a destination are inside of the source, or almost.
static MS gen_inside(Src& s, const MS& m, bool& inside) {
  MS r = m;
  inside = true;
  for (size_t d = 0; d < m.size(); d++) {
    i64 a = s.range(0, m[d].ext - 1), b = s.range(a, m[d].ext - 1);
    if (s.chance(1, 3)) a = 0, b = m[d].ext - 1;
    r[d].min = m[d].min + a;
    r[d].ext = b - a + 1;
  }
  if (s.chance(2, 3)) {
    int n = s.chance(3, 4) ? 1 : 2;
    for (int i = 0; i < n; i++) {
      const size_t d = s.pick(m.size());
      i64 lo = s.range(0, 2), hi = s.range(0, 2);
      if (s.chance(1, 8)) lo = s.range(0, 400), r[d].ext = 1;
      r[d].min -= lo;
      if (s.chance(1, 2)) r[d].ext += lo;
      r[d].ext += hi;
    }
  }
  for (size_t d = 0; d < m.size(); d++) {
    if (r[d].min < m[d].min || r[d].min + r[d].ext > m[d].min + m[d].ext) inside = false;
  }
  return r;
}

template <class A, class B>
static void copies(Src& s, Ctx& c) {
  NOTE(c, type_name<A>() << " to " << type_name<B>());
  GenOpts o = small();
  o.allow_empty = false;
  o.max_ext = 4;
  MS src = gen(s, statics<A>(), o);
  bool inside;
  MS dst = gen_inside(s, src, inside);
  dst = relayout(s, dst, statics<B>(), o);
  NOTE(c, "src " << str(src) << " dst " << str(dst));
  c.cls(inside, "inside");
  c.nontrivial = true;
  if (flat_max(src) - flat_min(src) > 1500 || flat_max(dst) - flat_min(dst) > 1500) return;
  Shared mem;
  array_ref<int, A> a(mem.p + 100 - flat_min(src), make<A>(src));
  array_ref<int, B> b(mem.p + 2000 - flat_min(dst), make<B>(dst));
  const B shape_b = make<B>(dst);
  switch (s.pick(6)) {
  case 0: must(inside, "copy", [&] { nda::copy(a, b); }); break;
  case 1: must(inside, "move", [&] { nda::move(a, b); }); break;
  case 2: must(inside, "make_copy", [&] { (void)nda::make_copy(a, shape_b); }); break;
  case 3: must(inside, "make_move", [&] { (void)nda::make_move(a, shape_b); }); break;
  case 4: {
    array<int, A> x(make<A>(src), 3);
    array<int, B> y(make<B>(dst), 4);
    must(inside, "copy between arrays", [&] { nda::copy(x, y); });
    break;
  }
  default: {
    array<int, A> x(make<A>(src), 3);
    must(inside, "move from an array", [&] { nda::move(x, b); });
  }
  }
  if (!inside) mem.untouched();
}
PROP(copies_outside, 1.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {copies<any_shape<1>, any_shape<1>>, copies<any_shape<2>, any_shape<2>>, copies<any_shape<3>, any_shape<3>>, copies<dense_shape<2>, any_shape<2>>,
      copies<any_shape<3>, dense_shape<3>>, copies<any_shape<4>, any_shape<4>>, copies<fixed_dense_shape<3, 4>, any_shape<2>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}
#endif

#if PART == 2
// A new shape with an offset must stay inside of the range of offsets of the old one.
template <class New, class Old>
static void reinterpretations(Src& s, Ctx& c) {
  NOTE(c, type_name<Old>() << " as " << type_name<New>());
  GenOpts o = small();
  MS old = gen(s, statics<Old>(), o);
  MS m = gen(s, statics<New>(), o);
  if (s.chance(1, 3) && old.size() == m.size() && fits(old, statics<New>())) m = old;
  const bool unresolved = s.chance(1, 8);
  std::vector<SD> sd = statics<New>();
  bool any_unresolved = false;
  if (unresolved) {
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sstr && s.chance(1, 2)) m[d].str = UNRES, any_unresolved = true;
    }
  }
  const MS r = resolved(m);
  i64 off;
  const i64 lo = nd::empty(old) || nd::empty(r) ? 0 : flat_min(old) - flat_min(r), hi = nd::empty(old) || nd::empty(r) ? 0 : flat_max(old) - flat_max(r);
  switch (s.pick(4)) {
  case 0: off = 0; break;
  case 1: off = lo + s.around(1); break;
  case 2: off = hi + s.around(1); break;
  default: off = s.range(std::min(lo, hi), std::max(lo, hi));
  }
  NOTE(c, "from " << str(old) << " to " << str(m) << " offset " << off);
  const bool inside = nd::empty(r) || (!nd::empty(old) && lo <= off && off <= hi);
  c.cls(inside, "inside");
  c.cls(any_unresolved, "unresolved");
  c.nontrivial = !nd::empty(r);
  const New shape = make<New>(m);
  std::vector<int> data(2000);
  // (Pointers that are computed outside of the memory are never used.)
  int* base = nd::empty(old) ? data.data() : data.data() + 900 - std::max<i64>(-800, std::min<i64>(800, flat_min(old)));
  array_ref<int, Old> ref(base, make<Old>(old));
  auto same = [&](const New& x) { CHECK_EQ(str(model(x)), str(r)); };
  switch (s.pick(3)) {
  case 0:
    must(inside, "reinterpret_shape", [&] {
      auto x = nda::reinterpret_shape(ref, shape, (index_t)off);
      same(x.shape());
      CHECK(x.base() == base + off || nd::empty(r));
    });
    break;
  case 1: {
    array<int, Old> a(make<Old>(old), 5);
    const array<int, Old>& ca = a;
    must(inside, "reinterpret_shape of an array", [&] {
      auto x = nda::reinterpret_shape(a, shape, (index_t)off);
      same(x.shape());
      auto y = nda::reinterpret_shape(ca, shape, (index_t)off);
      same(y.shape());
    });
    break;
  }
  default: {
    array<int, Old> a(make<Old>(old), 5);
    must(inside, "move_reinterpret_shape", [&] {
      auto x = nda::move_reinterpret_shape(std::move(a), shape, (index_t)off);
      same(x.shape());
      x.for_each_value([](int& v) { v = 1; });
    });
  }
  }
}
PROP(reinterpret_outside, 1.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {reinterpretations<any_shape<1>, any_shape<1>>, reinterpretations<any_shape<2>, any_shape<1>>, reinterpretations<any_shape<1>, any_shape<2>>,
      reinterpretations<any_shape<2>, any_shape<2>>, reinterpretations<dense_shape<2>, any_shape<2>>, reinterpretations<any_shape<3>, any_shape<2>>,
      reinterpretations<any_shape<2>, chunky_image_shape<>>, reinterpretations<shape<>, any_shape<1>>, reinterpretations<shape<dim<-2, dynamic, -1>>, any_shape<2>>};
  fns[s.pick(sizeof(fns) / sizeof(*fns))](s, c);
}

// set_shape: the same type of shape.
using set_list = types<any_shape<1>, any_shape<2>, any_shape<3>, dense_shape<2>, chunky_image_shape<>, shape<dim<>, dim<dynamic, 3>>>;
PROP_T(set_shape_outside, 1.0, set_list) {
  GenOpts o = small();
  std::vector<SD> sd = statics<Shape>();
  MS old = gen(s, sd, o), m = s.chance(1, 3) ? old : gen(s, sd, o);
  bool unresolved = false;
  if (s.chance(1, 4)) {
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sstr && s.chance(1, 2)) m[d].str = UNRES, unresolved = true;
    }
  }
  i64 off = 0, lo = 0, hi = 0;
  if (!nd::empty(old) && !nd::empty(m) && !unresolved) {
    lo = flat_min(old) - flat_min(m), hi = flat_max(old) - flat_max(m);
    switch (s.pick(4)) {
    case 0: break;
    case 1: off = lo + s.around(1); break;
    case 2: off = hi + s.around(1); break;
    default: off = s.range(std::min(lo, hi), std::max(lo, hi));
    }
  }
  NOTE(c, "from " << str(old) << " to " << str(m) << " offset " << off);
  const bool ok = !unresolved && (nd::empty(m) || (!nd::empty(old) && lo <= off && off <= hi));
  c.cls(ok, "inside");
  c.nontrivial = true;
  const Shape sh = make<Shape>(m);
  if (s.chance(1, 2)) {
    int e = 0;
    array_ref<int, Shape> r(&e, make<Shape>(old));
    must(ok, "set_shape of a ref", [&] {
      r.set_shape(sh, (index_t)off);
      CHECK_EQ(str(model(r.shape())), str(m));
    });
  } else {
    array<int, Shape> a(make<Shape>(old), 1);
    must(ok, "set_shape of an array", [&] {
      a.set_shape(sh, (index_t)off);
      CHECK_EQ(str(model(a.shape())), str(m));
      if (size_of(m) <= 60) a.for_each_value([](int& v) { v = 1; });
    });
  }
}

PROP(splits_and_dims, 0.6) {
  const i64 mn = s.around(20), ex = s.range(0, 8);
  NOTE(c, "min " << mn << " extent " << ex);
  c.nontrivial = true;
  const nda::interval<> in((index_t)mn, (index_t)ex);
  const dim<> d((index_t)mn, (index_t)ex, 3);
  auto count = [&](auto&& sp, i64 n) {
    i64 k = 0;
    for (auto i : sp) {
      CHECK_IEQ(i.extent(), n);
      CHECK(i.min() >= mn && i.max() < mn + ex);
      k++;
    }
    CHECK_IEQ(k, (ex + n - 1) / n);
  };
  switch (s.pick(5)) {
  case 0: must(ex >= 1, "split<1>", [&] { count(nda::split<1>(in), 1); }); break;
  case 1: must(ex >= 3, "split<3>", [&] { count(nda::split<3>(in), 3); }); break;
  case 2: must(ex >= 4, "split<4>", [&] { count(nda::split<4>(d), 4); }); break;
  case 3: must(ex >= 7, "split<7>", [&] { count(nda::split<7>(d), 7); }); break;
  default: {
    // A runtime index of a dimension.
    const size_t k = s.chance(1, 8) ? (size_t)-1 : (size_t)s.range(0, 5);
    const any_shape<3> sh(d, dim<>(1, 2, 40), dim<>(7, 3, 100));
    NOTE(c, "dim " << k);
    must(k < 3, "dim(d)", [&] { CHECK_EQ(str(MS{model_dim(sh.dim(k))}), str(MS{model(sh)[k]})); });
  }
  }
}
#endif

#if PART == 3
// Bounds in Einstein expressions. Operands live in shared memory: a violated precondition must
// be found before the result is written.
namespace {
struct Bounds { i64 min, ext; };
// A variation of the bounds b.
Bounds vary(Src& s, Bounds b) {
  switch (s.weighted({5, 2, 2, 2})) {
  case 0: return b;
  case 1: return {b.min - s.range(0, 1), b.ext + s.range(1, 2)};  // often larger
  case 2: return {b.min + s.around(1), b.ext};
  default: return {b.min, std::max<i64>(1, b.ext + s.around(1))};
  }
}
bool contains(const Bounds& a, const Bounds& b) { return a.min <= b.min && a.min + a.ext >= b.min + b.ext; }
bool same(const Bounds& a, const Bounds& b) { return a.min == b.min && a.ext == b.ext; }

struct Place {
  Shared& mem;
  i64 next = 100;
  template <class Shape>
  array_ref<int, Shape> put(Src& s, std::vector<Bounds> b) {
    MS m;
    for (const Bounds& x : b) m.push_back(MD{x.min, x.ext, 0});
    std::vector<SD> sd = statics<Shape>();
    GenOpts o;
    m = relayout(s, m, sd, o);
    int* base = mem.p + next - flat_min(m);
    next += flat_max(m) - flat_min(m) + 20;
    CHECK(next < Shared::N - 100);
    return array_ref<int, Shape>(base, make<Shape>(m));
  }
};
}  // namespace

PROP(ein_bounds, 1.5) {
  Shared mem;
  Place at{mem};
  const Bounds i = {s.around(5), s.range(1, 4)}, j = {s.around(5), s.range(1, 4)}, k = {s.around(5), s.range(1, 4)};
  enum { I, J, K };
  const int form = (int)s.pick(15);
  // Disturb only one or two dims.
  int room = (int)s.range(0, 2);
  auto v = [&](const Bounds& b) {
    if (room > 0 && s.chance(1, 2)) {
      room--;
      return vary(s, b);
    }
    return b;
  };
  bool ok = true;
  c.nontrivial = true;
  using S1 = any_shape<1>;
  using S2 = any_shape<2>;
  auto note = [&](const char* what, std::vector<Bounds> b) {
    std::ostringstream os;
    for (const Bounds& x : b) os << " [" << x.min << ", " << x.min + x.ext << ")";
    NOTE(c, what << os.str());
  };
  switch (form) {
  case 0: {  // R(i) += A(i)
    Bounds a = v(i);
    note("R(i) += A(i)", {i, a});
    ok = contains(a, i);
    auto r = at.put<S1>(s, {i});
    auto x = at.put<S1>(s, {a});
    must(ok, "ein_reduce R(i) += A(i)", [&] { nda::ein_reduce(nda::ein<I>(r) += nda::ein<I>(x)); });
    break;
  }
  case 1: {  // R(i) += A(i, k) * B(k)
    Bounds ai = v(i), ak = v(k), bk = v(k);
    note("R(i) += A(i, k) * B(k)", {i, ai, ak, bk});
    ok = contains(ai, i) && same(ak, bk);
    auto r = at.put<S1>(s, {i});
    auto a = at.put<S2>(s, {ai, ak});
    auto b = at.put<S1>(s, {bk});
    must(ok, "a matrix-vector product", [&] { nda::ein_reduce(nda::ein<I>(r) += nda::ein<I, K>(a) * nda::ein<K>(b)); });
    break;
  }
  case 2: {  // R(i, j) += A(i, k) * B(k, j)
    Bounds ai = v(i), ak = v(k), bk = v(k), bj = v(j);
    note("R(i, j) += A(i, k) * B(k, j)", {i, j, ai, ak, bk, bj});
    ok = contains(ai, i) && contains(bj, j) && same(ak, bk);
    auto r = at.put<S2>(s, {i, j});
    auto a = at.put<S2>(s, {ai, ak});
    auto b = at.put<S2>(s, {bk, bj});
    must(ok, "a matrix product", [&] { nda::ein_reduce(nda::ein<I, J>(r) += nda::ein<I, K>(a) * nda::ein<K, J>(b)); });
    break;
  }
  case 3: {  // R() += A(i) * B(i) * C(i)
    Bounds a = v(i), b = v(i), d = v(i);
    note("R() += A(i) * B(i) * C(i)", {a, b, d});
    ok = same(a, b) && same(a, d);
    auto r = at.put<any_shape<0>>(s, {});
    auto x = at.put<S1>(s, {a});
    auto y = at.put<S1>(s, {b});
    auto z = at.put<S1>(s, {d});
    must(ok, "a dot product", [&] { nda::ein_reduce(nda::ein<>(r) += nda::ein<I>(x) * nda::ein<I>(y) * nda::ein<I>(z)); });
    break;
  }
  case 4: {  // R(j, i) = A(i, j) + B(j)
    Bounds ai = v(i), aj = v(j), bj = v(j);
    note("R(j, i) = A(i, j) + B(j)", {j, i, ai, aj, bj});
    ok = contains(ai, i) && contains(aj, j) && contains(bj, j);
    auto r = at.put<S2>(s, {j, i});
    auto a = at.put<S2>(s, {ai, aj});
    auto b = at.put<S1>(s, {bj});
    must(ok, "a transposed sum", [&] { nda::ein_reduce(nda::ein<J, I>(r) = nda::ein<I, J>(a) + nda::ein<J>(b)); });
    break;
  }
  case 5: {  // make_ein_sum<i>(A(i, k) * B(k)): the first operand has the bounds of the result
    Bounds ak = v(k), bk = v(k);
    note("make_ein_sum<i>(A(i, k) * B(k))", {i, ak, bk});
    ok = same(ak, bk);
    auto a = at.put<S2>(s, {i, ak});
    auto b = at.put<S1>(s, {bk});
    must(ok, "make_ein_sum of a matrix-vector product", [&] {
      auto r = nda::make_ein_sum<int, I>(nda::ein<I, K>(a) * nda::ein<K>(b));
      CHECK_IEQ(r.shape().template dim<0>().min(), i.min);
      CHECK_IEQ(r.shape().template dim<0>().extent(), i.ext);
    });
    break;
  }
  case 6: {  // make_ein_sum<i>(A(i) * B(i))
    Bounds a = v(i), b = v(i);
    note("make_ein_sum<i>(A(i) * B(i))", {a, b});
    ok = contains(b, a);
    auto x = at.put<S1>(s, {a});
    auto y = at.put<S1>(s, {b});
    must(ok, "make_ein_sum of an elementwise product", [&] {
      auto r = nda::make_ein_sum<int, I>(nda::ein<I>(x) * nda::ein<I>(y));
      CHECK_IEQ(r.shape().template dim<0>().min(), a.min);
      CHECK_IEQ(r.shape().template dim<0>().extent(), a.ext);
    });
    break;
  }
  case 7: {  // make_ein_sum<>(A(i, j) * B(i, j))
    Bounds ai = v(i), aj = v(j), bi = v(i), bj = v(j);
    note("make_ein_sum<>(A(i, j) * B(i, j))", {ai, aj, bi, bj});
    ok = same(ai, bi) && same(aj, bj);
    auto a = at.put<S2>(s, {ai, aj});
    auto b = at.put<S2>(s, {bi, bj});
    must(ok, "a full reduction", [&] { (void)(int)nda::make_ein_sum<int>(nda::ein<I, J>(a) * nda::ein<I, J>(b)); });
    break;
  }
  case 9: {  // R() += A(i, i): a trace
    Bounds a0 = v(i), a1 = v(i);
    note("R() += A(i, i)", {a0, a1});
    ok = same(a0, a1);
    auto r = at.put<any_shape<0>>(s, {});
    auto a = at.put<S2>(s, {a0, a1});
    must(ok, "a trace", [&] { nda::ein_reduce(nda::ein<>(r) += nda::ein<I, I>(a)); });
    break;
  }
  case 10: {  // R(i) = A(i, i): a diagonal
    Bounds a0 = v(i), a1 = v(i);
    note("R(i) = A(i, i)", {i, a0, a1});
    ok = contains(a0, i) && contains(a1, i);
    auto r = at.put<S1>(s, {i});
    auto a = at.put<S2>(s, {a0, a1});
    must(ok, "a diagonal", [&] { nda::ein_reduce(nda::ein<I>(r) = nda::ein<I, I>(a)); });
    break;
  }
  case 11: {  // make_ein_sum<i>(A(i, i)): the first of the dims has the bounds of the result
    Bounds a0 = v(i), a1 = v(i);
    note("make_ein_sum<i>(A(i, i))", {a0, a1});
    ok = contains(a1, a0);
    auto a = at.put<S2>(s, {a0, a1});
    must(ok, "make_ein_sum of a diagonal", [&] {
      auto r = nda::make_ein_sum<int, I>(nda::ein<I, I>(a));
      CHECK_IEQ(r.shape().template dim<0>().min(), a0.min);
      CHECK_IEQ(r.shape().template dim<0>().extent(), a0.ext);
      for (i64 x = a0.min; x < a0.min + a0.ext; x++) CHECK_EQ(r((index_t)x), a((index_t)x, (index_t)x));
    });
    break;
  }
  case 12: {  // R(i) += A(i, k, k): traces
    Bounds a0 = v(i), a1 = v(k), a2 = v(k);
    note("R(i) += A(i, k, k)", {i, a0, a1, a2});
    ok = contains(a0, i) && same(a1, a2);
    auto r = at.put<S1>(s, {i});
    auto a = at.put<any_shape<3>>(s, {a0, a1, a2});
    must(ok, "traces of a 3-dimensional array", [&] { nda::ein_reduce(nda::ein<I>(r) += nda::ein<I, K, K>(a)); });
    break;
  }
  case 13: {  // R(i) += A(k, i, k) * B(k)
    Bounds a0 = v(k), a1 = v(i), a2 = v(k), b = v(k);
    note("R(i) += A(k, i, k) * B(k)", {i, a0, a1, a2, b});
    ok = contains(a1, i) && same(a0, a2) && same(a0, b);
    auto r = at.put<S1>(s, {i});
    auto a = at.put<any_shape<3>>(s, {a0, a1, a2});
    auto x = at.put<S1>(s, {b});
    must(ok, "weighted traces", [&] { nda::ein_reduce(nda::ein<I>(r) += nda::ein<K, I, K>(a) * nda::ein<K>(x)); });
    break;
  }
  case 14: {  // R(i) += B(i) * A(i, i) * f(i)
    Bounds b = v(i), a0 = v(i), a1 = v(i);
    note("R(i) += B(i) * A(i, i) * f(i)", {i, b, a0, a1});
    ok = contains(b, i) && contains(a0, i) && contains(a1, i);
    auto r = at.put<S1>(s, {i});
    auto a = at.put<S2>(s, {a0, a1});
    auto x = at.put<S1>(s, {b});
    auto f = [](index_t at) { return (int)at; };
    must(ok, "a diagonal of a product", [&] { nda::ein_reduce(nda::ein<I>(r) += nda::ein<I>(x) * nda::ein<I, I>(a) * nda::ein<I>(f)); });
    break;
  }
  default: {  // R(i) += f(A(i), B(k)) with an operand that is nested
    Bounds a = v(i), b1 = v(k), b2 = v(k), b3 = v(k);
    note("R(i) += min(A(i), B(k)) * (C(k) - D(k))", {i, a, b1, b2, b3});
    ok = contains(a, i) && same(b1, b2) && same(b1, b3);
    auto r = at.put<S1>(s, {i});
    auto x = at.put<S1>(s, {a});
    auto y = at.put<S1>(s, {b1});
    auto z = at.put<S1>(s, {b2});
    auto w = at.put<S1>(s, {b3});
    must(ok, "a nested expression", [&] {
      nda::ein_reduce(nda::ein<I>(r) += nda::min(nda::ein<I>(x), nda::ein<K>(y)) * (nda::ein<K>(z) - nda::ein<K>(w)));
    });
  }
  }
  c.cls(ok, "bounds agree");
  if (!ok) mem.untouched();
}
#endif
