// C12: storage is obtained and released through the right allocator, once.
#include "hist.h"
using namespace nd;
using namespace hist;

template <class T, bool C, bool M, bool S, int Sel>
using AL = TAlloc<T, Traits<C, M, S, Sel>>;

template <class T, class Shape, int Sel>
static void all_traits(Src& s, Ctx& c) {
  switch (s.pick(8)) {
  case 0: return hist::run<T, Shape, AL<T, 0, 0, 0, Sel>>(s, c);
  case 1: return hist::run<T, Shape, AL<T, 1, 0, 0, Sel>>(s, c);
  case 2: return hist::run<T, Shape, AL<T, 0, 1, 0, Sel>>(s, c);
  case 3: return hist::run<T, Shape, AL<T, 0, 0, 1, Sel>>(s, c);
  case 4: return hist::run<T, Shape, AL<T, 1, 1, 0, Sel>>(s, c);
  case 5: return hist::run<T, Shape, AL<T, 1, 0, 1, Sel>>(s, c);
  case 6: return hist::run<T, Shape, AL<T, 0, 1, 1, Sel>>(s, c);
  default: return hist::run<T, Shape, AL<T, 1, 1, 1, Sel>>(s, c);
  }
}
#if PART == 0
PROP(elements_a, 1.0) {
  switch (s.pick(4)) {
  case 0: return hist::run<Elem, any_shape<2>, AL<Elem, 0, 0, 0, 0>>(s, c);
  case 1: return hist::run<Elem, any_shape<2>, AL<Elem, 1, 0, 0, 1>>(s, c);
  case 2: return hist::run<Elem, any_shape<2>, AL<Elem, 0, 1, 0, 2>>(s, c);
  default: return hist::run<Elem, any_shape<2>, AL<Elem, 1, 1, 1, 0>>(s, c);
  }
}
#endif
#if PART == 1
PROP(elements_b, 1.0) {
  switch (s.pick(4)) {
  case 0: return hist::run<Elem, dense_shape<1>, AL<Elem, 0, 0, 1, 2>>(s, c);
  case 1: return hist::run<Elem, dense_shape<1>, AL<Elem, 1, 1, 0, 1>>(s, c);
  case 2: return hist::run<Elem, dense_shape<1>, AL<Elem, 1, 0, 1, 0>>(s, c);
  default: return hist::run<Elem, dense_shape<1>, AL<Elem, 0, 1, 1, 1>>(s, c);
  }
}
#endif
#if PART == 2
PROP(ints_a, 1.0) { return all_traits<int, dense_shape<2>, 1>(s, c); }
#endif
#if PART == 3
PROP(ints_b, 0.6) {
  switch (s.pick(3)) {
  case 0: return hist::run<int, chunky_image_shape<3, 4>, AL<int, 0, 0, 0, 2>>(s, c);
  case 1: return hist::run<int, any_shape<3>, AL<int, 1, 1, 1, 1>>(s, c);
  default: return hist::run<std::string, any_shape<2>, AL<std::string, 0, 0, 0, 1>>(s, c);
  }
}
PROP(static_shapes, 0.3) {
  Options o;
  o.use_moved_from = false;
  switch (s.pick(2)) {
  case 0: return hist::run<int, fixed_dense_shape<2, 3>, AL<int, 0, 0, 0, 1>>(s, c, o);
  default: return hist::run<Elem, shape<>, AL<Elem, 1, 1, 1, 0>>(s, c, o);
  }
}
#endif
#if PART == 4
// auto_allocator in arrays.
PROP(auto_arrays, 1.0) {
  switch (s.pick(6)) {
  case 4: return hist::run<int, any_shape<2>, nda::auto_allocator<int, 6, alignof(int), AL<int, 0, 0, 0, 0>>>(s, c);
  case 5: return hist::run<Elem, dense_shape<2>, nda::auto_allocator<Elem, 4, 32, AL<Elem, 1, 1, 1, 1>>>(s, c);
  case 0: return hist::run<int, any_shape<2>, nda::auto_allocator<int, 6>>(s, c);
  case 1: return hist::run<std::string, dense_shape<1>, nda::auto_allocator<std::string, 3>>(s, c);
  case 2: return hist::run<double, matrix_shape<>, nda::auto_allocator<double, 8, 64>>(s, c);
  default: return hist::run<Elem, any_shape<1>, nda::auto_allocator<Elem, 3>>(s, c);
  }
}
// Small matrices and vectors: constant sizes in automatic storage.
PROP(small, 0.5) {
  hist::Options o;
  o.use_moved_from = false;
  switch (s.pick(4)) {
  case 0: return hist::run<int, matrix_shape<2, 3>, nda::auto_allocator<int, 6>>(s, c, o);
  case 1: return hist::run<Elem, vector_shape<3>, nda::auto_allocator<Elem, 3>>(s, c, o);
  case 2: return hist::run<Elem, matrix_shape<2, 2>, nda::auto_allocator<Elem, 4, 64, AL<Elem, 0, 0, 0, 0>>>(s, c, o);
  default: return hist::run<int, fixed_dense_shape<2, 3>, nda::auto_allocator<int, 6, alignof(int), AL<int, 1, 1, 1, 1>>>(s, c, o);
  }
}
#endif
#if PART == 5
// The allocator itself: allocations and releases in any order.
struct Base : TAlloc<int, Traits<false, false, false, 0>> {
  using TAlloc::TAlloc;
};
template <size_t N, size_t Al>
static void auto_case(Src& s, Ctx& c) {
  NOTE(c, "auto_allocator<int, " << N << ", " << Al << ">");
  world().reset();
  using A = nda::auto_allocator<int, N, Al, AL<int, 0, 0, 0, 0>>;
  struct Block {
    int* p;
    size_t n;
    int tag;
    bool inside;
    size_t owner;
  };
  constexpr size_t K = 3;
  std::unique_ptr<A> a[K];
  for (size_t k = 0; k < K; k++) a[k].reset(new A());
  std::vector<Block> blocks;
  auto inside = [&](size_t k, const int* p) { return (const char*)p >= (const char*)a[k].get() && (const char*)p < (const char*)(a[k].get() + 1); };
  auto held = [&](size_t k) {
    for (const Block& b : blocks) {
      if (b.owner == k && b.inside) return true;
    }
    return false;
  };
  auto release = [&](size_t i) {
    Block b = blocks[i];
    for (size_t x = 0; x < b.n; x++) CHECK_M(b.p[x] == b.tag + (int)x, "block " << i << " was overwritten");
    a[b.owner]->deallocate(b.p, b.n);
    blocks.erase(blocks.begin() + i);
    CHECK_M(world().error.empty(), world().error);
  };
  int steps = (int)s.range(3, 20), internal = 0, external = 0;
  for (int t = 0; t < steps; t++) {
    size_t k = s.pick(K);
    switch (s.weighted({5, 4, 2})) {
    case 0: {
      size_t n = (size_t)s.range(1, 2 * (i64)N);
      bool had = held(k);
      int* p = a[k]->allocate(n);
      bool in = inside(k, p);
      NOTE(c, "allocator " << k << " allocates " << n << (in ? " inside" : ""));
      CHECK_M(!(in && had), "the internal buffer is used by two blocks");
      CHECK_M(!(in && n > N), "the internal buffer is too small");
      CHECK_M(in || had || n > N, "the internal buffer is free and large enough, but not used");
      for (size_t j = 0; j < K; j++) CHECK_M(j == k || !inside(j, p), "the buffer of another allocator is used");
      if (in) CHECK_M((uintptr_t)p % Al == 0, "the buffer is not aligned");
      (in ? internal : external)++;
      Block b{p, n, t * 1000, in, k};
      for (size_t x = 0; x < n; x++) p[x] = b.tag + (int)x;
      blocks.push_back(b);
      i64 outside = 0;
      for (const Block& x : blocks) outside += !x.inside;
      CHECK_IEQ(world().blocks.size(), outside);
      break;
    }
    case 1:
      if (!blocks.empty()) {
        size_t i = s.pick(blocks.size());
        NOTE(c, "release of a block of allocator " << blocks[i].owner);
        release(i);
      }
      break;
    default: {
      // Copies and moves of allocators do not take the buffer with them.
      size_t j = s.pick(K);
      A copy(*a[j]);
      int* p = copy.allocate(1);
      CHECK_M((const char*)p >= (const char*)&copy && (const char*)p < (const char*)(&copy + 1), "a copy of an allocator does not use its own buffer");
      copy.deallocate(p, 1);
      A moved(std::move(copy));
      p = moved.allocate(1);
      CHECK_M((const char*)p >= (const char*)&moved && (const char*)p < (const char*)(&moved + 1), "a moved allocator does not use its own buffer");
      if (s.chance(1, 2)) {
        // Assignment while a block is held.
        moved = *a[j];
        int* q = moved.allocate(1);
        CHECK_M(q != p, "assignment of an allocator releases its buffer");
        moved.deallocate(q, 1);
      }
      moved.deallocate(p, 1);
      break;
    }
    }
    CHECK_M(world().error.empty(), world().error);
  }
  while (!blocks.empty()) release(blocks.size() - 1);
  CHECK(world().blocks.empty());
  c.nontrivial = internal > 0 && external > 0;
}
PROP(auto_allocators, 0.8) {
  switch (s.pick(4)) {
  case 0: return auto_case<4, alignof(int)>(s, c);
  case 1: return auto_case<1, alignof(int)>(s, c);
  case 2: return auto_case<16, 64>(s, c);
  default: return auto_case<7, 16>(s, c);
  }
}
// Where the storage of arrays with auto_allocator is.
template <class Shape, size_t N>
static void place_case(Src& s, Ctx& c) {
  using A = nda::array<int, Shape, nda::auto_allocator<int, N>>;
  GenOpts o;
  o.max_ext = 5;
  o.max_size = 30;
  MS m = gen<Shape>(s, o);
  if (!injective(m) || nd::empty(m)) return;
  NOTE(c, "N = " << N << ", " << str(m));
  auto inside = [](const A& a) { return (const char*)a.data() >= (const char*)&a && (const char*)a.data() < (const char*)(&a + 1); };
  bool fits = flat_max(m) - flat_min(m) + 1 <= (i64)N;
  c.nontrivial = true;
  c.cls(fits, "fits");
  A a(make<Shape>(m), 3);
  CHECK_M(inside(a) == fits, "the elements are " << (fits ? "not " : "") << "in the array");
  CHECK_M(a.get_allocator() == a.get_allocator() && !(a.get_allocator() != a.get_allocator()), "an allocator is not equal to itself");
  A b(a);
  CHECK(inside(b) == fits && b.data() != a.data());
  A d;
  d = a;
  CHECK(inside(d) == fits);
  d = std::move(b);
  CHECK(inside(d) == fits);
  A e(std::move(d));
  CHECK(inside(e) == fits);
  a.swap(e);
  CHECK(inside(a) == fits && inside(e) == fits);
  CHECK(a == e);
  a.for_each_value([](int v) { CHECK(v == 3); });
}
PROP(auto_places, 0.3) {
  switch (s.pick(3)) {
  case 0: return place_case<any_shape<2>, 8>(s, c);
  case 1: return place_case<dense_shape<1>, 3>(s, c);
  default: return place_case<matrix_shape<>, 12>(s, c);
  }
}
#endif
#if PART == 6
// Uninitialized allocators skip default construction, and nothing else.
template <class Shape, class Base>
static void uninit_case(Src& s, Ctx& c) {
  using Al = nda::uninitialized_allocator<Base>;
  using BI = alloc_info<Base>;
  using A = nda::array<int, Shape, Al>;
  constexpr size_t R = Shape::rank();
  GenOpts o;
  o.max_size = 60;
  MS m = gen<Shape>(s, o);
  if (!injective(m)) return;
  NOTE(c, str(m));
  c.nontrivial = size_of(m) > 1;
  world().reset();
  Al al0, al1;
  al0.id = (int)s.range(0, 2);
  al1.id = (int)s.range(0, 2);
  NOTE(c, "allocators " << al0.id << " and " << al1.id);
  auto id_is = [](const A& x, int id) {
    CHECK_M(x.get_allocator().id == id, "the allocator is " << x.get_allocator().id << " instead of " << id);
    if (x.empty()) return;
    auto it = world().blocks.find((char*)x.data() - kGuard);
    CHECK_M(it != world().blocks.end() && it->second.id == id, "the storage is not of the allocator");
  };
  {
    A a(make<Shape>(m), al0);
    id_is(a, al0.id);
    // The allocator filled its memory with 0xAB.
    int pattern;
    memset(&pattern, 0xAB, sizeof(pattern));
    for_each(m, [&](const Idx& i) { CHECK_M(a[index<R>(i)] == pattern, "element " << str(i) << " is written"); });
    CHECK_IEQ(world().built, 0);
    A b(make<Shape>(m), 7, al1);
    id_is(b, al1.id);
    CHECK_M(world().built == size_of(m), "the base allocator constructed " << world().built << " of " << size_of(m) << " values");
    for_each(m, [&](const Idx& i) { CHECK_M(b[index<R>(i)] == 7, "element " << str(i) << " is not constructed from the value"); });
    int n = 0;
    for_each(m, [&](const Idx& i) { b[index<R>(i)] = ++n; });
    A d(b);
    CHECK(d == b && d.shape() == b.shape());
    CHECK_M(world().built == 2 * size_of(m), "the base allocator constructed " << world().built - size_of(m) << " of " << size_of(m) << " copies");
    id_is(d, BI::select(al1.id));
    id_is(b, al1.id);
    a = b;
    CHECK(a == b);
    id_is(a, BI::copy ? al1.id : al0.id);
    {
      // Swaps need equal allocators unless they propagate.
      A x(a);
      A y(make<Shape>(m), 4, x.get_allocator());
      x.swap(y);
      CHECK(y == a);
      x = std::move(y);
      CHECK(x == a);
      id_is(x, BI::select(a.get_allocator().id));
    }
    a.assign(make<Shape>(m), 9);
    for_each(m, [&](const Idx& i) { CHECK(a[index<R>(i)] == 9); });
    A e(std::move(b));
    CHECK(e == d);
    auto f = nda::make_copy(e, Al());
    CHECK(f == d);
    MS m2 = gen<Shape>(s, o);
    if (injective(m2)) {
      f.reshape(make<Shape>(m2));
      for_each(m2, [&](const Idx& i) {
        if (in_range(m, i)) CHECK_M((f[index<R>(i)] == d[index<R>(i)]), str(i));
      });
    }
    CHECK(Al() == Al() && !(Al() != Al()));
    CHECK_M(world().error.empty(), world().error);
  }
  CHECK(world().blocks.empty());
  CHECK_IEQ(world().allocations, world().releases);
  CHECK_M(world().error.empty(), world().error);
}
PROP(uninitialized, 0.5) {
  switch (s.pick(3)) {
  case 0: return uninit_case<any_shape<2>, AL<int, 1, 1, 1, 1>>(s, c);
  case 1: return uninit_case<dense_shape<3>, AL<int, 0, 1, 0, 2>>(s, c);
  default: return uninit_case<chunky_image_shape<3, 4>, AL<int, 1, 1, 1, 0>>(s, c);
  }
}
// A trivial type whose size is not a power of two.
struct Triple {
  unsigned char v[3];
  Triple() = default;
  Triple(int n) : v{(unsigned char)n, (unsigned char)(n >> 8), (unsigned char)(n >> 16)} {}
  friend bool operator==(const Triple& a, const Triple& b) { return !memcmp(a.v, b.v, 3); }
  friend bool operator!=(const Triple& a, const Triple& b) { return !(a == b); }
};
static_assert(std::is_trivial<Triple>::value && sizeof(Triple) == 3, "");
template <class T>
static void uninit_std_case(Src& s, Ctx& c) {
  using A = nda::array<T, any_shape<2>, nda::uninitialized_std_allocator<T>>;
  using B = nda::array<T, any_shape<2>, nda::uninitialized_auto_allocator<T, 12>>;
  GenOpts o;
  MS m = gen<any_shape<2>>(s, o);
  if (!injective(m)) return;
  NOTE(c, "elements of size " << sizeof(T) << ", " << str(m));
  c.nontrivial = size_of(m) > 1;
  A a(make<any_shape<2>>(m));
  B b(make<any_shape<2>>(m));
  CHECK((uintptr_t)a.data() % alignof(T) == 0 && (uintptr_t)b.data() % alignof(T) == 0);
  int n = 0;
  for_each(m, [&](const Idx& i) { a[index<2>(i)] = b[index<2>(i)] = T(++n); });
  CHECK(nda::equal(a, b));
  A a2(a);
  B b2(b);
  CHECK(a2 == a && b2 == b);
  A a3(std::move(a2));
  B b3(std::move(b2));
  CHECK(a3 == a && b3 == b);
  b2 = b3;
  CHECK(b2 == b);
  A f(make<any_shape<2>>(m), T(5));
  B g(make<any_shape<2>>(m), T(5));
  for_each(m, [&](const Idx& i) { CHECK(f[index<2>(i)] == T(5) && g[index<2>(i)] == T(5)); });
}
PROP(uninitialized_std, 0.3) {
  switch (s.pick(4)) {
  case 0: return uninit_std_case<int>(s, c);
  case 1: return uninit_std_case<Triple>(s, c);
  case 2: return uninit_std_case<double>(s, c);
  default: return uninit_std_case<unsigned char>(s, c);
  }
}

// Functions that make an array with a given allocator: the array, and all it is made of, is of that allocator.
template <class T, class Shape, class Al>
static void results_case(Src& s, Ctx& c) {
  using A = nda::array<T, Shape, Al>;
  constexpr size_t R = Shape::rank();
  GenOpts o;
  o.max_ext = 4;
  o.max_size = 30;
  MS m = gen<Shape>(s, o);
  if (!injective(m) || nd::empty(m)) return;
  world().reset();
  {
    int other = (int)s.range(0, 3), id = (int)s.range(0, 3), kind = (int)s.pick(14);
    static const char* const kinds[] = {"make_array", "make_array of a value", "make_copy of an array", "make_copy of a ref", "make_copy with a shape of an array", "make_copy with a shape of a ref",
        "make_compact_copy of an array", "make_compact_copy of a ref", "make_move with a shape of an array", "make_move with a shape of a ref", "make_move with a shape of an rvalue", "make_compact_move of a ref", "make_compact_move of an rvalue",
        "make_compact_move"};
    NOTE(c, kinds[kind] << " of " << str(m) << ", allocator " << other << ", new allocator " << id);
    c.nontrivial = id != 0;
    c.cls(id == other, "the same allocator");
    A src(make<Shape>(m), to_elem<T>(0), Al(other));
    int n = 0;
    for_each(m, [&](const Idx& i) { src[index<R>(i)] = to_elem<T>(++n); });
    const T* storage = src.base();
    auto check = [&](const auto& r, bool elements) {
      CHECK_M(r.get_allocator().id == id, "the allocator of the result is " << r.get_allocator().id);
      auto it = world().blocks.find((char*)r.data() - kGuard);
      CHECK_M(it != world().blocks.end() && it->second.id == id, "the storage of the result is not of its allocator");
      int k = 0;
      for_each(m, [&](const Idx& i) {
        k++;
        CHECK_M((r[index<R>(i)] == to_elem<T>(elements ? k : 0)), "element " << str(i));
      });
    };
    Shape sh = make<Shape>(m);
    Al al(id);
    switch (kind) {
    case 0: {
      auto r = nda::make_array<T>(sh, al);
      check(r, false);
      break;
    }
    case 1: {
      auto r = nda::make_array<T>(sh, to_elem<T>(0), al);
      check(r, false);
      break;
    }
    case 2: {
      auto r = nda::make_copy(src, al);
      check(r, true);
      break;
    }
    case 3: {
      auto r = nda::make_copy(src.cref(), al);
      check(r, true);
      break;
    }
    case 4: {
      auto r = nda::make_copy(src, sh, al);
      check(r, true);
      break;
    }
    case 5: {
      auto r = nda::make_copy(src.ref(), sh, al);
      check(r, true);
      break;
    }
    case 6: {
      auto r = nda::make_compact_copy(src, al);
      check(r, true);
      break;
    }
    case 7: {
      auto r = nda::make_compact_copy(src.cref(), al);
      check(r, true);
      break;
    }
    case 8: {
      auto r = nda::make_move(src, sh, al);
      check(r, true);
      break;
    }
    case 9: {
      auto r = nda::make_move(src.ref(), sh, al);
      check(r, true);
      break;
    }
    case 10: {
      auto r = nda::make_move(std::move(src), src.shape(), al);
      check(r, true);
      // Equal allocators and shapes: the storage is moved.
      if (id == other) CHECK_M(r.base() == storage, "the storage is not moved to an array of the same shape and allocator");
      break;
    }
    case 11: {
      auto r = nda::make_compact_move(src.ref(), al);
      check(r, true);
      break;
    }
    case 12: {
      auto r = nda::make_compact_move(std::move(src), al);
      check(r, true);
      break;
    }
    default: {
      auto r = nda::make_compact_move(src, al);
      check(r, true);
      break;
    }
    }
    CHECK_M(world().error.empty(), world().error);
  }
  CHECK(world().blocks.empty());
  CHECK_M(world().error.empty(), world().error);
}
PROP(results, 0.5) {
  switch (s.pick(4)) {
  case 0: return results_case<int, any_shape<2>, AL<int, 0, 0, 0, 0>>(s, c);
  case 1: return results_case<std::string, any_shape<1>, AL<std::string, 0, 0, 0, 1>>(s, c);
  case 2: return results_case<int, dense_shape<3>, AL<int, 1, 1, 1, 2>>(s, c);
  default: return results_case<int, planar_image_shape, AL<int, 1, 0, 1, 1>>(s, c);
  }
}
#endif
