// Histories of container operations on a pool of arrays, against a model.
#ifndef HIST_H
#define HIST_H

#include <cstdlib>
#include <new>
#include <unordered_set>

#include "shapes.h"

namespace hist {

using namespace nd;

constexpr int kMovedFrom = -777777;

// Everything the elements and allocators of a history do.
struct World {
  std::unordered_set<const void*> live;
  i64 copies = 0, moves = 0, defaults = 0, values = 0;
  i64 built = 0, destroyed = 0;  // by allocators
  struct Block {
    size_t n, bytes;
    int id;
  };
  std::map<char*, Block> blocks;
  i64 allocations = 0, releases = 0;
  int fail_in = -1;  // the allocation that fails
  int next_id = 1000;
  std::string error;
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
  void reset() { *this = World(); }
};
inline World& world() {
  static World w;
  return w;
}

// An element that knows where it lives.
template <bool Copyable>
struct Tracked {
  int v;
  const void* self;
  Tracked() : v(0) {
    born();
    world().defaults++;
  }
  Tracked(int v) : v(v) {
    born();
    world().values++;
  }
  Tracked(const Tracked& r) : v(r.v) {
    static_assert(Copyable, "copy of a move-only element");
    r.alive("copied from");
    born();
    world().copies++;
  }
  Tracked(Tracked&& r) : v(r.v) {
    r.alive("moved from");
    r.v = kMovedFrom;
    born();
    world().moves++;
  }
  Tracked& operator=(const Tracked& r) {
    static_assert(Copyable, "copy of a move-only element");
    alive("assigned");
    r.alive("copied from");
    v = r.v;
    world().copies++;
    return *this;
  }
  Tracked& operator=(Tracked&& r) {
    alive("assigned");
    r.alive("moved from");
    const int x = r.v;
    r.v = kMovedFrom;
    v = x;
    world().moves++;
    return *this;
  }
  ~Tracked() {
    if (!world().live.erase(this)) world().fail("an element that does not exist is destroyed");
    if (self != this) world().fail("an element was moved in memory");
    self = nullptr;
  }
  void born() {
    self = this;
    if (!world().live.insert(this).second) world().fail("an element is constructed over a live element");
  }
  void alive(const char* what) const {
    if (!world().live.count(this)) world().fail(std::string("an element that does not exist is ") + what);
  }
  bool operator==(const Tracked& r) const {
    alive("compared");
    r.alive("compared");
    return v == r.v;
  }
  bool operator!=(const Tracked& r) const { return !(*this == r); }
};
struct MoveOnly : Tracked<true> {
  MoveOnly() {}
  MoveOnly(int v) : Tracked<true>(v) {}
  MoveOnly(MoveOnly&& r) : Tracked<true>(std::move(r)) {}
  MoveOnly& operator=(MoveOnly&& r) {
    Tracked<true>::operator=(std::move(r));
    return *this;
  }
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly& operator=(const MoveOnly&) = delete;
};
using Elem = Tracked<true>;

template <class T>
struct elem {
  static constexpr bool tracked = true;
  static int get(const T& t) {
    t.alive("read");
    return t.v;
  }
};
template <>
struct elem<int> {
  static constexpr bool tracked = false;
  static int get(const int& t) { return t; }
};
template <>
struct elem<double> {
  static constexpr bool tracked = false;
  static int get(const double& t) { return (int)t; }
};
template <>
struct elem<char> {
  static constexpr bool tracked = false;
  static int get(const char& t) { return t; }
};
template <>
struct elem<std::string> {
  static constexpr bool tracked = false;
  static int get(const std::string& t) { return t.empty() ? 0 : std::atoi(t.c_str() + 24); }
};
template <class T>
T to_elem(int v) {
  return T(v);
}
template <>
inline std::string to_elem<std::string>(int v) {
  return v == 0 ? std::string() : "a string of some length: " + std::to_string(v);
}

// An allocator that records its blocks. Allocators with the same id are equal.
template <bool Copy, bool Move, bool Swap, int Select>
struct Traits {
  static constexpr bool copy = Copy, move = Move, swap = Swap;
  // 0: the copy has the same allocator; 1: a new one; 2: the default one
  static constexpr int select = Select;
};

constexpr size_t kGuard = 64;

template <class T, class Tr>
struct TAlloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, Tr::copy>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, Tr::move>;
  using propagate_on_container_swap = std::integral_constant<bool, Tr::swap>;
  using is_always_equal = std::false_type;
  using traits = Tr;
  int id = 0;
  TAlloc() {}
  explicit TAlloc(int id) : id(id) {}
  template <class U>
  TAlloc(const TAlloc<U, Tr>& r) : id(r.id) {}
  TAlloc select_on_container_copy_construction() const {
    return TAlloc(Tr::select == 0 ? id : Tr::select == 1 ? id + 100 : 0);
  }
  T* allocate(size_t n) {
    World& w = world();
    if (w.fail_in == 0) {
      w.fail_in = -1;
      throw std::bad_alloc();
    }
    if (w.fail_in > 0) w.fail_in--;
    if (n == 0) w.fail("an allocation of size 0");
    w.allocations++;
    const size_t bytes = n * sizeof(T) + 2 * kGuard;
    char* p = (char*)std::malloc(bytes);
    memset(p, 0xAB, bytes);
    w.blocks[p] = {n, bytes, id};
    return (T*)(p + kGuard);
  }
  void deallocate(T* t, size_t n) {
    World& w = world();
    w.releases++;
    auto it = t ? w.blocks.find((char*)t - kGuard) : w.blocks.end();
    if (it == w.blocks.end()) {
      w.fail("a block that is not allocated is released");
      return;
    }
    char* p = it->first;
    if (it->second.n != n) w.fail("a block is released with another size");
    if (it->second.id != id) w.fail("a block is released by an allocator that is not equal to the one that allocated it");
    for (size_t i = 0; i < kGuard; i++) {
      if ((unsigned char)p[i] != 0xAB || (unsigned char)p[it->second.bytes - 1 - i] != 0xAB) w.fail("memory around a block is overwritten");
    }
    memset(p, 0xDD, it->second.bytes);
    std::free(p);
    w.blocks.erase(it);
  }
  template <class U, class... Args>
  void construct(U* p, Args&&... args) {
    ::new ((void*)p) U(std::forward<Args>(args)...);
    world().built++;
  }
  template <class U>
  void destroy(U* p) {
    world().destroyed++;
    p->~U();
  }
  friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};

// What the engine knows about an allocator type.
template <class A>
struct alloc_info {
  static constexpr bool tracked = false, copy = false, move = true, swap = false;
  static A make(int) { return A(); }
  static int id(const A&) { return 0; }
  static int select(int) { return 0; }
};
template <class T, class Tr>
struct alloc_info<TAlloc<T, Tr>> {
  using A = TAlloc<T, Tr>;
  static constexpr bool tracked = true, copy = Tr::copy, move = Tr::move, swap = Tr::swap;
  static A make(int id) { return A(id); }
  static int id(const A& a) { return a.id; }
  static int select(int id) { return A(id).select_on_container_copy_construction().id; }
};
template <class T, size_t N, size_t Al, class B>
struct alloc_info<nda::auto_allocator<T, N, Al, B>> {
  using A = nda::auto_allocator<T, N, Al, B>;
  static constexpr bool tracked = false, copy = false, move = false, swap = false;
  static A make(int) { return A(); }
  static int id(const A&) { return 0; }
  static int select(int) { return 0; }
};
// In-place storage: whether storage moves depends on the sizes.
template <class A>
struct is_auto : std::false_type {};
template <class T, size_t N, size_t Al, class B>
struct is_auto<nda::auto_allocator<T, N, Al, B>> : std::true_type {};

struct Options {
  bool faults = false;    // make allocations fail
  int steps = 14;
  i64 max_ext = 4, max_size = 30;
  bool use_moved_from = true;  // arrays that were moved from are used again
};

template <class T, class Shape, class Alloc>
struct Engine {
  using Array = nda::array<T, Shape, Alloc>;
  using AI = alloc_info<Alloc>;
  static constexpr size_t R = Shape::rank();
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  static constexpr size_t K = 4;

  struct Entry {
    std::unique_ptr<Array> a;
    MS m;
    std::vector<int> v;     // in the order of for_each(m)
    int alloc = 0;
    bool any_alloc = false;  // the allocator is not specified
    bool any = false;        // the contents are not specified
    bool broken = false;     // an allocation failed, can only be assigned or destroyed
  };

  Src& s;
  Ctx& c;
  Options o;
  Entry e[K];
  MS default_shape;
  int next = 1;
  i64 interesting = 0;
  std::vector<SD> sd = statics<Shape>();
  bool set_shapes = false;  // this history uses set_shape

  Engine(Src& s, Ctx& c, const Options& o) : s(s), c(c), o(o) {}

  // ---- helpers
  void error() { CHECK_M(world().error.empty(), world().error); }
  int fresh() { return next++; }
  MS gen_shape() {
    GenOpts g;
    g.huge = true;
    g.max_ext = o.max_ext;
    g.max_size = o.max_size;
    g.max_min = 3;
    for (int t = 0; t < 4; t++) {
      MS m = gen(s, sd, g);
      if (injective(m)) return m;
    }
    MS m = gen(s, sd, g);
    for (size_t d = 0; d < m.size(); d++) {
      if (!sd[d].sext) m[d].ext = 1;
    }
    return m;
  }
  // A shape like m, often with unresolved strides. `m` becomes the resolved shape.
  Shape to_shape(MS& m) {
    if (s.chance(1, 3)) {
      const MS before = m;
      for (size_t d = 0; d < m.size(); d++) {
        if (!sd[d].sstr && s.chance(2, 3)) m[d].str = UNRES;
      }
      Shape r = make<Shape>(m);
      Shape resolved_shape = r;
      resolved_shape.resolve();
      m = model(resolved_shape);
      if (injective(m)) return r;
      // Known strides that are interleaved.
      m = before;
    }
    return make<Shape>(m);
  }
  static i64 total(const MS& m) { return size_of(m); }
  void set(Entry& t, const MS& m, int value) {
    t.m = m;
    t.v.assign((size_t)total(m), value);
    t.any = t.broken = false;
  }
  void take(Entry& t, const Entry& f) {
    t.m = f.m;
    t.v = f.v;
    t.any = f.any;
    t.broken = false;
  }
  // The state of an array whose storage was taken away.
  void emptied(Entry& t) {
    t.m = default_shape;
    t.v.assign((size_t)total(default_shape), 0);
  }
  void elements_moved(Entry& t) {
    if (elem<T>::tracked) {
      std::fill(t.v.begin(), t.v.end(), kMovedFrom);
    } else {
      t.any = std::is_same<T, std::string>::value;
    }
  }
  // The state after a failed allocation: some valid array.
  void failed(Entry& t) {
    t.any_alloc = true;
    bool valid = t.a->base() || t.a->empty();
    // There is no such state for static shapes that are not empty.
    CHECK_M(valid || !nd::empty(default_shape), "array " << at(t) << " has shape " << str(model(t.a->shape())) << " but no storage");
    if (valid) t.any = true;
    else t.broken = true;
  }
  void drop(Entry& t) {
    t.a.reset();
    t.broken = t.any = t.any_alloc = false;
  }
  bool usable(const Entry& t) const { return t.a && !t.broken; }
  Entry* pick_usable() {
    size_t k = s.pick(K);
    for (size_t i = 0; i < K; i++) {
      if (usable(e[(k + i) % K])) return &e[(k + i) % K];
    }
    return nullptr;
  }
  Entry* pick_alive() {
    size_t k = s.pick(K);
    for (size_t i = 0; i < K; i++) {
      if (e[(k + i) % K].a) return &e[(k + i) % K];
    }
    return nullptr;
  }
  size_t at(const Entry& t) const { return (size_t)(&t - e); }
  int gen_id() { return AI::tracked ? (int)s.pick(3) : 0; }

  // ---- verification
  void verify() {
    error();
    i64 elements = 0, blocks = 0;
    for (Entry& t : e) {
      if (!t.a) continue;
      const Array& a = *t.a;
      if (t.broken) {
        if (a.base() && !a.empty()) elements += (i64)a.size();
        if (a.base()) blocks++;
        continue;
      }
      if (t.any) {
        // Adopt whatever is there.
        t.m = model(a.shape());
        t.v.clear();
        for_each(t.m, [&](const Idx& i) { t.v.push_back(elem<T>::get(a[index<R>(i)])); });
        t.any = false;
      }
      CHECK_M(model(a.shape()) == t.m, "array " << at(t) << " has shape " << str(model(a.shape())) << " instead of " << str(t.m));
      CHECK_IEQ(a.size(), total(t.m));
      CHECK_EQ(a.empty(), nd::empty(t.m));
      CHECK_M(a.base() || nd::empty(t.m), "array " << at(t) << " has no storage");
      size_t k = 0;
      for_each(t.m, [&](const Idx& i) {
        const T& x = a[index<R>(i)];
        int got = elem<T>::get(x);
        CHECK_M(got == t.v[k], "element " << str(i) << " of array " << at(t) << " is " << got << " instead of " << t.v[k]);
        k++;
      });
      elements += total(t.m);
      if (a.base()) blocks++;
      if (AI::tracked) {
        if (t.any_alloc) {
          t.alloc = AI::id(a.get_allocator());
          t.any_alloc = false;
        }
        CHECK_M(AI::id(a.get_allocator()) == t.alloc, "the allocator of array " << at(t) << " is " << AI::id(a.get_allocator()) << " instead of " << t.alloc);
        if (!nd::empty(t.m)) {
          auto it = world().blocks.find((char*)a.data() - kGuard);
          const i64 flat = flat_max(t.m) - flat_min(t.m) + 1;
          if (set_shapes) {
            // Somewhere in a block.
            it = world().blocks.upper_bound((char*)a.data() - kGuard);
            CHECK_M(it != world().blocks.begin(), "array " << at(t) << " is not in a block of an allocator");
            --it;
            CHECK_M((const char*)(a.data() + flat) <= (const char*)it->first + kGuard + it->second.n * sizeof(T), "array " << at(t) << " is not in a block of an allocator");
          } else {
            CHECK_M(it != world().blocks.end(), "array " << at(t) << " is not in a block of an allocator");
            CHECK_M((i64)it->second.n == flat, "the block has " << it->second.n << " elements for " << str(t.m));
          }
          CHECK_M(it->second.id == t.alloc, "array " << at(t) << " is in a block of another allocator");
        }
      }
    }
    if (elem<T>::tracked) {
      CHECK_M((i64)world().live.size() == elements, world().live.size() << " elements are alive instead of " << elements);
      if (AI::tracked) CHECK_M(world().built - world().destroyed == elements, "allocators constructed " << world().built << " and destroyed " << world().destroyed << " elements");
    }
    if (AI::tracked) CHECK_M((i64)world().blocks.size() == blocks, world().blocks.size() << " blocks are allocated for " << blocks << " arrays");
    error();
  }

  // ---- operations
  struct Before {
    i64 copies, moves, defaults, allocations;
    Before() : copies(world().copies), moves(world().moves), defaults(world().defaults), allocations(world().allocations) {}
    void no_copies() { CHECK_M(world().copies == copies, "a move copies elements"); }
    void no_elements() {
      no_copies();
      CHECK_M(world().moves == moves, "elements are moved although the storage could be");
    }
  };

  // Runs an operation, in which allocations may fail. False if one did.
  template <class Fn>
  bool attempt(Fn&& fn) {
    if (o.faults && s.chance(1, 3)) {
      world().fail_in = (int)s.pick(3);
      NOTE(c, "  allocation " << world().fail_in << " of this operation fails");
    }
    try {
      fn();
      world().fail_in = -1;
      return true;
    } catch (const std::bad_alloc&) {
      CHECK(o.faults);
      world().fail_in = -1;
      interesting++;
      c.cls("an allocation failed");
      NOTE(c, "  (failed)");
      return false;
    }
  }
  // Puts a new array in an entry.
  template <class Fn>
  bool create(Entry& t, Fn&& fn) {
    drop(t);
    return attempt([&]() { t.a = fn(); });
  }
  bool storage_moves(const Entry& to, const Entry& from) const { return AI::move || to.alloc == from.alloc; }

  void op_construct(Entry& t) {
    int id = gen_id();
    switch (s.pick(4)) {
    case 0: {
      NOTE(c, at(t) << ": default constructed");
      bool with = s.chance(1, 2);
      if (!create(t, [&]() { return with ? std::make_unique<Array>(AI::make(id)) : std::make_unique<Array>(); })) return;
      t.alloc = with ? id : 0;
      set(t, default_shape, 0);
      CHECK_M(model(t.a->shape()) == default_shape, "the default shape is " << str(model(t.a->shape())));
      return;
    }
    case 1: {
      MS m = gen_shape();
      Shape shp = to_shape(m);
      NOTE(c, at(t) << ": constructed with shape " << str(m) << " allocator " << id);
      bool with = s.chance(1, 2);
      if (!create(t, [&]() { return with ? std::make_unique<Array>(shp, AI::make(id)) : std::make_unique<Array>(shp); })) return;
      t.alloc = with ? id : 0;
      return set(t, m, 0);
    }
    default: {
      if constexpr (copyable) {
        MS m = gen_shape();
        Shape shp = to_shape(m);
        int v = fresh();
        NOTE(c, at(t) << ": constructed with shape " << str(m) << " value " << v << " allocator " << id);
        T value = to_elem<T>(v);
        bool with = s.chance(1, 2);
        switch (s.pick(2)) {
        case 0:
          if (!create(t, [&]() { return with ? std::make_unique<Array>(shp, value, AI::make(id)) : std::make_unique<Array>(shp, value); })) return;
          break;
        default:
          if (!create(t, [&]() {
                return with ? std::make_unique<Array>(nda::make_array<T>(shp, value, AI::make(id))) : std::make_unique<Array>(nda::make_array<T, Shape, Alloc>(shp, value));
              }))
            return;
        }
        CHECK(elem<T>::get(value) == v);
        t.alloc = with ? id : 0;
        t.any_alloc = true;  // the array of make_array may be moved
        set(t, m, v);
      } else {
        MS m = gen_shape();
        Shape shp = to_shape(m);
        NOTE(c, at(t) << ": made with shape " << str(m) << " allocator " << id);
        if (!create(t, [&]() { return std::make_unique<Array>(nda::make_array<T>(shp, AI::make(id))); })) return;
        t.any_alloc = true;
        set(t, m, 0);
      }
    }
    }
  }
  void op_copy_construct(Entry& t) {
    if constexpr (copyable) {
      Entry* f = pick_usable();
      if (!f || f == &t) return;
      int id = gen_id();
      switch (s.pick(4)) {
      case 0: {
        NOTE(c, at(t) << ": copy of " << at(*f));
        if (!create(t, [&]() { return std::make_unique<Array>((const Array&)*f->a); })) return;
        t.alloc = AI::select(f->alloc);
        break;
      }
      case 1: {
        NOTE(c, at(t) << ": copy of " << at(*f) << " with allocator " << id);
        if (!create(t, [&]() { return std::make_unique<Array>((const Array&)*f->a, AI::make(id)); })) return;
        t.alloc = id;
        break;
      }
      case 2: {
        NOTE(c, at(t) << ": make_copy of " << at(*f) << " with allocator " << id);
        if (!create(t, [&]() { return std::make_unique<Array>(nda::make_copy(*f->a, AI::make(id))); })) return;
        t.any_alloc = true;
        break;
      }
      default: {
        // With a new layout.
        MS m = f->m;
        m = relayout(s, m, sd, GenOpts());
        if (!injective(m)) return;
        NOTE(c, at(t) << ": make_copy of " << at(*f) << " with shape " << str(m) << " allocator " << id);
        if (!create(t, [&]() { return std::make_unique<Array>(nda::make_copy(*f->a, make<Shape>(m), AI::make(id))); })) return;
        take(t, *f);
        t.m = m;
        t.any_alloc = true;
        return;
      }
      }
      take(t, *f);
    }
  }
  void op_move_construct(Entry& t) {
    Entry* f = pick_usable();
    if (!f || f == &t || !o.use_moved_from) return;
    int id = gen_id();
    Before b;
    const T* base = f->a->base();
    switch (s.pick(4)) {
    case 0: {
      NOTE(c, at(t) << ": moved from " << at(*f));
      bool was_alloc = f->alloc;
      (void)was_alloc;
      if (!create(t, [&]() { return std::make_unique<Array>(std::move(*f->a)); })) return;
      // The allocator is that of the source if it propagates, or a default one.
      t.alloc = AI::move ? f->alloc : AI::id(t.a->get_allocator());
      CHECK_M(t.alloc == f->alloc || t.alloc == 0, "the allocator of the moved array is " << t.alloc);
      break;
    }
    case 1: {
      NOTE(c, at(t) << ": moved from " << at(*f) << " with allocator " << id);
      if (!create(t, [&]() { return std::make_unique<Array>(std::move(*f->a), AI::make(id)); })) return;
      t.alloc = id;
      b.no_copies();
      take(t, *f);
      moved(t, *f, t.alloc == f->alloc, base, b);
      return;
    }
    case 2: {
      // Element by element to a new layout.
      MS m = relayout(s, f->m, sd, GenOpts());
      if (!injective(m)) return;
      NOTE(c, at(t) << ": make_move of " << at(*f) << " with shape " << str(m) << " allocator " << id);
      if (!create(t, [&]() { return std::make_unique<Array>(nda::make_move(*f->a, make<Shape>(m), AI::make(id))); })) {
        f->any = true;  // moved to the temporary array
        return;
      }
      b.no_copies();
      take(t, *f);
      t.m = m;
      t.any_alloc = true;
      elements_moved(*f);
      return;
    }
    default: {
      MS m = s.chance(1, 2) ? f->m : relayout(s, f->m, sd, GenOpts());
      if (!injective(m)) return;
      NOTE(c, at(t) << ": make_move of rvalue " << at(*f) << " with shape " << str(m) << " allocator " << id);
      if (!create(t, [&]() { return std::make_unique<Array>(nda::make_move(std::move(*f->a), make<Shape>(m), AI::make(id))); })) {
        f->any = true;  // moved to the temporary array
        return;
      }
      b.no_copies();
      take(t, *f);
      t.m = m;
      t.any_alloc = true;
      f->any = true;
      return;
    }
    }
    b.no_copies();
    take(t, *f);
    moved(t, *f, AI::move || t.alloc == f->alloc, base, b);
  }
  // After t was move constructed from f.
  void moved(Entry& t, Entry& f, bool storage, const T* base, Before& b) {
    if (is_auto<Alloc>::value) {
      f.any = true;
      return;
    }
    if (storage) {
      c.cls("storage moved");
      b.no_elements();
      CHECK_M(world().allocations == b.allocations, "a move of storage allocates");
      CHECK_M((const T*)t.a->base() == base, "the storage is not moved");
      emptied(f);
      // As good as new.
      Array fresh_array;
      CHECK_M(model(f.a->shape()) == model(fresh_array.shape()), "a moved-from array has shape " << str(model(f.a->shape())) << ", a default constructed one " << str(model(fresh_array.shape())));
      CHECK(f.a->data() == fresh_array.data());
      if constexpr (copyable) CHECK(*f.a == fresh_array);
    } else {
      c.cls("elements moved between allocators");
      elements_moved(f);
    }
  }
  void op_copy_assign(Entry& t) {
    if constexpr (copyable) {
      Entry* f = pick_usable();
      if (!f || !t.a) return;
      if (f == &t) {
        NOTE(c, at(t) << " = itself");
        c.cls("self assignment");
        T* before = t.a->base();
        Array& self = *f->a;
        if (s.chance(1, 2)) *t.a = self;
        else t.a->assign((const Array&)self);
        CHECK(t.a->base() == before);
        return;
      }
      if (t.m == f->m && !nd::empty(t.m)) c.cls("assigned to an array of the same shape");
      bool plain = s.chance(2, 3);
      NOTE(c, at(t) << (plain ? " = " : ".assign of ") << at(*f));
      if (!attempt([&]() {
            if (plain) {
              Array& r = (*t.a = (const Array&)*f->a);
              CHECK(&r == t.a.get());
            } else {
              t.a->assign((const Array&)*f->a);
            }
          })) {
        failed(t);
        t.any_alloc = true;
        return;
      }
      if (plain && AI::copy) t.alloc = f->alloc;
      take(t, *f);
    }
  }
  void op_move_assign(Entry& t) {
    Entry* f = pick_usable();
    if (!f || !t.a) return;
    Before b;
    if (f == &t) {
      NOTE(c, at(t) << " = move of itself");
      c.cls("self move");
      const T* before = t.a->base();
      Array& self = *f->a;
      if (s.chance(1, 2)) *t.a = std::move(self);
      else t.a->assign(std::move(self));
      b.no_elements();
      CHECK((const T*)t.a->base() == before);
      return;
    }
    if (!o.use_moved_from) return;
    size_t form = s.pick(3);
    const T* base = f->a->base();
    NOTE(c, at(t) << (form == 1 ? ".assign of moved " : " = moved ") << at(*f));
    if (!attempt([&]() {
          switch (form) {
          case 0: {
            Array& r = (*t.a = std::move(*f->a));
            CHECK(&r == t.a.get());
            break;
          }
          case 1: t.a->assign(std::move(*f->a)); break;
          default: nda::move(std::move(*f->a), *t.a); break;
          }
        })) {
      failed(t);
      return;
    }
    b.no_copies();
    bool storage = form != 1 && !is_auto<Alloc>::value && (AI::move || t.alloc == f->alloc);
    if (storage && base) {
      b.no_elements();
      CHECK_M(world().allocations == b.allocations, "a move of storage allocates");
      CHECK_M((const T*)t.a->base() == base, "the storage is not moved");
    }
    take(t, *f);
    if (form != 1 && AI::move) {
      t.alloc = f->alloc;
      f->any_alloc = true;
    }
    if (form == 1 && !is_auto<Alloc>::value && !nd::empty(f->m)) {
      // Documented to move construct each element.
      elements_moved(*f);
    } else {
      f->any = true;
    }
  }
  void op_assign_value(Entry& t) {
    if constexpr (copyable) {
      if (!t.a) return;
      MS m = usable(t) && s.chance(1, 3) ? t.m : gen_shape();
      Shape shp = m == t.m ? make<Shape>(m) : to_shape(m);
      int v = fresh();
      NOTE(c, at(t) << ".assign(" << str(m) << ", " << v << ")");
      T value = to_elem<T>(v);
      if (!attempt([&]() { t.a->assign(shp, value); })) {
        failed(t);
        return;
      }
      CHECK(elem<T>::get(value) == v);
      set(t, m, v);
    }
  }
  void op_clear(Entry& t) {
    if (!t.a) return;
    NOTE(c, at(t) << ".clear()");
    if (!attempt([&]() { t.a->clear(); })) {
      failed(t);
      return;
    }
    set(t, default_shape, 0);
  }
  void op_swap(Entry& t) {
    Entry* f = pick_usable();
    if (!f || !usable(t) || !o.use_moved_from) return;
    NOTE(c, "swap of " << at(t) << " and " << at(*f));
    Before b;
    const T *bt = t.a->base(), *bf = f->a->base();
    bool member = s.chance(1, 2);
    if (!attempt([&]() {
          if (member) t.a->swap(*f->a);
          else {
            using nda::swap;
            swap(*t.a, *f->a);
          }
        })) {
      failed(t);
      if (f != &t) failed(*f);
      return;
    }
    b.no_copies();
    if (f == &t) {
      c.cls("self swap");
      return;
    }
    bool propagates = AI::swap;
    if (!is_auto<Alloc>::value && (propagates || t.alloc == f->alloc) && (propagates || AI::move || t.alloc == 0)) {
      b.no_elements();
      CHECK_M((const T*)t.a->base() == bf && (const T*)f->a->base() == bt, "the storage is not swapped");
    }
    std::swap(t.m, f->m);
    std::swap(t.v, f->v);
    std::swap(t.any, f->any);
    if (propagates) std::swap(t.alloc, f->alloc);
    else if (t.alloc != f->alloc) t.any_alloc = f->any_alloc = true;
  }
  void op_reshape(Entry& t) {
    if (!usable(t)) return;
    MS m = s.chance(1, 6) ? t.m : gen_shape();
    if (s.chance(1, 2)) {
      // Near the old one.
      m = t.m;
      for (size_t d = 0; d < m.size(); d++) {
        if (!sd[d].smin) m[d].min += s.around(2);
        if (!sd[d].sext) m[d].ext = std::max<i64>(0, std::min<i64>(o.max_ext, m[d].ext + s.around(2)));
      }
      m = relayout(s, m, sd, GenOpts());
      if (!injective(m)) return;
    }
    Shape shp = to_shape(m);
    NOTE(c, at(t) << ".reshape(" << str(m) << ")");
    Before b;
    if (!attempt([&]() { t.a->reshape(shp); })) return;  // and nothing has changed
    b.no_copies();
    std::map<Idx, int> old;
    size_t k = 0;
    for_each(t.m, [&](const Idx& i) { old[i] = t.v[k++]; });
    std::vector<int> v;
    for_each(m, [&](const Idx& i) {
      auto it = old.find(i);
      v.push_back(it == old.end() ? 0 : it->second);
    });
    t.m = m;
    t.v = v;
  }
  void op_write(Entry& t) {
    if (!usable(t) || nd::empty(t.m)) return;
    size_t k = s.pick(t.v.size());
    int v = fresh();
    size_t n = 0;
    for_each(t.m, [&](const Idx& i) {
      if (n++ == k) {
        NOTE(c, at(t) << str(i) << " = " << v);
        if (v & 1) (*t.a)[index<R>(i)] = to_elem<T>(v);
        else call<R>(*t.a, i) = to_elem<T>(v);
      }
    });
    t.v[k] = v;
  }
  void op_fill(Entry& t) {
    if (!usable(t)) return;
    int v = fresh();
    if constexpr (copyable) {
      if (s.chance(1, 2)) {
        NOTE(c, "fill " << at(t) << " with " << v);
        nda::fill(*t.a, to_elem<T>(v));
        std::fill(t.v.begin(), t.v.end(), v);
        return;
      }
    }
    NOTE(c, "number the elements of " << at(t) << " from " << v);
    size_t k = 0;
    for_each(t.m, [&](const Idx& i) {
      (*t.a)[index<R>(i)] = to_elem<T>(v + (int)k);
      t.v[k] = v + (int)k;
      k++;
    });
    next += (int)k;
  }
  // Another description of some of the elements: permuted dimensions, windows, steps, reversed dimensions.
  void op_set_shape(Entry& t) {
    if constexpr (std::is_trivial<T>::value) {
      if (!usable(t)) return;
      set_shapes = true;
      const MS& old = t.m;
      std::vector<size_t> perm(R);
      for (size_t d = 0; d < R; d++) perm[d] = d;
      if (s.chance(1, 2)) {
        for (size_t d = R; d > 1; d--) std::swap(perm[d - 1], perm[s.pick(d)]);
      }
      MS m(R);
      std::vector<i64> first(R), step(R);
      i64 offset = 0;
      for (size_t d = 0; d < R; d++) {
        const MD& w = old[perm[d]];
        i64 n = w.ext, at0 = 0, st = 1;
        if (n > 0 && s.chance(1, 2)) {
          at0 = s.range(0, n - 1);
          n = s.range(0, n - at0);
          if (n > 1 && s.chance(1, 3)) {
            st = 2;
            n = (n + 1) / 2;
          }
        }
        if (n > 0 && s.chance(1, 4)) {
          at0 += (n - 1) * st;
          st = -st;
        }
        m[d].ext = n;
        m[d].str = w.str * st;
        m[d].min = sd[d].smin ? sd[d].min : s.around(3);
        first[d] = at0;
        step[d] = st;
        offset += at0 * w.str;
        if ((sd[d].sext && n != sd[d].ext) || (sd[d].sstr && m[d].str != sd[d].str)) return;
      }
      if (nd::empty(m)) offset = 0;
      std::map<Idx, int> was;
      size_t k = 0;
      for_each(old, [&](const Idx& i) { was[i] = t.v[k++]; });
      NOTE(c, at(t) << ".set_shape(" << str(m) << ", " << offset << ")");
      const T* base = t.a->base();
      const i64 allocations = world().allocations;
      if (offset == 0 && s.chance(1, 2)) t.a->set_shape(make<Shape>(m));
      else t.a->set_shape(make<Shape>(m), (index_t)offset);
      CHECK_M((const T*)t.a->base() == (base ? base + offset : base), "set_shape does not move the base by the offset");
      CHECK(world().allocations == allocations);
      std::vector<int> v;
      for_each(m, [&](const Idx& i) {
        Idx j(R);
        for (size_t d = 0; d < R; d++) j[perm[d]] = old[perm[d]].min + first[d] + (i[d] - m[d].min) * step[d];
        v.push_back(was.at(j));
      });
      t.m = m;
      t.v = v;
      c.cls("set_shape");
    }
  }
  void op_compare(Entry& t) {
    if constexpr (copyable) {
      Entry* f = pick_usable();
      if (!usable(t) || !f) return;
      bool want = t.m == f->m && t.v == f->v;
      CHECK_M((*t.a == *f->a) == want, "arrays " << at(t) << " and " << at(*f) << " compare " << !want);
      CHECK_M((*t.a != *f->a) == !want, "arrays " << at(t) << " and " << at(*f));
    }
  }

  void run() {
    world().reset();
    {
      Shape d;
      d.resolve();
      default_shape = model(d);
    }
    int n = (int)s.range(3, o.steps);
    int kinds = 0;
    std::set<int> used;
    const bool with_set_shape = std::is_trivial<T>::value && s.chance(1, 3);
    for (int k = 0; k < n; k++) {
      Entry& t = e[s.pick(K)];
      int op = (int)(with_set_shape ? s.weighted({6, 4, 4, 5, 5, 3, 1, 2, 3, 3, 4, 1, 2, 8}) : s.weighted({6, 4, 4, 5, 5, 3, 1, 2, 3, 3, 4, 1, 2}));
      if (!t.a && op > 2) op = (int)s.pick(3);
      if (k == 0) op = 0;
      used.insert(op);
      switch (op) {
      case 0: op_construct(t); break;
      case 1: op_copy_construct(t); break;
      case 2: op_move_construct(t); break;
      case 3: op_copy_assign(t); break;
      case 4: op_move_assign(t); break;
      case 5: op_assign_value(t); break;
      case 6: op_clear(t); break;
      case 7: op_swap(t); break;
      case 8: op_reshape(t); break;
      case 9: op_write(t); break;
      case 10: op_fill(t); break;
      case 11: op_compare(t); break;
      case 13: op_set_shape(t); break;
      default:
        if (t.a) NOTE(c, at(t) << ": destroyed");
        drop(t);
      }
      verify();
    }
    (void)kinds;
    i64 elements = 0;
    for (Entry& t : e) {
      if (usable(t)) elements += (i64)t.v.size();
    }
    c.nontrivial = o.faults ? interesting > 0 : used.size() >= 3 && elements > 0;
    // Everything goes away.
    for (Entry& t : e) {
      drop(t);
      verify();
    }
    CHECK(world().live.empty());
    CHECK(world().blocks.empty());
  }
};

template <class T, class Shape, class Alloc>
void run(Src& s, Ctx& c, const Options& o = Options()) {
  NOTE(c, "type " << type_name<Shape>());
  Engine<T, Shape, Alloc> e(s, c, o);
  e.run();
}

}  // namespace hist

#endif
