// C11: every element is constructed once, destroyed once and never used in between.
#include "hist.h"
using namespace nd;
using namespace hist;

// Instrumented elements in histories of container operations.
#if PART == 0
PROP(copyable, 1.0) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, any_shape<2>, std::allocator<Elem>>(s, c);
  default: return hist::run<Elem, dense_shape<1>, std::allocator<Elem>>(s, c);
  }
}
#endif
#if PART == 1
PROP(copyable_3, 1.0) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, chunky_image_shape<3, 4>, std::allocator<Elem>>(s, c);
  default: return hist::run<Elem, any_shape<3>, std::allocator<Elem>>(s, c);
  }
}
#endif
#if PART == 2
PROP(move_only, 1.0) {
  switch (s.pick(3)) {
  case 0: return hist::run<MoveOnly, any_shape<2>, std::allocator<MoveOnly>>(s, c);
  case 1: return hist::run<MoveOnly, matrix_shape<>, std::allocator<MoveOnly>>(s, c);
  default: return hist::run<MoveOnly, shape<dim<-2, dynamic, -1>>, std::allocator<MoveOnly>>(s, c);
  }
}
#endif
#if PART == 3
// Unequal allocators, where elements are moved one by one.
using NoProp = Traits<false, false, false, 0>;
PROP(unequal_allocators, 1.0) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, any_shape<2>, TAlloc<Elem, NoProp>>(s, c);
  default: return hist::run<MoveOnly, any_shape<2>, TAlloc<MoveOnly, NoProp>>(s, c);
  }
}
#endif
#if PART == 4
// Shapes that are not empty by default.
PROP(not_empty_by_default, 0.5) {
  Options o;
  o.use_moved_from = false;
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, fixed_dense_shape<2, 3>, std::allocator<Elem>>(s, c, o);
  default: return hist::run<Elem, shape<>, std::allocator<Elem>>(s, c, o);
  }
}
// In-place storage.
PROP(auto_storage, 0.6) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, any_shape<2>, nda::auto_allocator<Elem, 8>>(s, c);
  default: return hist::run<MoveOnly, dense_shape<1>, nda::auto_allocator<MoveOnly, 3>>(s, c);
  }
}
#endif
#if PART == 5
// Where the values of new elements come from: each element is constructed from the given value,
// or from the element at its index.
struct Origin {
  enum How { kDefault, kCopy, kMove } how = kDefault;
  const Origin* from = nullptr;
  int v = 0;
  Origin() {}
  Origin(const Origin& r) : how(kCopy), from(&r), v(r.v) {}
  Origin(Origin&& r) : how(kMove), from(&r), v(r.v) {}
  Origin& operator=(const Origin& r) {
    v = r.v;
    assigned = true;
    return *this;
  }
  bool assigned = false;
};
template <class Shape>
static void origin_case(Src& s, Ctx& c) {
  GenOpts o;
  MS m = gen<Shape>(s, o);
  if (!injective(m)) return;
  constexpr size_t R = Shape::rank();
  NOTE(c, type_name<Shape>() << " " << str(m));
  c.nontrivial = size_of(m) > 1;
  using A = nda::array<Origin, Shape>;
  Shape shp = make<Shape>(m);
  Origin value;
  value.v = 5;
  auto all_copies = [&](const A& a) {
    for_each(m, [&](const Idx& i) {
      const Origin& e = a[index<R>(i)];
      CHECK(e.v == 5);
      CHECK_M(e.how == Origin::kCopy || e.assigned, "element " << str(i) << " is not copied from the value");
    });
  };
  A a(shp, value);
  all_copies(a);
  {
    A b(shp);
    for_each(m, [&](const Idx& i) { CHECK(b[index<R>(i)].how == Origin::kDefault && !b[index<R>(i)].assigned && b[index<R>(i)].v == 0); });
    b.assign(shp, value);
    all_copies(b);
    b.assign(shp, value);
    all_copies(b);
  }
  {
    A b(a);
    for_each(m, [&](const Idx& i) {
      const Origin& e = b[index<R>(i)];
      CHECK(e.how == Origin::kCopy);
      CHECK_M(e.from == &a[index<R>(i)], "element " << str(i) << " is copied from another element");
    });
    A d(shp);
    d = a;
    all_copies(d);
    for_each(m, [&](const Idx& i) {
      const Origin& e = d[index<R>(i)];
      CHECK(e.assigned || e.from == &a[index<R>(i)]);
    });
  }
  {
    // Moves of storage leave the elements where they are.
    std::map<Idx, const Origin*> where;
    for_each(m, [&](const Idx& i) { where[i] = &a[index<R>(i)]; });
    A b(std::move(a));
    A d;
    d = std::move(b);
    for_each(m, [&](const Idx& i) {
      CHECK(&d[index<R>(i)] == where[i]);
      CHECK(d[index<R>(i)].how == Origin::kCopy);
    });
  }
}
PROP(origins, 0.5) {
  switch (s.pick(4)) {
  case 0: return origin_case<any_shape<2>>(s, c);
  case 1: return origin_case<any_shape<3>>(s, c);
  case 2: return origin_case<chunky_image_shape<3>>(s, c);
  default: return origin_case<dense_shape<1>>(s, c);
  }
}
// Functions that make or fill arrays from others: moves never copy, copies never move, and all
// elements are there once.
template <class Shape>
static void function_case(Src& s, Ctx& c) {
  constexpr size_t R = Shape::rank();
  MS m = gen<Shape>(s, GenOpts());
  if (!injective(m)) return;
  NOTE(c, type_name<Shape>() << " " << str(m));
  world().reset();
  {
    using A = nda::array<Elem, Shape>;
    const i64 n = empty(m) ? 0 : size_of(m);
    c.nontrivial = n > 1;
    auto live = [&](i64 arrays) { CHECK_EQ((i64)world().live.size(), arrays * n); };
    A a(make<Shape>(m));
    live(1);
    int v = 1;
    for_each(m, [&](const Idx& i) { a[index<R>(i)].v = v++; });
    auto has = [&](const auto& x) {
      int v = 1;
      for_each(m, [&](const Idx& i) { CHECK(x[index<R>(i)].v == v++); });
    };
    const A& ca = a;
    // As the type says, the shape may have another layout.
    MS o = relayout(s, m, statics<Shape>(), GenOpts());
    if (!injective(o)) o = m;
    const Shape other = make<Shape>(o);
    const nda::shape_of_rank<R> any = make<nda::shape_of_rank<R>>(m);
    auto copies = [&](const char* what, auto&& fn) {
      NOTE(c, what);
      const World before = world();
      {
        auto r = fn();
        CHECK_M(world().moves == before.moves, what << " moves elements");
        live(2);
        has(r);
        has(a);
      }
      live(1);
    };
    auto moves = [&](const char* what, auto&& fn) {
      A from(ca);
      NOTE(c, what);
      const World before = world();
      {
        auto r = fn(from);
        CHECK_M(world().copies == before.copies, what << " copies elements");
        CHECK_M(world().moves - before.moves == n || world().moves == before.moves, what << " moves elements more than once");
        has(r);
      }
      CHECK_EQ((i64)world().live.size(), (from.empty() ? 0 : n) + n);
    };
    const int pick = s.pick(20);
    switch (pick) {
    case 0: copies("make_copy", [&] { return nda::make_copy(ca); }); break;
    case 1: copies("make_copy of a ref", [&] { return nda::make_copy(a.ref()); }); break;
    case 2: copies("make_copy with a shape", [&] { return nda::make_copy(a, other); }); break;
    case 3: copies("make_copy of a ref with a shape", [&] { return nda::make_copy(a.cref(), other); }); break;
    case 4: copies("make_copy of an rvalue with a shape", [&] { return nda::make_copy(std::move(a), any); }); break;
    case 5: copies("make_compact_copy", [&] { return nda::make_compact_copy(a); }); break;
    case 6: copies("make_compact_copy of a ref", [&] { return nda::make_compact_copy(a.ref()); }); break;
    case 7:
      copies("copy", [&] {
        A r(other);
        nda::copy(a, r);
        return r.empty() || s.chance(1, 2) ? A(ca) : A(r);
      });
      break;
    case 8:
      copies("copy of refs", [&] {
        nda::array<Elem, nda::shape_of_rank<R>> r(any);
        nda::copy(a.ref(), r.ref());
        return nda::make_copy(r);
      });
      break;
    case 9: moves("make_move with a shape", [&](A& x) { return nda::make_move(x, other); }); break;
    case 10: moves("make_move of a ref", [&](A& x) { return nda::make_move(x.ref(), other); }); break;
    case 11: moves("make_move of an rvalue", [&](A& x) { return nda::make_move(std::move(x), other); }); break;
    case 12: moves("make_move of an rvalue with its shape", [&](A& x) { return nda::make_move(std::move(x), Shape(x.shape())); }); break;
    case 13: moves("make_move with another type of shape", [&](A& x) { return nda::make_move(x, any); }); break;
    case 14: moves("make_compact_move", [&](A& x) { return nda::make_compact_move(x); }); break;
    case 15: moves("make_compact_move of a ref", [&](A& x) { return nda::make_compact_move(x.ref()); }); break;
    case 16: moves("make_compact_move of an rvalue", [&](A& x) { return nda::make_compact_move(std::move(x)); }); break;
    case 17:
      moves("move of an rvalue", [&](A& x) {
        A r;
        nda::move(std::move(x), r);
        return r;
      });
      break;
    case 18: {
      A from(ca), to(other);
      const World before = world();
      if (s.chance(1, 2)) nda::move(from, to);
      else nda::move(from.ref(), to.ref());
      NOTE(c, "move");
      CHECK(world().copies == before.copies && world().moves - before.moves == n);
      live(3);
      has(to);
      break;
    }
    default: {
      A from(ca), to(other);
      const World before = world();
      if (s.chance(1, 2)) nda::move(from, to.ref());
      else nda::move(from.ref(), to);
      NOTE(c, "move");
      CHECK(world().copies == before.copies && world().moves - before.moves == n);
      live(3);
      has(to);
    }
    }
    live(1);
  }
  CHECK_M(world().error.empty(), world().error);
  CHECK_EQ((i64)world().live.size(), (i64)0);
}
PROP(functions, 0.8) {
  switch (s.pick(5)) {
  case 0: return function_case<any_shape<1>>(s, c);
  case 1: return function_case<any_shape<2>>(s, c);
  case 2: return function_case<any_shape<3>>(s, c);
  case 3: return function_case<matrix_shape<>>(s, c);
  default: return function_case<dense_shape<2>>(s, c);
  }
}
#endif
