// C13: reshape keeps every element whose index stays in bounds.
#include "hist.h"
#include "shapes.h"
using namespace nd;
using namespace hist;

using AL0 = Traits<0, 0, 0, 2>;
using AL1 = Traits<1, 1, 1, 0>;

// Another shape of the same type, related to `m`. Its strides may be unresolved.
static MS related(Src& s, Ctx& c, const MS& m, const std::vector<SD>& sd, bool big) {
  MS r = m;
  GenOpts o;
  o.max_ext = big ? 40 : 8;
  o.max_size = big ? 900 : 150;
  switch (s.weighted({3, 3, 3, 2, 1, 1})) {
  case 0:
    // Each dimension shifts, grows or shrinks a little.
    for (size_t d = 0; d < r.size(); d++) {
      i64 lo = r[d].min + s.around(3), hi = r[d].min + r[d].ext + s.around(3);
      if (!sd[d].smin) r[d].min = lo;
      if (!sd[d].sext) r[d].ext = std::max<i64>(0, hi - r[d].min);
    }
    break;
  case 1: {
    // One dimension changes.
    if (r.empty()) break;
    size_t d = s.pick(r.size());
    if (!sd[d].sext) r[d].ext = s.range(0, 8);
    if (!sd[d].smin && s.chance(1, 2)) r[d].min += s.around(6);
    break;
  }
  case 2: break;  // the same bounds
  case 3: r = gen(s, sd, o); break;
  case 4:
    // Disjoint, possibly adjacent.
    for (size_t d = 0; d < r.size(); d++) {
      if (sd[d].smin) continue;
      r[d].min += (s.chance(1, 2) ? 1 : -1) * (r[d].ext + s.range(0, 3));
      if (s.chance(2, 3)) break;
    }
    break;
  default:
    // Bounds inside of the old ones.
    gen_crop(s, m, sd, r, true);
    break;
  }
  if (size_of(r) > o.max_size * 4) {
    for (size_t d = 0; d < r.size(); d++) {
      if (!sd[d].sext) r[d].ext = std::min<i64>(r[d].ext, 4);
    }
  }
  switch (s.weighted({2, 2, 1, 1})) {
  case 0:
    for (size_t d = 0; d < r.size(); d++) r[d].str = sd[d].sstr ? sd[d].str : UNRES;
    break;
  case 1: r = relayout(s, r, sd, o); break;
  case 2: {
    // The old strides, which may no longer fit.
    for (size_t d = 0; d < r.size(); d++) r[d].str = m[d].str;
    if (!injective(r)) r = relayout(s, r, sd, o);
    break;
  }
  default: {
    r = relayout(s, r, sd, o);
    for (size_t d = 0; d < r.size(); d++) {
      if (!sd[d].sstr && s.chance(1, 2)) r[d].str = UNRES;
    }
  }
  }
  MS f = resolved(r);
  if (!injective(f)) {
    for (size_t d = 0; d < r.size(); d++) r[d].str = sd[d].sstr ? sd[d].str : UNRES;
  }
  c.cls(same_bounds(m, f) && !(m == f), "only the strides change");
  return r;
}

template <class T, class Shape, class Alloc>
static void reshapes(Src& s, Ctx& c) {
  world().reset();
  using AI = alloc_info<Alloc>;
  std::vector<SD> sd = statics<Shape>();
  GenOpts o;
  bool big = s.chance(1, 10);
  o.max_ext = big ? 40 : 8;
  o.max_size = big ? 900 : 150;
  o.huge = true;
  MS m = gen(s, sd, o);
  if (!injective(m)) return;
  NOTE(c, "shape " << str(m));
  std::map<Idx, int> v;
  {
    int id = AI::tracked ? (int)s.range(1, 3) : 0;
    nda::array<T, Shape, Alloc> a(make<Shape>(m), AI::make(id));
    int next = 1;
    for_each(m, [&](const Idx& i) {
      v[i] = next;
      a[index<Shape::rank()>(i)] = to_elem<T>(next++);
    });
    for (int n = (int)s.range(1, 3); n > 0; n--) {
      MS r = related(s, c, m, sd, big);
      MS f = resolved(r);
      if (!injective(f)) return;  // interleaved known strides
      NOTE(c, "reshape to " << str(r));
      std::map<Idx, int> w;
      i64 kept = 0;
      for_each(f, [&](const Idx& i) {
        auto it = v.find(i);
        if (it != v.end()) kept++;
        w[i] = it == v.end() ? 0 : it->second;
      });
      i64 copies = world().copies, moves = world().moves;
      a.reshape(make<Shape>(r));
      CHECK_M(world().copies == copies, "reshape copies elements");
      (void)moves;
      CHECK_M(model(a.shape()) == f, "the new shape is " << str(model(a.shape())) << " instead of " << str(f));
      CHECK_M(AI::id(a.get_allocator()) == id, "reshape changes the allocator");
      for_each(f, [&](const Idx& i) {
        int got = elem<T>::get(a[index<Shape::rank()>(i)]);
        CHECK_M(got == w[i], "element " << str(i) << " is " << got << " instead of " << w[i]);
      });
      // The same shape again changes nothing.
      if (s.chance(1, 6)) {
        const T* base = a.base();
        a.reshape(a.shape());
        CHECK(a.base() == base);
      }
      i64 all = size_of(f);
      c.cls(kept == 0 && all > 0 && !v.empty(), "disjoint");
      c.cls(kept > 0 && kept < all && kept < (i64)v.size(), "partial overlap");
      c.cls(kept > 0 && kept == all && kept < (i64)v.size(), "shrinks");
      c.cls(kept > 0 && kept < all && kept == (i64)v.size(), "grows");
      c.cls(all == 0, "to an empty shape");
      c.cls(v.empty(), "from an empty shape");
      if (kept > 0 && !(m == f)) c.nontrivial = true;
      if (elem<T>::tracked) CHECK_M((i64)world().live.size() == all, world().live.size() << " elements are alive instead of " << all);
      if (AI::tracked) {
        CHECK_IEQ(world().blocks.size(), all > 0 ? 1 : 0);
        if (all) {
          auto it = world().blocks.begin();
          CHECK_M((i64)it->second.n == flat_max(f) - flat_min(f) + 1, "the block has " << it->second.n << " elements");
          CHECK(it->second.id == id);
          CHECK((const char*)a.base() == it->first + kGuard - flat_min(f) * (i64)sizeof(T));
        }
      }
      CHECK_M(world().error.empty(), world().error);
      m = f;
      v = w;
      // Write again after the reshape.
      if (s.chance(1, 2)) {
        for (auto& x : v) {
          if (next % 3 == 0) {
            x.second = next;
            a[index<Shape::rank()>(x.first)] = to_elem<T>(next);
          }
          next++;
        }
      }
    }
  }
  CHECK_M(world().error.empty(), world().error);
  CHECK_M(world().live.empty(), "elements are alive after the array");
  CHECK_M(world().blocks.empty(), "a block is not released");
}

#if PART == 0
using list0 = types<any_shape<1>, any_shape<2>, any_shape<3>>;
PROP_T(reshape_any, 1.0, list0) { reshapes<Elem, Shape, TAlloc<Elem, AL0>>(s, c); }
#endif
#if PART == 1
using list1 = types<dense_shape<2>, matrix_shape<3, dynamic>, chunky_image_shape<3>, planar_image_shape, shape<strided_dim<3>, dim<>>>;
PROP_T(reshape_static, 1.0, list1) { reshapes<int, Shape, std::allocator<int>>(s, c); }
#endif
#if PART == 2
using list2 = types<any_shape<2>, chunky_image_shape<3, 4>, shape<dim<-2, dynamic, -1>>, shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>>;
PROP_T(reshape_move_only, 1.0, list2) { reshapes<MoveOnly, Shape, TAlloc<MoveOnly, AL1>>(s, c); }
#endif
#if PART == 3
using list3 = types<any_shape<4>, any_shape<5>, any_shape<7>, shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>>;
PROP_T(reshape_high, 0.6, list3) { reshapes<std::string, Shape, std::allocator<std::string>>(s, c); }
#endif
#if PART == 4
using list4 = types<any_shape<1>, any_shape<2>, matrix_shape<>>;
PROP_T(reshape_auto, 0.7, list4) { reshapes<Elem, Shape, nda::auto_allocator<Elem, 24>>(s, c); }
PROP(reshape_in_histories, 0.3) {
  Options o;
  o.steps = 24;
  o.max_ext = 5;
  if (s.chance(1, 3)) hist::run<int, any_shape<2>, TAlloc<int, AL0>>(s, c, o);
  else hist::run<Elem, any_shape<2>, TAlloc<Elem, AL0>>(s, c, o);
}
#endif
