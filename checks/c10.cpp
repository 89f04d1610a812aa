// C10: an array behaves as a value under any history of operations.
#include "hist.h"
using namespace nd;
using namespace hist;

template <class T>
using std_alloc = std::allocator<T>;

#if PART == 0
PROP(ints, 1.0) {
  switch (s.pick(3)) {
  case 0: return hist::run<int, any_shape<2>, std_alloc<int>>(s, c);
  case 1: return hist::run<int, dense_shape<1>, std_alloc<int>>(s, c);
  default: return hist::run<int, any_shape<3>, std_alloc<int>>(s, c);
  }
}
#endif
#if PART == 1
PROP(ints_2, 1.0) {
  switch (s.pick(4)) {
  case 3: return hist::run<int, any_shape<5>, std_alloc<int>>(s, c);
  case 0: return hist::run<int, chunky_image_shape<3>, std_alloc<int>>(s, c);
  case 1: return hist::run<int, matrix_shape<>, std_alloc<int>>(s, c);
  default: return hist::run<int, shape<dim<-2, dynamic, -1>>, std_alloc<int>>(s, c);
  }
}
#endif
#if PART == 2
PROP(strings, 0.7) {
  switch (s.pick(2)) {
  case 0: return hist::run<std::string, any_shape<2>, std_alloc<std::string>>(s, c);
  default: return hist::run<std::string, dense_shape<1>, std_alloc<std::string>>(s, c);
  }
}
#endif
#if PART == 3
// Shapes that are not empty by default: rank 0, and all extents static.
PROP(scalars, 0.3) {
  Options o;
  o.use_moved_from = false;
  return hist::run<int, shape<>, std_alloc<int>>(s, c, o);
}
PROP(fixed, 0.3) {
  Options o;
  o.use_moved_from = false;
  switch (s.pick(2)) {
  case 0: return hist::run<int, fixed_dense_shape<2, 3>, std_alloc<int>>(s, c, o);
  default: return hist::run<int, shape<fixed_dim<3>, dense_dim<dynamic, 2>>, std_alloc<int>>(s, c, o);
  }
}
template <class Shape>
static void moved_from_case(Src& s, Ctx& c) {
  NOTE(c, "type " << type_name<Shape>());
  Shape shp;
  int x = (int)s.range(1, 9), y = (int)s.range(10, 19);
  nda::array<int, Shape> a(shp, x);
  const int* base = a.base();
  nda::array<int, Shape> b(std::move(a));
  CHECK(b.base() == base);
  b.for_each_value([&](int v) { CHECK(v == x); });
  c.nontrivial = true;
  if (s.chance(1, 4)) {
    if (a.base() == nullptr && !a.shape().empty()) {
      c.known("moved-from-static");
      FAIL_("a moved-from array with a non-empty shape has no elements");
    }
    return;
  }
  // Whatever it is, it can be assigned and destroyed.
  switch (s.pick(4)) {
  case 0: a.assign(shp, y); break;
  case 1: {
    nda::array<int, Shape> d(shp, y);
    a = d;
    break;
  }
  case 2: {
    nda::array<int, Shape> d(shp, y);
    a = std::move(d);
    break;
  }
  default: return;
  }
  CHECK(a.base() != nullptr && a.base() != b.base());
  a.for_each_value([&](int v) { CHECK(v == y); });
  b.for_each_value([&](int v) { CHECK(v == x); });
  CHECK(a != b);
}
PROP(moved_from_static, 0.05) {
  switch (s.pick(3)) {
  case 0: return moved_from_case<fixed_dense_shape<3>>(s, c);
  case 1: return moved_from_case<shape<>>(s, c);
  default: return moved_from_case<matrix_shape<2, 5>>(s, c);
  }
}
#endif
