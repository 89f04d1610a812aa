// C28: a failed allocation leaves no leak, no double free and unharmed sources.
#include "hist.h"
using namespace nd;
using namespace hist;

template <class T, bool C, bool M, bool S, int Sel>
using AL = TAlloc<T, Traits<C, M, S, Sel>>;

static Options faulty(bool use_moved_from = true) {
  Options o;
  o.faults = true;
  o.use_moved_from = use_moved_from;
  return o;
}

#if PART == 0
PROP(copyable, 1.0) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, any_shape<2>, AL<Elem, 0, 0, 0, 0>>(s, c, faulty());
  default: return hist::run<Elem, dense_shape<1>, AL<Elem, 1, 1, 1, 1>>(s, c, faulty());
  }
}
#endif
#if PART == 1
PROP(move_only, 0.7) {
  switch (s.pick(2)) {
  case 0: return hist::run<MoveOnly, any_shape<2>, AL<MoveOnly, 0, 0, 0, 0>>(s, c, faulty());
  default: return hist::run<MoveOnly, dense_shape<2>, AL<MoveOnly, 0, 1, 0, 2>>(s, c, faulty());
  }
}
#endif
#if PART == 2
PROP(others, 0.8) {
  switch (s.pick(2)) {
  case 0: return hist::run<std::string, any_shape<2>, AL<std::string, 1, 0, 0, 2>>(s, c, faulty());
  default: return hist::run<Elem, chunky_image_shape<3, 4>, AL<Elem, 0, 0, 1, 0>>(s, c, faulty());
  }
}
#endif
#if PART == 3
PROP(integers, 0.7) {
  switch (s.pick(2)) {
  case 0: return hist::run<int, any_shape<2>, AL<int, 0, 0, 0, 0>>(s, c, faulty());
  default: return hist::run<int, any_shape<2>, AL<int, 1, 1, 1, 2>>(s, c, faulty());
  }
}
PROP(not_empty_by_default, 0.5) {
  switch (s.pick(2)) {
  case 0: return hist::run<Elem, fixed_dense_shape<2, 3>, AL<Elem, 0, 0, 0, 0>>(s, c, faulty(false));
  default: return hist::run<Elem, shape<>, AL<Elem, 1, 1, 1, 0>>(s, c, faulty(false));
  }
}
#endif
