// C19: image helpers address the right pixels for every storage order.
#include "array/image.h"
#include "nd.h"
using namespace nd;
using nda::chunky_image_shape;
using nda::crop_origin;
using nda::image_shape;
using nda::planar_image_shape;

using images = types<image_shape, chunky_image_shape<>, chunky_image_shape<3>, chunky_image_shape<3, 4>, chunky_image_shape<dynamic, 4>,
    planar_image_shape, shape<dense_dim<>, dim<>, dim<0, 2>>, shape<dim<>, dense_dim<>, dim<>>, shape<dim<>, dim<>, dim<1, 3, -1>>>;

template <class Shape>
static MS gen_image(Src& s) {
  GenOpts o;
  o.huge = true;
  o.max_ext = 12;
  o.max_size = 500;
  std::vector<SD> sd = statics<Shape>();
  MS m = gen(s, sd, o);
  return m;
}

struct Rect {
  i64 x0, y0, x1, y1;
};
// A boundary near, or far from, the interval [mn, mn + ext).
static i64 gen_edge(Src& s, i64 mn, i64 ext) {
  switch (s.weighted({6, 3, 1, 1})) {
  case 0: return mn + s.range(0, std::max<i64>(ext, 0));
  case 1: return mn + s.range(-8, ext + 8);
  case 2: return s.around(sizeof(index_t) == 8 ? i64(1) << 40 : i64(1) << 24);
  default: return s.around(2);
  }
}
static Rect gen_rect(Src& s, const MS& m) {
  Rect r;
  r.x0 = gen_edge(s, m[0].min, m[0].ext);
  r.x1 = gen_edge(s, m[0].min, m[0].ext);
  r.y0 = gen_edge(s, m[1].min, m[1].ext);
  r.y1 = gen_edge(s, m[1].min, m[1].ext);
  // Mostly ordered.
  if (r.x1 < r.x0 && !s.chance(1, 6)) std::swap(r.x0, r.x1);
  if (r.y1 < r.y0 && !s.chance(1, 6)) std::swap(r.y0, r.y1);
  return r;
}
static std::string str(const Rect& r) {
  std::ostringstream os;
  os << "[" << r.x0 << "," << r.x1 << ")x[" << r.y0 << "," << r.y1 << ")";
  return os.str();
}

// What a crop must be: the bounds of the view and the pixel at its first index.
struct Want {
  MS m;
  Idx first;  // in the coordinates of the original
  bool empty;
};
static Want want_crop(const MS& m, const Rect& r, crop_origin origin) {
  Want w;
  w.m = m;
  i64 x0 = std::max(r.x0, m[0].min), x1 = std::min(r.x1, m[0].min + m[0].ext);
  i64 y0 = std::max(r.y0, m[1].min), y1 = std::min(r.y1, m[1].min + m[1].ext);
  w.empty = x1 <= x0 || y1 <= y0 || m[2].ext <= 0;
  w.m[0].min = origin == crop_origin::zero ? 0 : x0;
  w.m[1].min = origin == crop_origin::zero ? 0 : y0;
  w.m[0].ext = x1 - x0;
  w.m[1].ext = y1 - y0;
  w.first = {x0, y0, m[2].min};
  return w;
}

// Checks the view v of the pixels of `m` at `base`.
template <class View, class T>
static void check_view(const View& v, const Want& w, const MS& m, T* base) {
  MS got = model(v.shape());
  if (w.empty) {
    CHECK_M(v.empty() && v.size() == 0, "the crop is " << str(got) << ", it must be empty");
    v.for_each_value([](const typename View::value_type&) { FAIL_("a pixel of an empty crop is visited"); });
    return;
  }
  CHECK_M(got == w.m, "the crop is " << str(got) << ", expected " << str(w.m));
  CHECK_IEQ(v.size(), size_of(w.m));
  for_each(w.m, [&](const Idx& i) {
    Idx o = {w.first[0] + i[0] - w.m[0].min, w.first[1] + i[1] - w.m[1].min, i[2]};
    CHECK_M(&call<3>(v, i) == base + offset_of(m, o), "pixel " << str(i) << " of the crop is not pixel " << str(o) << " of the image");
  });
}

#if PART == 0
PROP_T(crops, 2.0, images) {
  MS m = gen_image<Shape>(s);
  Rect r = gen_rect(s, m);
  crop_origin origin = s.chance(1, 2) ? crop_origin::zero : crop_origin::crop;
  NOTE(c, "image " << str(m) << " crop " << str(r) << (origin == crop_origin::zero ? " zero" : " crop"));
  Want w = want_crop(m, r, origin);
  c.cls(w.empty, "empty crop");
  c.cls(!w.empty && (r.x0 < m[0].min || r.y0 < m[1].min || r.x1 > m[0].min + m[0].ext || r.y1 > m[1].min + m[1].ext), "partly outside");
  c.nontrivial = !w.empty && size_of(w.m) < size_of(m) && size_of(w.m) > 1;
  auto crop = [&](auto&& im) {
    if (origin == crop_origin::crop && s.chance(1, 2)) return nda::crop(im, (index_t)r.x0, (index_t)r.y0, (index_t)r.x1, (index_t)r.y1);
    return nda::crop(im, (index_t)r.x0, (index_t)r.y0, (index_t)r.x1, (index_t)r.y1, origin);
  };
  Buffer<int> buf(m, 7);
  std::vector<int> before = buf.mem;
  nda::array_ref<int, Shape> ref(buf.base, make<Shape>(m));
  nda::const_array_ref<int, Shape> cref(buf.base, make<Shape>(m));
  switch (s.pick(6)) {
  case 4: {
    // Arrays with other allocators.
    nda::array<int, Shape, nda::uninitialized_std_allocator<int>> a(make<Shape>(m));
    auto v = crop(a);
    static_assert(std::is_same<decltype(v), nda::array_ref<int, Shape>>::value, "");
    check_view(v, w, m, a.base());
    break;
  }
  case 5: {
    const nda::array<int, Shape, nda::auto_allocator<int, 100>> a(make<Shape>(m), 3);
    auto v = crop(a);
    static_assert(std::is_same<decltype(v), nda::const_array_ref<int, Shape>>::value, "");
    check_view(v, w, m, a.base());
    break;
  }
  case 0: {
    auto v = crop(ref);
    static_assert(std::is_same<decltype(v), nda::array_ref<int, Shape>>::value, "the type of a crop is that of the image");
    check_view(v, w, m, buf.base);
    // Crop the crop.
    if (!w.empty) {
      Rect r2 = gen_rect(s, w.m);
      NOTE(c, "then " << str(r2));
      auto v2 = nda::crop(v, (index_t)r2.x0, (index_t)r2.y0, (index_t)r2.x1, (index_t)r2.y1, crop_origin::crop);
      check_view(v2, want_crop(w.m, r2, crop_origin::crop), w.m, &call<3>(v, {w.m[0].min, w.m[1].min, w.m[2].min}) - offset_of(w.m, {w.m[0].min, w.m[1].min, w.m[2].min}));
    }
    break;
  }
  case 1: {
    auto v = crop(cref);
    static_assert(std::is_same<decltype(v), nda::const_array_ref<int, Shape>>::value, "crops of const images are const");
    check_view(v, w, m, (const int*)buf.base);
    break;
  }
  case 2: {
    nda::array<int, Shape> a(make<Shape>(m));
    auto v = crop(a);
    static_assert(std::is_same<decltype(v), nda::array_ref<int, Shape>>::value, "");
    check_view(v, w, m, a.base());
    break;
  }
  default: {
    const nda::array<int, Shape> a(make<Shape>(m), 3);
    auto v = crop(a);
    static_assert(std::is_same<decltype(v), nda::const_array_ref<int, Shape>>::value, "");
    check_view(v, w, m, a.base());
  }
  }
  CHECK(model(ref.shape()) == m);
  CHECK(buf.mem == before);
}

// Writing through a crop writes the pixels of the crop only.
PROP_T(writes_through_crops, 1.0, images) {
  MS m = gen_image<Shape>(s);
  if (!injective(m)) return;
  Rect r = gen_rect(s, m);
  crop_origin origin = s.chance(1, 2) ? crop_origin::zero : crop_origin::crop;
  NOTE(c, "image " << str(m) << " crop " << str(r) << (origin == crop_origin::zero ? " zero" : " crop"));
  Buffer<int> buf(m, 7);
  std::vector<int> want = buf.mem;
  Want w = want_crop(m, r, origin);
  c.nontrivial = !w.empty && size_of(w.m) < size_of(m) && size_of(w.m) > 1;
  nda::array_ref<int, Shape> ref(buf.base, make<Shape>(m));
  nda::fill(nda::crop(ref, (index_t)r.x0, (index_t)r.y0, (index_t)r.x1, (index_t)r.y1, origin), 9);
  for_each(m, [&](const Idx& i) {
    if (i[0] >= r.x0 && i[0] < r.x1 && i[1] >= r.y0 && i[1] < r.y1) want[(size_t)(buf.base - buf.mem.data() + offset_of(m, i))] = 9;
  });
  CHECK(buf.mem == want);
}

#endif

#if PART == 1
PROP_T(crop_shapes, 1.0, images) {
  GenOpts o;
  o.huge = true;
  o.unresolved = true;
  MS m = gen(s, statics<Shape>(), o);
  Rect r = gen_rect(s, m);
  if (r.x1 < r.x0) std::swap(r.x0, r.x1);
  if (r.y1 < r.y0) std::swap(r.y0, r.y1);
  crop_origin origin = s.chance(1, 2) ? crop_origin::zero : crop_origin::crop;
  NOTE(c, "shape " << str(m) << " crop " << str(r) << (origin == crop_origin::zero ? " zero" : " crop"));
  c.nontrivial = r.x1 - r.x0 > 1 && r.y1 - r.y0 > 1;
  Shape sh = make<Shape>(m);
  Shape got = nda::crop_image_shape(sh, (index_t)r.x0, (index_t)r.y0, (index_t)r.x1, (index_t)r.y1, origin);
  MS want = m;
  want[0].min = origin == crop_origin::zero ? 0 : r.x0;
  want[1].min = origin == crop_origin::zero ? 0 : r.y0;
  want[0].ext = r.x1 - r.x0;
  want[1].ext = r.y1 - r.y0;
  CHECK_M(model(got) == want, "the shape is " << str(model(got)) << ", expected " << str(want));
  CHECK(model(sh) == m);
}

PROP_T(channels, 1.0, images) {
  MS m = gen_image<Shape>(s);
  if (m[2].ext == 0) return;
  i64 ch = m[2].min + s.range(0, m[2].ext - 1);
  NOTE(c, "image " << str(m) << " channel " << ch);
  c.nontrivial = m[2].ext > 1 && m[0].ext * m[1].ext > 1;
  auto check = [&](const auto& v, auto* base, const MS& im) {
    using View = typename std::decay<decltype(v)>::type;
    static_assert(View::rank() == 2, "a channel is 2-dimensional");
    using T = typename std::remove_pointer<decltype(base)>::type;
    static_assert(std::is_same<decltype(v.base()), T*>::value, "channels of const images are const");
    MS got = model(v.shape());
    CHECK_M((got == MS{im[0], im[1]}), "the channel is " << str(got));
    std::vector<SD> a = statics<Shape>(), b = statics<typename View::shape_type>();
    for (int d = 0; d < 2; d++) CHECK(!a[d].sstr || (b[d].sstr && a[d].str == b[d].str));
    if (nd::empty(im)) return;
    for_each(got, [&](const Idx& i) {
      CHECK_M(&call<2>(v, i) == base + offset_of(im, {i[0], i[1], ch}), "pixel " << str(i) << " of the channel is another pixel");
    });
  };
  Buffer<short> buf(m, 7);
  switch (s.pick(6)) {
  case 4: {
    nda::array<short, Shape, nda::auto_allocator<short, 60>> a(make<Shape>(m));
    check(nda::slice_channel(a, (index_t)ch), a.base(), m);
    break;
  }
  case 5: {
    const nda::array<short, Shape, nda::uninitialized_std_allocator<short>> a(make<Shape>(m));
    check(nda::slice_channel(a, (index_t)ch), a.base(), m);
    break;
  }
  case 0: check(nda::slice_channel(nda::array_ref<short, Shape>(buf.base, make<Shape>(m)), (index_t)ch), buf.base, m); break;
  case 1: check(nda::slice_channel(nda::const_array_ref<short, Shape>(buf.base, make<Shape>(m)), (index_t)ch), (const short*)buf.base, m); break;
  case 2: {
    nda::array<short, Shape> a(make<Shape>(m));
    check(nda::slice_channel(a, (index_t)ch), a.base(), m);
    break;
  }
  default: {
    const nda::array<short, Shape> a(make<Shape>(m));
    check(nda::slice_channel(a, (index_t)ch), a.base(), m);
  }
  }
}

#endif

#if PART == 2
// ---- conversions between storage orders
template <class From, class To>
static void convert(Src& s, Ctx& c) {
  i64 w = s.range(0, 9), h = s.range(0, 9), ch = s.range(1, 5), x0 = s.around(20), y0 = s.around(20);
  if (!s.chance(1, 10)) w = std::max<i64>(w, 1), h = std::max<i64>(h, 1);
  auto fix = [&](const std::vector<SD>& sd) {
    if (sd[2].sext) ch = sd[2].ext;
    else if (sd[0].sstr && sd[0].str > 0) ch = std::min<i64>(ch, sd[0].str);
  };
  fix(statics<From>());
  fix(statics<To>());
  if (!bounds_fit(MS{{x0, w, 0}, {y0, h, 0}, {0, ch, 0}}, statics<From>())) return;
  NOTE(c, type_name<From>() << " -> " << type_name<To>() << " x " << x0 << "+" << w << " y " << y0 << "+" << h << " channels " << ch);
  c.nontrivial = w * h * ch > 1;
  using nda::interval;
  auto xi = interval<>((index_t)x0, (index_t)w);
  auto yi = interval<>((index_t)y0, (index_t)h);
  nda::array<int, From> a(From(xi, yi, (index_t)ch));
  nda::array<int, To> b(To(xi, yi, (index_t)ch), -1);
  auto declared = [&](const auto& sh, const std::vector<SD>& sd) {
    MS m = model(sh);
    CHECK_M((same_bounds(m, MS{{x0, w, 0}, {y0, h, 0}, {0, ch, 0}})), "the image is " << str(m));
    if (w * h * ch == 0) return;
    CHECK_M(injective(m), "the image is " << str(m));
    if (sd[2].sstr && sd[2].str == 1) {
      // Chunky: dense channels, then x, then y.
      CHECK_M(m[2].str == 1 && m[0].str == (sd[0].sstr ? sd[0].str : ch == 1 || w == 1 ? m[0].str : ch), "the image is " << str(m));
      // (y may fit into the padding of x)
      if (h > 1 && m[0].str == ch) CHECK_M(m[1].str >= m[0].str * w, "the image is " << str(m));
    } else if (sd[0].sstr) {
      CHECK_M(m[0].str == 1 && (h == 1 || m[1].str == w) && (ch == 1 || m[2].str == w * h), "the image is " << str(m));
    }
  };
  declared(a.shape(), statics<From>());
  declared(b.shape(), statics<To>());
  std::vector<int> pix;
  for (i64 y = y0; y < y0 + h; y++)
    for (i64 x = x0; x < x0 + w; x++)
      for (i64 k = 0; k < ch; k++) {
        pix.push_back((int)((y * 37 + x) * 11 + k));
        a((index_t)x, (index_t)y, (index_t)k) = pix.back();
      }
  auto same = [&](const auto& im) {
    size_t n = 0;
    for (i64 y = y0; y < y0 + h; y++)
      for (i64 x = x0; x < x0 + w; x++)
        for (i64 k = 0; k < ch; k++) CHECK_M(im((index_t)x, (index_t)y, (index_t)k) == pix[n++], "pixel " << x << "," << y << "," << k << " is wrong");
  };
  nda::copy(a, b);
  same(b);
  same(a);
  CHECK(nda::equal(a, b));
  nda::array<int, From> a2(a.shape(), -2);
  nda::copy(b, a2);
  same(a2);
  CHECK(a == a2);
  auto b2 = nda::make_copy(a, b.shape());
  static_assert(std::is_same<typename decltype(b2)::shape_type, To>::value, "");
  CHECK(b == b2);
}
template <class From>
static void convert_from(Src& s, Ctx& c) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {convert<From, image_shape>, convert<From, chunky_image_shape<>>, convert<From, chunky_image_shape<3>>,
      convert<From, chunky_image_shape<3, 4>>, convert<From, chunky_image_shape<dynamic, 4>>, convert<From, planar_image_shape>};
  fns[s.pick(6)](s, c);
}
PROP(conversions, 2.0) {
  using Fn = void (*)(Src&, Ctx&);
  static const Fn fns[] = {convert_from<image_shape>, convert_from<chunky_image_shape<>>, convert_from<chunky_image_shape<3>>,
      convert_from<chunky_image_shape<3, 4>>, convert_from<chunky_image_shape<dynamic, 4>>, convert_from<planar_image_shape>};
  fns[s.pick(6)](s, c);
}
#endif
