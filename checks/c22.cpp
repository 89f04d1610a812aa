// C22: resampling equals the direct evaluation of its kernel formula.
#include <cmath>
#include "array/image.h"
#include "examples/resample/resample.h"
#include "nd.h"
using namespace nd;
using nda::chunky_image_shape;
using nda::image_shape;
using nda::planar_image_shape;

// The kernels, from their definitions.
static double sinc_(double x) { return x == 0 ? 1 : std::sin(M_PI * x) / (M_PI * x); }
static double lanczos_(double x, int n) { return std::abs(x) <= n ? sinc_(x) * sinc_(x / n) : 0; }
static double quadratic_(double x, double r) {
  x = std::abs(x);
  if (x < 0.5) return -2 * r * x * x + (r + 1) / 2;
  if (x < 1.5) return r * x * x - (2 * r + 0.5) * x + 0.75 * (r + 1);
  return 0;
}
// Mitchell and Netravali.
static double cubic_(double x, double B, double C) {
  x = std::abs(x);
  if (x < 1) return ((12 - 9 * B - 6 * C) * x * x * x + (-18 + 12 * B + 6 * C) * x * x + (6 - 2 * B)) / 6;
  if (x < 2) return ((-B - 6 * C) * x * x * x + (6 * B + 30 * C) * x * x + (-12 * B - 48 * C) * x + (8 * B + 24 * C)) / 6;
  return 0;
}
// A kernel of the user: a table, so not symmetric, and with zeros inside.
static double table_(double x) {
  if (x < -1.5 || x > 2.5) return 0;
  return x < -0.75 ? 0.25 : x < -0.25 ? 0 : 1;
}
struct Kernel {
  const char* name;
  nda::continuous_kernel fn;
  double (*def)(double);
  bool interpolating;
  std::vector<double> jumps;  // where it is not continuous
};
static const std::vector<Kernel>& kernels() {
  static const std::vector<Kernel> k = {
      {"linear", nda::linear, [](double x) { return std::max(0.0, 1 - std::abs(x)); }, true, {}},
      {"box", nda::box, [](double x) { return std::abs(x) <= 0.5 ? 1.0 : 0.0; }, true, {-0.5, 0.5}},
      {"interpolating_quadratic", nda::interpolating_quadratic, [](double x) { return quadratic_(x, 1); }, true, {}},
      {"quadratic_bspline", nda::quadratic_bspline, [](double x) { return quadratic_(x, 0.5); }, false, {}},
      {"interpolating_cubic", nda::interpolating_cubic, [](double x) { return cubic_(x, 0, 0.5); }, true, {}},
      {"cubic_bspline", nda::cubic_bspline, [](double x) { return cubic_(x, 1, 0); }, false, {}},
      {"lanczos<2>", nda::lanczos<2>, [](double x) { return lanczos_(x, 2); }, true, {}},
      {"lanczos<3>", nda::lanczos<3>, [](double x) { return lanczos_(x, 3); }, true, {}},
      {"table", [](float x) { return (float)table_(x); }, table_, false, {-1.5, -0.75, -0.25, 2.5}},
  };
  return k;
}

struct Rate {
  i64 p, q;  // reduced
};
static Rate gen_rate(Src& s) {
  i64 p = 1, q = 1;
  switch (s.weighted({4, 2, 2, 1})) {
  case 0: break;
  case 1: p = s.range(1, 6); break;
  case 2: p = s.range(1, 8), q = s.range(1, 4); break;
  default: p = s.range(3, 40), q = s.range(7, 40);
  }
  while (4 * p < q) p *= 2;
  if (p > 6 * q) q = p / 4;
  for (i64 g = 2; g <= p && g <= q;) {
    if (p % g == 0 && q % g == 0) {
      p /= g, q /= g;
    } else {
      g++;
    }
  }
  return {p, q};
}
static i64 floor_div(i64 a, i64 b) { return a / b - (a % b != 0 && (a < 0) != (b < 0)); }

// One dimension of the images: the output is inside of what the input covers.
struct Axis {
  i64 in_min, in_ext, out_min, out_ext;
  Rate r;
};
static Axis gen_axis(Src& s, i64 want) {
  Axis a;
  a.r = gen_rate(s);
  a.in_min = s.chance(1, 2) ? 0 : s.around(30);
  // The extent of the input that covers `want` outputs, or more.
  a.in_ext = (want * a.r.q + a.r.p - 1) / a.r.p + (s.chance(1, 2) ? 0 : s.range(0, 3)) + 1;
  // The center of the output pixel x is at (x + 1/2) / rate in the input, which must be in
  // [in_min, in_min + in_ext].
  // (x + 1/2) * q / p >= in_min: 2 x >= 2 in_min p / q - 1
  const i64 lo = -floor_div(-(2 * a.in_min * a.r.p - a.r.q), 2 * a.r.q);
  const i64 hi = floor_div(2 * (a.in_min + a.in_ext) * a.r.p - a.r.q, 2 * a.r.q);
  a.out_ext = std::min(want, hi - lo + 1);
  a.out_min = lo + s.range(0, hi - lo + 1 - a.out_ext);
  return a;
}
// The position of an output in the input.
static double source(const Axis& a, i64 x) { return ((2 * x + 1) * a.r.q - a.r.p) / (2.0 * a.r.p); }

// The weights of the input for one output, not normalized. The result is false if it is at a jump
// of the kernel (rounding decides).
static bool weights(const Axis& a, const Kernel& k, i64 x, std::vector<double>& w, double& sum) {
  const double scale = std::min(1.0, (double)a.r.p / a.r.q);
  w.clear();
  sum = 0;
  bool ok = true;
  for (i64 i = a.in_min; i < a.in_min + a.in_ext; i++) {
    double t = (i - source(a, x)) * scale;
    for (double j : k.jumps) ok = ok && std::abs(t - j) > 1e-4;
    w.push_back(k.def(t));
    sum += w.back();
  }
  return ok;
}
// Can the kernel be normalized everywhere, and well enough?
static bool usable(const Axis& a, const Kernel& k) {
  std::vector<double> w;
  for (i64 x = a.out_min; x < a.out_min + a.out_ext; x++) {
    double sum, abs = 0;
    if (!weights(a, k, x, w, sum)) return false;
    for (double v : w) abs += std::abs(v);
    if (sum < 0.05 * abs || sum < 1e-3) return false;
  }
  return true;
}

template <class TIn, class SIn, class TOut, class SOut>
static void resample(Src& s, Ctx& c, bool shorter) {
  Kernel k = kernels()[s.pick(kernels().size())];
  const std::vector<SD> sin = statics<SIn>(), sout = statics<SOut>();
  const i64 channels = sin[2].sext ? sin[2].ext : sout[2].sext ? sout[2].ext : s.range(1, 3);
  if (sout[2].sext && sout[2].ext != channels) return;
  Axis x = gen_axis(s, s.range(1, 9)), y = gen_axis(s, shorter ? s.range(1, 63) : 64 + (s.chance(1, 2) ? s.range(0, 8) : s.range(0, 80)));
  if (s.chance(1, 6)) {
    // The same image.
    x = {x.in_min, x.in_ext, x.in_min, x.in_ext, {1, 1}};
    y = {y.in_min, std::max<i64>(shorter ? 1 : 64, y.in_ext), y.in_min, std::max<i64>(shorter ? 1 : 64, y.in_ext), {1, 1}};
  }
  if (!usable(x, k) || !usable(y, k)) {
    c.cls("a jump of the kernel is at a pixel");
    k = kernels()[0];
    if (!usable(x, k) || !usable(y, k)) return;
  }
  GenOpts o;
  MS min = relayout(s, {{x.in_min, x.in_ext, 0}, {y.in_min, y.in_ext, 0}, {0, channels, 0}}, sin, o);
  MS mout = relayout(s, {{x.out_min, x.out_ext, 0}, {y.out_min, y.out_ext, 0}, {0, channels, 0}}, sout, o);
  NOTE(c, k.name << ", rates " << x.r.p << "/" << x.r.q << ", " << y.r.p << "/" << y.r.q << ", from " << str(min) << " to " << str(mout));
  if (!injective(mout)) return;
  using U = typename std::remove_const<TIn>::type;
  Buffer<U> in(min, (U)9999);
  Buffer<TOut> out(mout, (TOut)-77);
  const int mode = (int)s.pick(3);
  uint64_t z = s.draw(1 << 20);
  for_each(min, [&](const Idx& i) {
    z = z * 6364136223846793005ull + 1442695040888963407ull;
    in.base[offset_of(min, i)] = mode == 0 ? (U)(int)((z >> 40) % 201) - (U)100 : mode == 1 ? (U)5 : (U)(i[0] * 3 + i[1]);
  });
  const std::vector<U> in0 = in.mem;
  const std::vector<TOut> out0 = out.mem;
  c.nontrivial = x.in_ext > 1 && y.in_ext > 1;
  c.cls(k.name);
  c.cls(x.r.p > x.r.q || y.r.p > y.r.q, "upsampling");
  c.cls(x.r.p < x.r.q || y.r.p < y.r.q, "downsampling");
  c.cls(y.out_ext % 64 != 0, "overlapping strips");
  if (y.out_ext < 64) c.known("short-output");
  nda::array_ref<TIn, SIn> rin(in.base, make<SIn>(min));
  nda::array_ref<TOut, SOut> rout(out.base, make<SOut>(mout));
  nda::resample(rin, rout, rational<index_t>((index_t)x.r.p, (index_t)x.r.q), rational<index_t>((index_t)y.r.p, (index_t)y.r.q), k.fn);

  CHECK(in.mem == in0);
  std::vector<std::vector<double>> wx;
  std::vector<double> sx, wy;
  for (i64 u = x.out_min; u < x.out_min + x.out_ext; u++) {
    double sum;
    wx.emplace_back();
    weights(x, k, u, wx.back(), sum);
    sx.push_back(sum);
  }
  std::vector<bool> written(out0.size());
  for (i64 v = y.out_min; v < y.out_min + y.out_ext; v++) {
    double sy;
    weights(y, k, v, wy, sy);
    for (i64 u = x.out_min; u < x.out_min + x.out_ext; u++) {
      const std::vector<double>& w = wx[u - x.out_min];
      const double sum = sx[u - x.out_min] * sy;
      for (i64 ch = 0; ch < channels; ch++) {
        double want = 0, size = 0;
        for (size_t j = 0; j < wy.size(); j++) {
          if (wy[j] == 0) continue;
          for (size_t i = 0; i < w.size(); i++) {
            double t = w[i] * wy[j] * in.base[offset_of(min, {x.in_min + (i64)i, y.in_min + (i64)j, ch})] / sum;
            want += t;
            size += std::abs(t);
          }
        }
        const i64 at = offset_of(mout, {u, v, ch});
        written[out.base - out.mem.data() + at] = true;
        const double got = out.base[at];
        // (the weights are computed with single precision)
        CHECK_M(std::abs(got - want) <= 2e-4 * (size + 1), "the output at " << u << "," << v << "," << ch << " is " << got << " instead of " << want);
        if (mode == 1) CHECK_M(std::abs(got - 5) <= 2e-3, "a constant image is not constant: " << got);
        if (k.interpolating && x.r.p == x.r.q && y.r.p == y.r.q) {
          c.cls("identity");
          CHECK_M(std::abs(got - (double)in.base[offset_of(min, {u, v, ch})]) <= 1e-2, "not the identity at " << u << "," << v);
        }
      }
    }
  }
  for (size_t i = 0; i < written.size(); i++) {
    if (!written[i]) CHECK_M(out.mem[i] == out0[i], "the memory at offset " << (i64)i - (out.base - out.mem.data()) << " from the output changed");
  }
}
static void any(Src& s, Ctx& c, bool shorter) {
  switch (s.pick(5)) {
  case 0: resample<const float, image_shape, float, image_shape>(s, c, shorter); break;
  case 1: resample<float, chunky_image_shape<3>, float, chunky_image_shape<3>>(s, c, shorter); break;
  case 2: resample<const float, planar_image_shape, float, planar_image_shape>(s, c, shorter); break;
  case 3: resample<const short, chunky_image_shape<>, float, planar_image_shape>(s, c, shorter); break;
  default: resample<double, image_shape, float, chunky_image_shape<3, 4>>(s, c, shorter); break;
  }
}
PROP(images, 1.0) { any(s, c, false); }
PROP(low_images, 0.02) { any(s, c, true); }

// The kernels at any position.
PROP(kernel_functions, 20.0) {
  const Kernel& k = kernels()[s.pick(kernels().size())];
  const double t = s.chance(1, 3) ? s.around(8) / 2.0 : s.around(60000) / 10000.0;
  for (double j : k.jumps) {
    if (std::abs(t - j) < 1e-4 && k.def != kernels()[1].def) return;
  }
  NOTE(c, k.name << " at " << t);
  const double got = k.fn((float)t), want = k.def((float)t);
  c.nontrivial = want != 0;
  CHECK_M(std::abs(got - want) < 1e-5, "it is " << got << " instead of " << want);
  if (k.interpolating && t == std::round(t)) CHECK_M(std::abs(got - (t == 0)) < 1e-5, "it is " << got);
}
