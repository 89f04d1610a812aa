// C21: stringification shows exactly the runtime values.
// (The text is made by the library from a stand-in for Abseil, see lib/shim/absl.)
#include "shapes.h"
#include "absl/absl.h"
#include "absl/strings/str_cat.h"
using namespace nd;
using std::string;
using std::to_string;

namespace {

constexpr i64 D = nda::dynamic;

using intervals = types<shape<dim<>>, shape<dim<3>>, shape<dim<-4>>, shape<dim<0>>, shape<dim<D, 0>>, shape<dim<D, 5>>, shape<dim<-5, 12>>,
    shape<dim<7, 1>>, shape<dim<-20, 3>>>;
using dims = types<shape<dim<>>, shape<dim<3>>, shape<dim<-4>>, shape<dim<D, 0>>, shape<dim<D, 5>>, shape<dim<-5, 12>>, shape<dim<-1, 2, 3>>,
    shape<dim<D, D, 0>>, shape<dim<D, D, 1>>, shape<dim<D, D, -2>>, shape<dim<4, D, -7>>, shape<dim<D, 3, 100>>, shape<nda::dense_dim<>>,
    shape<nda::strided_dim<3>>, shape<nda::broadcast_dim<>>>;

i64 value(Src& s) {
  switch (s.pick(4)) {
  case 0: return s.around(15);
  case 1: return s.around(2000);
  case 2: return s.around(i64(1) << 30) / 2;
  default: return sizeof(index_t) == 8 ? s.around(i64(1) << 60) : s.around(i64(1) << 29);
  }
}

// The values of the text, and the text with the values replaced by #.
string scan(const string& t, std::vector<string>& values) {
  string r;
  for (size_t i = 0; i < t.size();) {
    if (isdigit(t[i]) || (t[i] == '-' && i + 1 < t.size() && isdigit(t[i + 1]))) {
      size_t b = i++;
      while (i < t.size() && isdigit(t[i])) i++;
      values.push_back(t.substr(b, i - b));
      r += '#';
    } else {
      r += t[i++];
    }
  }
  return r;
}

string text_of(const MD& d) {
  string r = "dim(" + to_string(d.min) + ", " + to_string(d.ext);
  if (d.str != UNRES) r += ", " + to_string(d.str);
  return r + ")";
}
string text_of(const MS& m) {
  string r = "shape<" + to_string(m.size()) + ">(";
  for (size_t i = 0; i < m.size(); i++) r += (i ? ", " : "") + text_of(m[i]);
  return r + ")";
}

// Each way of making text of x must give `expected`.
template <class T>
void all_ways(const T& x, const string& expected) {
  CHECK_EQ(absl::StrFormat("%v", x), expected);
  CHECK_EQ(absl::StrCat(x), expected);
  CHECK_EQ(absl::StrFormat("<%v|%d|%v>", x, 7, x), "<" + expected + "|7|" + expected + ">");
  std::vector<T> v = {x, x};
  CHECK_EQ(absl::StrJoin(v, "; "), expected + "; " + expected);
  CHECK_EQ(absl::StrJoin(std::make_tuple(x, 1, x), "; "), expected + "; 1; " + expected);
  string s = "-";
  absl::StrAppend(&s, x);
  CHECK_EQ(s, "-" + expected);
}

}  // namespace

PROP_T(interval_text, 1.0, intervals) {
  using I = nda::interval<dim_t<Shape, 0>::Min, dim_t<Shape, 0>::Extent>;
  const i64 mn = I::Min != D ? (i64)I::Min : value(s), ex = I::Extent != D ? (i64)I::Extent : value(s);
  I x((index_t)mn, (index_t)ex);
  NOTE(c, "interval of min " << mn << " and extent " << ex);
  c.nontrivial = ex != 1 && mn != 0;
  all_ways(x, "[" + to_string(mn) + ", " + to_string(mn + ex) + ")");
  // Changed afterwards.
  if (I::Min == D && s.chance(1, 2)) {
    const i64 m2 = value(s);
    x.set_min((index_t)m2);
    all_ways(x, "[" + to_string(m2) + ", " + to_string(m2 + ex) + ")");
  }
}

PROP_T(dim_text, 1.0, dims) {
  using Dim = dim_t<Shape, 0>;
  const SD sd = static_dim<Dim>();
  MD m;
  m.min = sd.smin ? sd.min : value(s);
  m.ext = sd.sext ? sd.ext : value(s);
  m.str = sd.sstr ? sd.str : s.chance(1, 4) ? UNRES : value(s);
  if (m.str == D) m.str = 9;
  NOTE(c, "dim " << m);
  c.nontrivial = m.ext != 1 && m.min != 0;
  Dim x = make_dim<Dim>(m);
  all_ways(x, text_of(m));
  if (!sd.sstr && m.str == UNRES) {
    m.str = s.around(50) == D ? 3 : s.around(50);
    if (m.str == D) m.str = 4;
    x.set_stride((index_t)m.str);
    all_ways(x, text_of(m));
  }
  // Reading it back.
  std::vector<string> v;
  string form = scan(absl::StrFormat("%v", x), v);
  if (m.str == UNRES) {
    CHECK_EQ(form, "dim(#, #)");
  } else {
    CHECK_EQ(form, "dim(#, #, #)");
    CHECK_EQ(v.back(), to_string(m.str));
  }
}

template <class Shape>
static void shape_text(Src& s, Ctx& c) {
  std::vector<SD> sd = statics<Shape>();
  MS m;
  for (const SD& d : sd) {
    MD x;
    x.min = d.smin ? d.min : value(s);
    x.ext = d.sext ? d.ext : value(s);
    x.str = d.sstr ? d.str : s.chance(1, 4) ? UNRES : value(s);
    if (x.str == D) x.str = -8;
    m.push_back(x);
  }
  NOTE(c, "shape " << str(m));
  c.nontrivial = m.size() > 1;
  Shape x = make<Shape>(m);
  all_ways(x, text_of(m));
  std::vector<string> v;
  scan(absl::StrCat(x), v);
  size_t k = 0;
  CHECK(k < v.size());
  CHECK_EQ(v[k++], to_string(m.size()));
  for (const MD& d : m) {
    CHECK_EQ(v[k++], to_string(d.min));
    CHECK_EQ(v[k++], to_string(d.ext));
    if (d.str != UNRES) CHECK_EQ(v[k++], to_string(d.str));
  }
  CHECK_IEQ(v.size(), k);
}

PROP_T(shape_text_low, 1.0, shapes_low) { shape_text<Shape>(s, c); }
PROP_T(shape_text_high, 0.5, shapes_high) { shape_text<Shape>(s, c); }

// The text of a shape does not depend on what is static.
PROP(static_or_dynamic, 0.5) {
  MS m = {{-5, 12, 3}, {0, 4, 36}, {7, 1, UNRES}};
  m[2].str = s.chance(1, 2) ? UNRES : s.range(1, 100);
  m[1].ext = s.range(0, 100);
  m[2].min = s.around(100);
  NOTE(c, "shape " << str(m));
  c.nontrivial = true;
  using A = nda::shape<dim<>, dim<>, dim<>>;
  using B = nda::shape<dim<-5, 12, 3>, dim<0, D, 36>, dim<D, 1>>;
  using C = nda::shape<dim<D, 12>, dim<D, D, 36>, dim<>>;
  const string t = absl::StrCat(make<A>(m));
  CHECK_EQ(absl::StrCat(make<B>(m)), t);
  CHECK_EQ(absl::StrCat(make<C>(m)), t);
}
