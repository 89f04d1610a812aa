// C20: ill-formed uses are rejected at compile time and well-formed ones accepted.
//
// A case is a generated program of many statements, one per line. The compiler (clang, only
// semantic analysis) must report an error for exactly the statements that must be rejected.
#include <sys/file.h>
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;

namespace {

using std::string;
using std::to_string;

string sh(const string& cmd, int* status) {
  string out;
  FILE* f = popen((cmd + " 2>&1").c_str(), "r");
  CHECK(f);
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
  int st = pclose(f);
  *status = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
  return out;
}


const string kFlags = "-w -I" VERIF_INCLUDE " -I" VERIF_LIB " ";

struct Stmt {
  string code;
  bool ok;
};

// Compiles the statements in a standard of C++, and returns which of them have errors.
std::vector<string> compile(const std::vector<Stmt>& stmts, const string& standard) {
  const string flags = "-std=c++" + standard + " " + kFlags;
  static string base;
  if (base.empty()) {
    base = pbt::scratch_dir() + "/c20-" + to_string(getpid());
  }
  // The precompiled prelude is made by the first process that needs it.
  const string pch = pbt::scratch_dir() + "/prelude20-" + standard + ".pch";
  {
    int fd = open((pch + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
    flock(fd, LOCK_EX);
    if (access(pch.c_str(), R_OK)) {
      int st;
      string out = sh("clang++ " + flags + "-x c++-header " VERIF_LIB "/prelude20.h -o " + pch + ".tmp", &st);
      CHECK_M(st == 0, "the headers do not compile: " << out.substr(0, 2000));
      rename((pch + ".tmp").c_str(), pch.c_str());
    }
    close(fd);
  }
  const string src = base + ".cpp";
  {
    FILE* f = fopen(src.c_str(), "w");
    CHECK(f);
    for (size_t i = 0; i < stmts.size(); i++) fprintf(f, "void f%zu() { %s }\n", i, stmts[i].code.c_str());
    fclose(f);
  }
  int st;
  string out = sh("clang++ " + flags + "-include-pch " + pch +
                      " -fsyntax-only -ferror-limit=0 -fno-caret-diagnostics -ftemplate-backtrace-limit=0 -fno-color-diagnostics " + src,
      &st);
  std::vector<string> errors(stmts.size());
  // Each error belongs to the first line of the program that it or its notes name.
  string current;
  bool open_error = false;
  std::istringstream is(out);
  string line;
  auto stmt_of = [&](const string& l) -> long {
    size_t p = l.find(src + ":");
    if (p != 0) return -1;
    return strtol(l.c_str() + src.size() + 1, nullptr, 10) - 1;
  };
  while (std::getline(is, line)) {
    if (line.find("In file included from") == 0) continue;
    if (line.find(": error:") != string::npos || line.find(": fatal error:") != string::npos) {
      // (An error in the same instantiation as the one before has no notes.)
      current = line;
      open_error = true;
    }
    if (!open_error) continue;
    long k = stmt_of(line);
    if (k >= 0 && k < (long)stmts.size()) {
      if (errors[k].empty()) errors[k] = current;
      open_error = false;
    }
  }
  bool any = false;
  for (const string& e : errors) any = any || !e.empty();
  CHECK_M((st != 0) == any, "the compiler ended with status " << st << ": " << out.substr(0, 1000));
  return errors;
}

// ---- the pieces of statements
struct Gen {
  Src& s;
  int k = 0;  // number of the statement
  string K() { return to_string(k); }
  string elem() { return "E<" + K() + ">"; }
  // A shape type of rank r that is used by this statement only.
  string shape(int r, int salt = 0) {
    string t = "nda::shape<";
    for (int d = 0; d < r; d++) {
      if (d) t += ", ";
      if (d == 0) {
        t += "dim<" + to_string(1000 + 10 * k + salt) + ">";
      } else {
        switch (s.pick(4)) {
        case 0: t += "dim<>"; break;
        case 1: t += "dim<dynamic, " + to_string(s.range(1, 4)) + ">"; break;
        case 2: t += "dim<dynamic, dynamic, " + to_string(s.range(1, 3) * 10) + ">"; break;
        default: t += "dim<2>";
        }
      }
    }
    return t + ">";
  }
  // A shape that is compatible with any of the same rank, used by this statement only.
  string dyn_shape(int r) {
    string t = "nda::shape<";
    for (int d = 0; d < r; d++) t += string(d ? ", " : "") + (d == 0 ? "dim<" + to_string(1000 + 10 * k) + ">" : "dim<>");
    return t + ">";
  }
};

enum Kind { kArray, kConstArray, kRef, kConstRef, kShape };
string array_of(const string& elem, const string& shape) {
  // An allocator that depends on the statement.
  uint64_t h = 5;
  for (char c : elem + shape) h = pbt::mix(h ^ (unsigned char)c);
  switch (h % 6) {
  case 0:
    if (elem[0] != 'E') return "array<" + elem + ", " + shape + ", uninitialized_std_allocator<" + elem + ">>";
    return "array<" + elem + ", " + shape + ", std::allocator<" + elem + ">>";
  case 1: return "array<" + elem + ", " + shape + ", auto_allocator<" + elem + ", 8>>";
  case 2: return "array<" + elem + ", " + shape + ", Alloc<" + elem + ">>";
  default: return "array<" + elem + ", " + shape + ">";
  }
}
string object(Kind k, const string& elem, const string& shape) {
  switch (k) {
  case kArray: return "lv<" + array_of(elem, shape) + ">()";
  case kConstArray: return "lv<const " + array_of(elem, shape) + ">()";
  case kRef: return "lv<const array_ref<" + elem + ", " + shape + ">>()";
  case kConstRef: return "lv<const array_ref<const " + elem + ", " + shape + ">>()";
  default: return "lv<const " + shape + ">()";
  }
}
bool is_const(Kind k) { return k == kConstArray || k == kConstRef; }

string list(const std::vector<int>& v) {
  string r;
  for (int x : v) r += (r.empty() ? "" : ", ") + to_string(x);
  return r;
}

// A number of arguments that is usually n.
int gen_count(Src& s, int n, int max) {
  if (s.chance(2, 3)) return n;
  return (int)s.range(0, max);
}

using Maker = Stmt (*)(Gen&);

// x(args), x[tuple], s.is_in_range(...)
Stmt access(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(5);
  int r = (int)s.range(0, 5), n = gen_count(s, r, 6);
  string args;
  int slices = 0;
  bool bad = false;
  const bool slicing = s.chance(1, 2);
  for (int i = 0; i < n; i++) {
    const char* idx[] = {"1", "index_t(2)", "(short)1", "size_t(3)", "(unsigned char)1"};
    const char* slice[] = {"_", "interval<>(0, 2)", "fixed_interval<2>(1)", "interval<0, 2>()", "dim<>(0, 2)", "range(0, 2)", "r(0, 2)", "all"};
    const char* wrong[] = {"\"x\"", "nullptr", "std::string()", "lv<int*>()", "Alien<0>()"};
    string a;
    if (s.chance(1, 20)) {
      a = wrong[s.pick(5)];
      bad = true;
    } else if (slicing && s.chance(1, 2)) {
      a = slice[s.pick(8)];
      slices++;
    } else {
      a = idx[s.pick(5)];
    }
    args += (i ? ", " : "") + a;
  }
  const int form = (int)s.pick(k == kShape ? 3 : 2);
  const string o = object(k, g.elem(), g.shape(r));
  string e = form == 0 ? o + "(" + args + ")" : form == 1 ? o + "[std::make_tuple(" + args + ")]" : o + ".is_in_range(" + args + ")";
  bool ok = n == r && !bad;
  if (form == 2) return {"bool b = " + e + "; (void)b;", ok};
  if (slices == 0) {
    if (k == kShape) return {"same<decltype(" + e + "), index_t>(); (void)" + e + ";", ok};
    return {"same<decltype(" + e + "), " + (is_const(k) ? "const " : "") + g.elem() + "&>(); (void)" + e + ";", ok};
  }
  string st = "auto res = " + e + "; rank_is<decltype(res), " + to_string(slices) + ">();";
  if (k != kShape) st += " same<decltype(res.base()), " + string(is_const(k) ? "const " : "") + g.elem() + "*>();";
  return {st, ok};
}

Stmt named_dims(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(5);
  int r = (int)s.range(1, 4);
  const string o = object(k, g.elem(), g.shape(r));
  if (s.chance(1, 2)) {
    int d = (int)s.range(0, 5);
    const string e = (k == kShape ? o : o + ".shape()") + ".template dim<" + to_string(d) + ">()";
    return {"auto d = " + e + "; (void)d;", d < r};
  }
  const char* names[] = {"x", "y", "z", "w", "i", "j", "k", "c", "width", "height", "channels", "rows", "columns"};
  const int at[] = {0, 1, 2, 3, 0, 1, 2, 2, 0, 1, 2, 0, 1};
  size_t n = s.pick(13);
  return {"auto d = " + o + "." + names[n] + "(); (void)d;", at[n] < r};
}

// Conversions of static parameters.
string param(Src& s, int* v) {
  const int vals[] = {-9, 0, 1, 2, 5};
  *v = vals[s.pick(5)];
  return *v == -9 ? "dynamic" : to_string(*v);
}
bool fits(int a, int b) { return a == -9 || b == -9 || a == b; }
Stmt static_params(Gen& g) {
  Src& s = g.s;
  int a[3], b[3];
  string pa[3], pb[3];
  for (int i = 0; i < 3; i++) {
    pa[i] = param(s, &a[i]);
    pb[i] = param(s, &b[i]);
    // Mostly few conflicts.
    if (s.chance(1, 2)) pb[i] = pa[i], b[i] = a[i];
  }
  // (A dim does not become an interval.)
  bool to_dim = s.chance(2, 3), from_dim = to_dim && s.chance(2, 3);
  bool ok = fits(a[0], b[0]) && fits(a[1], b[1]);
  string ta, tb;
  if (to_dim) ta = "dim<" + pa[0] + ", " + pa[1] + ", " + pa[2] + ">"; else ta = "interval<" + pa[0] + ", " + pa[1] + ">";
  if (from_dim) tb = "dim<" + pb[0] + ", " + pb[1] + ", " + pb[2] + ">"; else tb = "interval<" + pb[0] + ", " + pb[1] + ">";
  if (to_dim && from_dim) ok = ok && fits(a[2], b[2]);
  switch (s.pick(to_dim && !from_dim ? 1 : 3)) {
  case 0: return {ta + " x(lv<const " + tb + ">());", ok};
  case 1: return {ta + " x = lv<const " + tb + ">();", ok};
  default: return {ta + " x; x = lv<const " + tb + ">();", ok};
  }
}

// Shapes of different ranks.
Stmt shape_ranks(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 4), q = s.chance(1, 2) ? r : (int)s.range(1, 4);
  const string a = g.shape(r), b = g.dyn_shape(q), o = "lv<const " + b + ">()";
  switch (s.pick(5)) {
  case 0: return {a + " x(" + o + ");", r == q};
  case 1: return {a + " x; x = " + o + ";", r == q};
  case 2: return {"bool x = lv<const " + a + ">() == " + o + "; (void)x;", r == q};
  case 3: return {"bool x = lv<const " + a + ">() != " + o + "; (void)x;", r == q};
  default: {
    int n = gen_count(s, r, 5);
    string args;
    for (int i = 0; i < n; i++) args += string(i ? ", " : "") + (i == 0 ? "dim<>(0, 2)" : s.chance(1, 2) ? "3" : "interval<>(0, 3)");
    // (The first dim of `a` has a static min: use a type without.)
    return {"nda::shape_of_rank<" + to_string(r) + "> x{" + args + "};", n == r || n == 0};
  }
  }
}

std::vector<int> gen_dims(Src& s, int n) {
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(i);
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.pick(i)]);
  switch (s.weighted({5, 4, 2, 2})) {
  case 0: break;
  case 1:  // change some
    if (n > 0) for (int m = (int)s.range(1, 3); m > 0; m--) v[s.pick(n)] = (int)s.range(0, n);
    break;
  case 2:  // keep the sum
    if (n > 1) {
      size_t i = s.pick(n), j = s.pick(n);
      if (v[i] > 0) v[i]--, v[j]++;
    }
    break;
  default:  // anything
    for (int& x : v) x = (int)s.range(0, n);
  }
  return v;
}
bool permutation(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] != (int)i) return false;
  }
  return true;
}
Stmt transposes(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(5);
  int r = (int)s.range(1, 6), n = s.chance(4, 5) ? r : (int)s.range(1, 6);
  std::vector<int> v = gen_dims(s, n);
  // Shapes: the dims after the permuted ones stay.
  bool ok = permutation(v) && (k == kShape ? n <= r : n == r);
  return {"auto t = transpose<" + list(v) + ">(" + object(k, g.elem(), g.shape(r)) + "); rank_is<decltype(t), " + to_string(r) + ">();", ok};
}
Stmt reorders(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(5);
  int r = (int)s.range(1, 5), n = (int)s.range(1, 5);
  std::vector<int> v;
  bool ok = true;
  for (int i = 0; i < n; i++) {
    v.push_back((int)s.range(0, s.chance(1, 8) ? 6 : r - 1));
    ok = ok && v.back() < r;
  }
  return {"auto t = reorder<" + list(v) + ">(" + object(k, g.elem(), g.shape(r)) + "); rank_is<decltype(t), " + to_string(n) + ">();", ok};
}

Stmt copies(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 4), q = s.chance(2, 3) ? r : (int)s.range(1, 4);
  Kind a = (Kind)s.pick(4), b = (Kind)s.pick(4);
  const string src = object(a, g.elem(), g.dyn_shape(r)), dst = object(b, g.elem(), g.dyn_shape(q));
  const string osh = "lv<const " + g.dyn_shape(q) + ">()";
  switch (s.pick(5)) {
  case 0: return {"nda::copy(" + src + ", " + dst + ");", r == q && !is_const(b)};
  case 1: return {"nda::move(" + src + ", " + dst + ");", r == q && !is_const(b) && a != kConstArray};
  case 2: return {"auto x = make_copy(" + src + ", " + osh + "); rank_is<decltype(x), " + to_string(q) + ">();", r == q};
  case 3:
    if (a == kConstRef) a = kRef;
    return {"auto x = make_move(" + object(a, g.elem(), g.dyn_shape(r)) + ", " + osh + ");", r == q && !is_const(a)};
  default: return {"bool x = equal(" + src + ", " + dst + "); (void)x;", r == q};
  }
}

// Functions of all the indices, and crops and channels of images.
Stmt transforms(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(4);
  int r = (int)s.range(1, 4), n = gen_count(s, r, 5);
  const string o = object(k, g.elem(), g.shape(r));
  string params;
  for (int i = 0; i < n; i++) params += i ? ", index_t" : "index_t";
  switch (s.pick(4)) {
  case 0: return {"transform_indices(" + o + ", [](" + params + ") { return " + g.elem() + "(1); });", n == r && !is_const(k)};
  case 1: return {"transform_index(" + o + ", [](const index_of_rank<" + to_string(n) + ">&) { return " + g.elem() + "(1); });", n == r && !is_const(k)};
  case 2: {
    const string im = object(k, g.elem(), g.dyn_shape(3));
    return {"auto x = crop(" + im + ", 0, 0, 2, 2" + (s.chance(1, 2) ? ", crop_origin::zero" : "") + "); same<decltype(x.base()), " + (is_const(k) ? "const " : "") + g.elem() + "*>(); rank_is<decltype(x), 3>();", true};
  }
  default: {
    const string im = object(k, g.elem(), g.dyn_shape(3));
    return {"auto x = slice_channel(" + im + ", 0); same<decltype(x.base()), " + (is_const(k) ? "const " : "") + g.elem() + "*>(); rank_is<decltype(x), 2>();", true};
  }
  }
}

// Members of arrays, and functions of two arrays of one type.
Stmt members(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 4);
  const string type = array_of(g.elem(), g.dyn_shape(r));
  string alloc = "lv<typename " + type + "::allocator_type>()";
  auto a = [&](bool c) { return string(c ? "lv<const " : "lv<") + type + ">()"; };
  bool c = s.chance(1, 4);
  const string sh = "lv<const " + g.dyn_shape(r) + ">()";
  switch (s.pick(17)) {
  case 0: return {type + " x(" + a(c) + "); x = " + a(s.chance(1, 2)) + ";", true};
  case 1: return {type + " x(rv<" + type + ">()); x = rv<" + type + ">();", true};
  case 2: return {"swap(" + a(c) + ", " + a(false) + ");", !c};
  case 3: return {a(c) + ".swap(" + a(false) + ");", !c};
  case 4: return {"bool x = " + a(c) + " == " + a(!c) + "; x = " + a(c) + " != " + a(c) + "; (void)x;", true};
  case 5: return {a(c) + ".reshape(" + sh + ");", !c};
  case 6: return {a(c) + ".assign(" + sh + ", " + g.elem() + "(1));", !c};
  case 7: return {a(c) + ".clear();", !c};
  case 8: {
    // (elements must be trivial)
    const bool trivial = s.chance(1, 2);
    const string t = trivial ? array_of("long long", g.dyn_shape(r)) : type;
    return {string(c ? "lv<const " : "lv<") + t + ">().set_shape(" + sh + ");", !c && trivial};
  }
  case 9: return {"auto x = make_copy(" + a(c) + ", " + alloc + "); same<decltype(x), " + type + ">();", true};
  case 10: return {"auto x = make_copy(" + a(c) + ", " + sh + ", " + alloc + "); same<decltype(x), " + type + ">();", true};
  case 11: return {"auto x = make_compact_copy(" + a(c) + "); rank_is<decltype(x), " + to_string(r) + ">();", true};
  case 12: return {"auto x = make_move(rv<" + type + ">(), " + sh + "); rank_is<decltype(x), " + to_string(r) + ">();", true};
  case 13: return {"auto x = make_move(" + a(c) + ", " + sh + ", " + alloc + "); same<decltype(x), " + type + ">();", !c};
  case 14: {
    // (elements must be trivial)
    const bool trivial = s.chance(1, 2);
    const string t = trivial ? array_of("long long", g.dyn_shape(r)) : type;
    return {"auto x = move_reinterpret_shape(" + string(c ? "lv<" : "rv<") + t + ">(), " + sh + ");", !c && trivial};
  }
  case 15: return {"array_ref<" + string(c ? "const " : "") + g.elem() + ", " + g.dyn_shape(r) + "> x = " + a(c) + ".ref(); x = " + a(false) + ".ref();", true};
  default: return {type + " x(" + sh + ", " + g.elem() + "(2), " + alloc + ");", true};
  }
}

Stmt ref_conversions(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 3), q = s.chance(3, 4) ? r : (int)s.range(1, 4);
  Kind k = (Kind)s.pick(4);
  bool to_const = s.chance(1, 2), alien = s.chance(1, 6);
  const string sh = g.dyn_shape(r), target = s.chance(1, 2) ? sh : "nda::shape_of_rank<" + to_string(q) + ">";
  bool rank_ok = target == sh || r == q;
  // From a ref, to a ref with another shape or to a const ref.
  const string t = "array_ref<" + string(to_const ? "const " : "") + (alien ? "Alien<" + g.K() + ">" : g.elem()) + ", " + target + ">";
  const string o = object(k, g.elem(), sh);
  // One implicit conversion at most: an array becomes a ref of its own shape, and const is added
  // without changing the shape.
  bool same_shape = target == sh;
  bool ok = !alien && rank_ok && (to_const || !is_const(k));
  if (!same_shape) {
    if (k == kArray || k == kConstArray) return {t + " x(" + o + ".ref());", ok && (to_const == is_const(k))};
    if (to_const != is_const(k)) return {t + " x(" + o + ".cref());", !alien && rank_ok && to_const};
  }
  if (s.chance(1, 2)) return {t + " x(" + o + ");", ok};
  return {t + " x = " + o + ";", ok};
}

string ein_assign(Src& s) {
  const char* ops[] = {"+=", "=", "-=", "*="};
  return ops[s.pick(4)];
}

Stmt const_writes(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(4);
  int r = (int)s.range(1, 3);
  const string o = object(k, g.elem(), g.dyn_shape(r));
  string zeros, slices;
  for (int i = 0; i < r; i++) {
    zeros += i ? ", 0" : "0";
    slices += i ? ", _" : "_";
  }
  bool ok = !is_const(k);
  const string T = g.elem();
  switch (s.pick(16)) {
  case 0: return {o + "(" + zeros + ") = " + T + "(1);", ok};
  case 1: return {o + "[std::make_tuple(" + zeros + ")] = " + T + "(1);", ok};
  case 2: return {o + "(" + slices + ")(" + zeros + ") = " + T + "(1);", ok};
  case 3: return {o + ".for_each_value([](" + T + "& v) { v = " + T + "(1); });", ok};
  case 4: return {o + ".for_each_value([](const " + T + "& v) { (void)v; });", true};
  case 5: return {o + ".for_each_value([](" + T + " v) { (void)v; });", true};
  case 6: return {"fill(" + o + ", " + T + "(1));", ok};
  case 7: return {"generate(" + o + ", []() { return " + T + "(1); });", ok};
  case 8: return {T + "* p = " + o + ".base(); (void)p;", ok};
  case 9: return {"const " + T + "* p = " + o + ".data(); (void)p;", true};
  case 10: return {T + "* p = " + o + ".data(); (void)p;", ok};
  case 11: return {o + "[std::make_tuple(" + slices + ")](" + zeros + ") = " + T + "(1);", ok};
  case 12: return {o + ".for_each_value([](Alien<" + g.K() + ">& v) {});", false};
  case 13: return {o + ".for_each_value([](" + T + "& a, " + T + "& b) {});", false};
  case 14: return {"ein_reduce(ein<" + string(r == 1 ? "0" : r == 2 ? "0, 1" : "0, 1, 2") + ">(" + o + ") " + ein_assign(s) + " ein(lv<" + T + ">()));", ok};
  default: return {T + "& v = *begin(" + o + ".x()) + " + o + "(" + zeros + ");", false};
  }
}

Stmt loops(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 4), n = gen_count(s, r, 5);
  const string o = "lv<const " + g.shape(r) + ">()";
  string params;
  for (int i = 0; i < n; i++) params += i ? ", index_t" : "index_t";
  string order;
  if (s.chance(1, 2)) {
    std::vector<int> v;
    for (int i = 0; i < r; i++) v.push_back(i);
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.pick(i)]);
    order = list(v);
  }
  if (s.chance(1, 2)) {
    return {"for_all_indices" + (order.empty() ? "" : "<" + order + ">") + "(" + o + ", [](" + params + ") {});", n == r};
  }
  return {"for_each_index" + (order.empty() ? "" : "<" + order + ">") + "(" + o + ", [](const index_of_rank<" + to_string(n) + ">&) {});", n == r};
}

Stmt eins(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(4);
  if (s.chance(1, 10)) {
    // An operand of rank 0, or a scalar.
    int n = (int)s.range(0, 1);
    const string x = s.chance(1, 3) ? "lv<" + g.elem() + ">()" : object(k, g.elem(), "nda::shape<>");
    if (n == 0) return {"auto e = ein" + string(s.chance(1, 2) ? "<>" : "") + "(" + x + ") * ein<0>(lv<array<" + g.elem() + ", " + g.shape(1) + ">>()); (void)e;", true};
    return {"auto e = ein<0>(" + x + "); (void)e;", false};
  }
  int r = (int)s.range(1, 4), n = gen_count(s, r, 5);
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back((int)s.range(0, 4));
  const string o = object(k, g.elem(), g.shape(r));
  const string e = "ein<" + list(v) + ">(" + o + ")";
  if (n == 0) return {"auto e = ein<" + list({0}) + ">(" + o + "); (void)e;", r == 1};
  bool fit = n == r;
  if (s.chance(1, 4)) {
    // Operands of the same type on both sides.
    if (r == n && s.chance(1, 6)) {
      const string x = s.chance(1, 2) ? "lv<" + g.elem() + ">()" : object(k = kArray, g.elem(), "nda::shape<>");
      return {"ein_reduce(ein<>(" + x + ") " + ein_assign(s) + " ein<>(" + x + "));", true};
    }
    const string x = "ein<" + list(v) + ">(" + object(k, g.elem(), g.dyn_shape(r)) + ")";
    return {"ein_reduce(" + x + " " + ein_assign(s) + " " + (s.chance(1, 4) ? "-" : "") + x + ");", fit && !is_const(k)};
  }
  switch (s.pick(8)) {
  case 0: return {"auto e = " + e + " + 2;", false};
  case 1: return {"auto e = 2 * " + e + ";", false};
  case 2: return {"ein_reduce(" + e + ");", false};
  case 3: return {"ein_reduce(" + e + " * " + e + ");", false};
  case 4: {
    int m = gen_count(s, 2, 4);
    string p;
    for (int i = 0; i < m; i++) p += i ? ", index_t" : "index_t";
    return {"auto e = ein<0, 1>([](" + p + ") { return 1; }); (void)e;", m == 2};
  }
  case 5: return {"auto e = -" + e + " / " + e + "; (void)e;", fit};
  default: return {"auto e = " + e + "; (void)e;", fit};
  }
}

// Static bounds of the operands that are addressed by the same index must agree.
Stmt ein_bounds(Gen& g) {
  Src& s = g.s;
  int a, b, c;
  auto ext = [&](int* v) {
    const int vals[] = {-9, 3, 4};
    *v = vals[s.pick(3)];
    return *v == -9 ? string("dynamic") : to_string(*v);
  };
  // (A min for each statement: the compiler does not report an error in the same template again.)
  const string lo = to_string(1000 + g.k);
  auto vec = [&](const string& e) { return "lv<array<" + g.elem() + ", nda::shape<dim<" + lo + ", " + e + ">>>>()"; };
  auto mat = [&](const string& e, const string& f) { return "lv<const array<" + g.elem() + ", nda::shape<dim<" + lo + ", " + e + ">, dim<" + lo + ", " + f + ">>>>()"; };
  const string pa = ext(&a), pb = ext(&b), pc = ext(&c);
  // The first one that addresses an index is compared with the others.
  switch (s.pick(6)) {
  case 4: return {"ein_reduce(ein(lv<" + g.elem() + ">()) " + ein_assign(s) + " ein<0, 0>(" + mat(pa, pb) + "));", fits(a, b)};
  case 5: return {"ein_reduce(ein<0>(" + vec(pa) + ") " + ein_assign(s) + " ein<0, 0>(" + mat(pb, pc) + "));", fits(a, b) && fits(a, c)};
  case 0: return {"ein_reduce(ein<0>(" + vec(pa) + ") " + ein_assign(s) + " ein<0>(" + vec(pb) + "));", fits(a, b)};
  case 1: return {"ein_reduce(ein<0>(" + vec(pa) + ") " + ein_assign(s) + " ein<0, 1>(" + mat(pb, pc) + "));", fits(a, b)};
  case 2: return {"auto x = make_ein_sum<" + g.elem() + ", 0>(ein<0, 1>(" + mat(pa, pb) + ") * ein<1>(" + vec(pc) + ")); rank_is<decltype(x), 1>();", fits(b, c)};
  default: return {"auto x = make_ein_sum<" + g.elem() + ", 0, 2>(ein<0, 1>(" + mat(pa, pb) + ") * ein<1, 2>(" + mat(pc, pa) + ")); rank_is<decltype(x), 2>();", fits(b, c)};
  }
}

Stmt scalars(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(4);
  int r = (int)s.range(0, 2);
  const string o = object(k, g.elem(), r == 0 ? "nda::shape<>" : g.shape(r));
  return {g.elem() + " x = " + o + "; (void)x;", r == 0};
}

Stmt reinterprets(Gen& g) {
  Src& s = g.s;
  Kind k = (Kind)s.pick(4);
  const char* types[] = {"char", "short", "int", "float", "double", "unsigned char", "long long", "unsigned"};
  const int sizes[] = {1, 2, 4, 4, 8, 1, 8, 4};
  size_t a = s.pick(8), b = s.pick(8);
  const string sh = g.shape((int)s.range(1, 3));
  const string cst = is_const(k) ? "const " : "";
  switch (s.pick(3)) {
  case 0:
    return {"auto x = reinterpret<" + string(k == kConstRef ? "const " : "") + types[b] + ">(" + object(k, types[a], sh) + "); same<decltype(x.base()), " + cst + types[b] + "*>();", sizes[a] == sizes[b]};
  case 1: {
    // Removing const only.
    Kind c = kConstRef;
    return {"auto x = reinterpret_const<" + string(types[b]) + ">(" + object(c, types[a], sh) + "); same<decltype(x.base()), " + types[b] + "*>();", a == b};
  }
  default: return {"auto x = reinterpret_shape(" + object(k, types[a], g.dyn_shape(2)) + ", lv<const nda::shape_of_rank<3>>()); same<decltype(x.base()), " + cst + types[a] + "*>();", true};
  }
}

Stmt compatibility(Gen& g) {
  Src& s = g.s;
  int r = (int)s.range(1, 4), q = s.chance(1, 2) ? r : (int)s.range(1, 4);
  return {"bool b = is_compatible<" + g.dyn_shape(r) + ">(lv<const nda::shape_of_rank<" + to_string(q) + ">>()); (void)b;", r == q};
}

// Runs one program of n statements.
void run(Src& s, Ctx& c, const std::vector<Maker>& makers, size_t n) {
  std::vector<Stmt> stmts;
  Gen g{s};
  n = (size_t)s.range(1, (int64_t)n);
  for (size_t i = 0; i < n; i++) {
    g.k = (int)i;
    stmts.push_back(makers[s.pick(makers.size())](g));
  }
  size_t good = 0;
  for (const Stmt& t : stmts) good += t.ok;
  if (n <= 3) for (const Stmt& t : stmts) NOTE(c, (t.ok ? "accept: " : "reject: ") << t.code);
  NOTE(c, n << " statements, " << good << " well-formed; the first: " << stmts[0].code);
  c.nontrivial = good > 0 && good < n;
  static const char* const kStandards[] = {"14", "17", "20"};
  const string standard = kStandards[s.pick(3)];
  NOTE(c, "C++" << standard);
  std::vector<string> errors = compile(stmts, standard);
  string wrong;
  for (size_t i = 0; i < n; i++) {
    if (errors[i].empty() == stmts[i].ok) continue;
    wrong += (stmts[i].ok ? "a well-formed statement is rejected: " : "an ill-formed statement is accepted: ") + stmts[i].code + "\n" + errors[i] + "\n";
  }
  if (!wrong.empty()) FAIL_(wrong);
}

}  // namespace

PROP(accesses, 1.0) { run(s, c, {access, access, named_dims}, 60); }
PROP(static_parameters, 0.7) { run(s, c, {static_params, shape_ranks, compatibility}, 100); }
PROP(permutations, 1.0) { run(s, c, {transposes, transposes, transposes, reorders}, 80); }
PROP(algorithms, 1.0) { run(s, c, {copies, loops, ref_conversions, scalars}, 60); }
PROP(functions, 0.5) { run(s, c, {transforms, members}, 60); }
PROP(constness, 1.0) { run(s, c, {const_writes, const_writes, reinterprets}, 60); }
PROP(einsteins, 1.0) { run(s, c, {eins, ein_bounds}, 60); }
