// A small stand-in for the parts of Abseil's string formatting that absl/absl.h may use: the
// installed Abseil is too old to have AbslStringify. Follows the documented behaviour of
// absl::StrFormat, absl::Format, absl::StrCat, absl::StrAppend and absl::StrJoin.
#ifndef VERIF_SHIM_ABSL_H
#define VERIF_SHIM_ABSL_H

#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace absl {

using string_view = std::string_view;

// What a user's AbslStringify receives.
class StringifySink {
 public:
  void Append(size_t count, char ch) { text_.append(count, ch); }
  void Append(string_view v) { text_.append(v); }
  bool PutPaddedString(string_view v, int width, int precision, bool left) {
    std::string t(v.substr(0, precision < 0 ? v.size() : (size_t)precision));
    if (width > 0 && t.size() < (size_t)width) t.insert(left ? t.size() : 0, (size_t)width - t.size(), ' ');
    text_ += t;
    return true;
  }
  friend void AbslFormatFlush(StringifySink* sink, string_view v) { sink->Append(v); }
  const std::string& text() const { return text_; }

 private:
  std::string text_;
};
using FormatSink = StringifySink;
inline void AbslFormatFlush(std::string* out, string_view v) { out->append(v); }

namespace shim {

[[noreturn]] inline void die(const char* what, string_view fmt) {
  fprintf(stderr, "absl shim: %s in \"%.*s\"\n", what, (int)fmt.size(), fmt.data());
  abort();
}

template <class T, class = void>
struct has_stringify : std::false_type {};
template <class T>
struct has_stringify<T, decltype(AbslStringify(std::declval<StringifySink&>(), std::declval<const T&>()))> : std::true_type {};

enum Kind { kInt, kFloat, kText, kChar, kObject };
struct Arg {
  Kind kind;
  bool neg = false;
  unsigned long long mag = 0;
  double d = 0;
  std::string text;

  template <class T>
  static Arg of(const T& v) {
    Arg a;
    if constexpr (std::is_same<T, bool>::value) {
      a.kind = kInt, a.mag = v, a.text = v ? "true" : "false";
    } else if constexpr (std::is_same<T, char>::value) {
      a.kind = kChar, a.text = std::string(1, v);
    } else if constexpr (std::is_integral<T>::value) {
      a.kind = kInt, a.neg = v < 0;
      a.mag = a.neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
      a.text = (a.neg ? "-" : "") + std::to_string(a.mag);
    } else if constexpr (std::is_floating_point<T>::value) {
      char b[64];
      snprintf(b, sizeof b, "%g", (double)v);
      a.kind = kFloat, a.d = v, a.text = b;
    } else if constexpr (has_stringify<T>::value) {
      StringifySink sink;
      AbslStringify(sink, v);
      a.kind = kObject, a.text = sink.text();
    } else {
      a.kind = kText, a.text = std::string(string_view(v));
    }
    return a;
  }
};

inline std::string format(string_view fmt, const std::vector<Arg>& args) {
  std::string out;
  size_t next = 0;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') {
      out += fmt[i];
      continue;
    }
    if (++i == fmt.size()) die("unfinished conversion", fmt);
    if (fmt[i] == '%') {
      out += '%';
      continue;
    }
    std::string spec = "%";
    while (i < fmt.size() && std::string("-+ #0.123456789").find(fmt[i]) != std::string::npos) spec += fmt[i++];
    while (i < fmt.size() && std::string("hljztLq").find(fmt[i]) != std::string::npos) i++;  // ignored
    if (i == fmt.size()) die("unfinished conversion", fmt);
    if (next == args.size()) die("too few arguments", fmt);
    const Arg& a = args[next++];
    char c = fmt[i];
    char buf[256];
    if (c == 'v') c = a.kind == kInt && (a.text == "true" || a.text == "false") ? 's' : a.kind == kInt ? 'd' : a.kind == kFloat ? 'g' : 's';
    else if (c == 's' && !(a.kind == kText || a.kind == kObject)) die("%s of something else than text", fmt);
    switch (c) {
    case 'd':
    case 'i':
    case 'u':
      if (a.kind != kInt) die("not an integer", fmt);
      if (c == 'u' && a.neg) die("%u of a negative number", fmt);
      if (a.neg) snprintf(buf, sizeof buf, (spec + "lld").c_str(), (long long)(0ull - a.mag));
      else snprintf(buf, sizeof buf, (spec + (spec.find('+') != std::string::npos ? "lld" : "llu")).c_str(), a.mag);
      out += buf;
      break;
    case 'f': case 'e': case 'g':
      snprintf(buf, sizeof buf, (spec + c).c_str(), a.kind == kFloat ? a.d : (double)a.mag * (a.neg ? -1 : 1));
      out += buf;
      break;
    case 'c': out += a.text; break;
    case 's':
      if (spec == "%") out += a.text;
      else snprintf(buf, sizeof buf, (spec + "s").c_str(), a.text.c_str()), out += buf;
      break;
    default: die("unknown conversion", fmt);
    }
  }
  if (next != args.size()) die("too many arguments", fmt);
  return out;
}

}  // namespace shim

template <class... Args>
std::string StrFormat(string_view fmt, const Args&... args) {
  return shim::format(fmt, {shim::Arg::of(args)...});
}
template <class... Args>
std::string& StrAppendFormat(std::string* dst, string_view fmt, const Args&... args) {
  return *dst += shim::format(fmt, {shim::Arg::of(args)...});
}
// The sink is anything with AbslFormatFlush(sink*, string_view), found by ADL.
template <class Sink, class... Args>
bool Format(Sink* sink, string_view fmt, const Args&... args) {
  AbslFormatFlush(sink, shim::format(fmt, {shim::Arg::of(args)...}));
  return true;
}
template <class... Args>
std::string StrCat(const Args&... args) {
  std::string r;
  (void)std::initializer_list<int>{(r += shim::Arg::of(args).text, 0)...};
  return r;
}
template <class... Args>
void StrAppend(std::string* dst, const Args&... args) {
  *dst += StrCat(args...);
}

struct shim_alnum_formatter {
  template <class T>
  void operator()(std::string* out, const T& v) const { StrAppend(out, v); }
};
inline shim_alnum_formatter AlphaNumFormatter() { return {}; }

template <class It, class F>
std::string StrJoin(It b, It e, string_view sep, F&& f) {
  std::string r;
  for (It i = b; i != e; ++i) {
    if (i != b) r += sep;
    f(&r, *i);
  }
  return r;
}
template <class... T, class F>
std::string StrJoin(const std::tuple<T...>& t, string_view sep, F&& f) {
  std::string r;
  bool first = true;
  std::apply([&](const auto&... v) { (void)std::initializer_list<int>{((r += first ? string_view() : sep, first = false, f(&r, v)), 0)...}; }, t);
  return r;
}
template <class... T>
std::string StrJoin(const std::tuple<T...>& t, string_view sep) {
  return StrJoin(t, sep, AlphaNumFormatter());
}
template <class Range, class = decltype(std::begin(std::declval<const Range&>()))>
std::string StrJoin(const Range& v, string_view sep) {
  return StrJoin(std::begin(v), std::end(v), sep, AlphaNumFormatter());
}
template <class Range, class F, class = decltype(std::begin(std::declval<const Range&>())), class = void>
std::string StrJoin(const Range& v, string_view sep, F&& f) {
  return StrJoin(std::begin(v), std::end(v), sep, std::forward<F>(f));
}

}  // namespace absl

#endif
