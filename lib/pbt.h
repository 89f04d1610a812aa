// A small property-based testing library: choice tapes, forked workers, shrinking, replay.
//
// A property is a function `void prop(pbt::Src& s, pbt::Ctx& c)` that draws all of its
// randomness from `s` (a tape of bounded integers, 0 is always the simplest choice) and
// throws (CHECK...) or crashes (assert, sanitizer, signal) if the property is violated.
//
// The same functions are driven by a seeded PRNG (main below), or, with -DPBT_FUZZ, by
// libFuzzer (the input bytes are the tape).
#ifndef PBT_H
#define PBT_H

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Skip {};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull;
  return h;
}

// Shared with the parent process, so that the case survives a crash of the worker.
struct Slot {
  static constexpr size_t kMaxTape = 1 << 15;
  static constexpr size_t kText = 1 << 15;
  volatile uint64_t index;
  volatile uint64_t done;      // number of cases completed by this worker
  volatile uint32_t state;     // 0 running, 1 finished, 2 failed by exception
  volatile uint32_t tape_len;
  uint64_t tape[kMaxTape];
  volatile uint32_t msg_len, desc_len;
  char msg[kText];
  char desc[kText];
  char known[128];
};

// The source of all choices of a case.
class Src {
public:
  enum Mode { kRandom, kReplay, kBytes };
  Mode mode;
  uint64_t rng = 0;
  const std::vector<uint64_t>* in = nullptr;
  const uint8_t* bytes = nullptr;
  size_t nbytes = 0;
  size_t pos = 0;
  Slot* slot;

  explicit Src(Slot* slot, uint64_t seed) : mode(kRandom), rng(seed), slot(slot) {}
  Src(Slot* slot, const std::vector<uint64_t>* in) : mode(kReplay), in(in), slot(slot) {}
  Src(Slot* slot, const uint8_t* b, size_t n) : mode(kBytes), bytes(b), nbytes(n), slot(slot) {}

  // A choice in [0, n]. 0 is the simplest.
  uint64_t draw(uint64_t n) {
    uint64_t v = 0;
    if (n == 0) return 0;
    if (mode == kRandom) {
      rng += 0x9e3779b97f4a7c15ull;
      uint64_t x = mix(rng);
      v = n == UINT64_MAX ? x : (uint64_t)(((unsigned __int128)x * (n + 1)) >> 64);
    } else if (mode == kReplay) {
      v = pos < in->size() ? (*in)[pos] : 0;
      pos++;
      if (v > n) v %= n + 1;
    } else {
      for (uint64_t m = n; m; m >>= 8) {
        v = (v << 8) | (pos < nbytes ? bytes[pos] : 0);
        pos++;
      }
      if (n != UINT64_MAX) v %= n + 1;
    }
    if (slot->tape_len < Slot::kMaxTape) {
      slot->tape[slot->tape_len] = v;
      slot->tape_len = slot->tape_len + 1;
    }
    return v;
  }

  // An integer in [lo, hi], lo is the simplest.
  int64_t range(int64_t lo, int64_t hi) {
    return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo));
  }
  // An integer in [-m, m], the simplest are close to 0.
  int64_t around(int64_t m) {
    uint64_t z = draw(2 * (uint64_t)m);
    return z & 1 ? -(int64_t)((z + 1) / 2) : (int64_t)(z / 2);
  }
  // True with probability num/den. False is simplest.
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }
  // An index chosen with the given weights. 0 is simplest.
  size_t weighted(std::initializer_list<int> w) {
    int sum = 0;
    for (int i : w) sum += i;
    int64_t x = (int64_t)draw(sum - 1);
    size_t i = 0;
    for (int k : w) {
      if (x < k) return i;
      x -= k;
      i++;
    }
    return 0;
  }
  size_t pick(size_t n) { return (size_t)draw(n - 1); }
};

class Ctx {
public:
  Slot* slot;
  bool verbose = false;
  bool nontrivial = false;
  std::map<std::string, uint64_t>* classes = nullptr;

  void cls(const char* label) {
    if (classes) (*classes)[label]++;
  }
  void cls(bool b, const char* label) {
    if (b) cls(label);
  }
  // Mark that a failure after this point is the known finding `key`.
  void known(const char* key) {
#ifdef PBT_FUZZ
    throw Skip();  // (it would end the search)
#endif
    strncpy(slot->known, key, sizeof(slot->known) - 1);
    if (classes) (*classes)[std::string("known-finding domain: ") + key]++;
  }
  void note(const std::string& s) {
    if (!verbose) return;
    uint32_t n = slot->desc_len;
    size_t k = std::min(s.size(), Slot::kText - 2 - (size_t)n);
    memcpy(slot->desc + n, s.data(), k);
    slot->desc[n + k] = '\n';
    slot->desc_len = n + k + 1;
  }
};

#define NOTE(c, expr)                                                                              \
  do {                                                                                             \
    if ((c).verbose) {                                                                             \
      std::ostringstream note_os;                                                                  \
      note_os << expr;                                                                             \
      (c).note(note_os.str());                                                                     \
    }                                                                                              \
  } while (0)

template <class S>
[[noreturn]] __attribute__((noinline)) void fail(const char* file, int line, const S& s) {
  std::ostringstream os;
  const char* b = strrchr(file, '/');
  os << (b ? b + 1 : file) << ":" << line << ": " << s;
  throw Failure{os.str()};
}

#define FAIL_(expr)                                                                                \
  do {                                                                                             \
    std::ostringstream fail_os;                                                                    \
    fail_os << expr;                                                                               \
    pbt::fail(__FILE__, __LINE__, fail_os.str());                                                  \
  } while (0)
#define CHECK(cond)                                                                                \
  do {                                                                                             \
    if (!(cond)) pbt::fail(__FILE__, __LINE__, "CHECK failed: " #cond);                            \
  } while (0)
#define CHECK_M(cond, expr)                                                                        \
  do {                                                                                             \
    if (!(cond)) FAIL_("CHECK failed: " #cond ": " << expr);                                       \
  } while (0)

template <class A, class B>
[[noreturn]] __attribute__((noinline)) void fail_eq(
    const char* file, int line, const char* what, const A& a, const B& b) {
  std::ostringstream os;
  os << what << ": " << a << " vs " << b;
  fail(file, line, os.str());
}
#define CHECK_EQ(a, b)                                                                             \
  do {                                                                                             \
    auto check_a = (a);                                                                            \
    auto check_b = (b);                                                                            \
    if (!(check_a == check_b))                                                                     \
      pbt::fail_eq(__FILE__, __LINE__, #a " == " #b, check_a, check_b);                            \
  } while (0)
// Compare integers of possibly different types.
#define CHECK_IEQ(a, b)                                                                            \
  do {                                                                                             \
    int64_t check_a = (int64_t)(a);                                                                \
    int64_t check_b = (int64_t)(b);                                                                \
    if (check_a != check_b)                                                                        \
      pbt::fail_eq(__FILE__, __LINE__, #a " == " #b, check_a, check_b);                            \
  } while (0)

using PropFn = void (*)(Src&, Ctx&);
struct Prop {
  const char* name;
  PropFn fn;
  double weight;  // multiplies the number of cases
};
inline std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}
struct Register {
  Register(const char* name, PropFn fn, double weight) { props().push_back({name, fn, weight}); }
};
#define PROP(name, weight)                                                                         \
  static void name(pbt::Src& s, pbt::Ctx& c);                                                      \
  static pbt::Register reg_##name(#name, name, weight);                                            \
  static void name(pbt::Src& s, pbt::Ctx& c)

// Runs `fn` in a child process and returns true if the child died abnormally (an assertion,
// a sanitizer report or a signal), false if it returned normally.
// A child that does not finish counts as "did not return normally" = trapped.
template <class Fn>
bool traps(Fn&& fn) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    struct itimerval tv;
    memset(&tv, 0, sizeof(tv));
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    struct rlimit rl = {20, 20};
    setrlimit(RLIMIT_CPU, &rl);
    try {
      fn();
    } catch (...) { _exit(77); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

// ---------------------------------------------------------------------------

#ifdef PBT_FUZZ

inline Slot* fuzz_slot() {
  static Slot* s = new Slot();
  return s;
}

inline int fuzz_one(const uint8_t* data, size_t size) {
  if (size < 1) return 0;
  Slot* slot = fuzz_slot();
  slot->tape_len = 0;
  slot->desc_len = 0;
  slot->known[0] = 0;
  const Prop& p = props()[data[0] % props().size()];
  Src s(slot, data + 1, size - 1);
  Ctx c;
  c.slot = slot;
  try {
    p.fn(s, c);
  } catch (const Skip&) {
  } catch (const Failure& f) {
    fprintf(stderr, "PBT failure in %s: %s\n", p.name, f.msg.c_str());
    abort();
  }
  return 0;
}

#else

inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline void arm_cpu_limit(int seconds) {
  struct itimerval tv;
  memset(&tv, 0, sizeof(tv));
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

struct Options {
  uint64_t seed = 1;
  double cases = 1000;
  double max_seconds = 60;  // per property function
  int jobs = 8;
  int cpu_limit = 30;
  std::string id = "C00", config = "dbg", tier = "quick";
  std::string out;         // evidence fragment (JSON)
  std::string replay_dir;  // where replay files go
  std::string scratch;     // scratch directory
  std::string only;
  std::string replay;      // replay this file
  std::string from_bytes;  // a libFuzzer artifact
  std::set<std::string> known;
};

// The scratch directory of this process tree.
inline std::string& scratch_dir() {
  static std::string d = "/tmp";
  return d;
}

inline Slot* make_slot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return (Slot*)p;
}

inline void reset(Slot* s) {
  s->tape_len = 0;
  s->msg_len = 0;
  s->desc_len = 0;
  s->known[0] = 0;
}

inline void set_msg(Slot* s, const std::string& m) {
  size_t n = std::min(m.size(), Slot::kText - 1);
  memcpy(s->msg, m.data(), n);
  s->msg[n] = 0;
  s->msg_len = n;
}

// Runs one case, returns false if it failed with an exception.
inline bool run_case(const Prop& p, Src& src, Ctx& ctx) {
  try {
    p.fn(src, ctx);
    return true;
  } catch (const Failure& f) {
    set_msg(ctx.slot, f.msg);
  } catch (const std::exception& e) {
    set_msg(ctx.slot, std::string("unexpected exception: ") + e.what());
  } catch (...) { set_msg(ctx.slot, "unexpected exception"); }
  return false;
}

struct Outcome {
  bool failed = false;
  std::string how, msg, desc, err, known;
  std::vector<uint64_t> tape;
};

inline std::string slurp(const std::string& path, size_t max = 1 << 16) {
  std::string r;
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return r;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), f)) > 0 && r.size() < max) r.append(buf, n);
  fclose(f);
  return r;
}

inline std::string status_str(int st) {
  std::ostringstream os;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    os << "killed by signal " << sig << (sig == SIGVTALRM || sig == SIGXCPU ? " (CPU time limit)" : "");
  } else {
    os << "exited with status " << WEXITSTATUS(st);
  }
  return os.str();
}

// Runs one case from a tape in a child process.
inline Outcome run_tape(const Prop& p, Slot* slot, const std::vector<uint64_t>& tape,
    const Options& o, bool verbose, const std::vector<uint8_t>* bytes = nullptr) {
  reset(slot);
  std::string errfile = o.scratch + "/stderr";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    arm_cpu_limit(o.cpu_limit);
    Ctx c;
    c.slot = slot;
    c.verbose = verbose;
    bool ok;
    if (bytes) {
      Src s(slot, bytes->data(), bytes->size());
      ok = run_case(p, s, c);
    } else {
      Src s(slot, &tape);
      ok = run_case(p, s, c);
    }
    _exit(ok ? 0 : 42);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.failed = true;
  r.how = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? "check failed" : status_str(st);
  r.msg.assign(slot->msg, slot->msg_len);
  r.desc.assign(slot->desc, slot->desc_len);
  r.known = slot->known;
  r.err = slurp(errfile, 6000);
  r.tape.assign(slot->tape, slot->tape + slot->tape_len);
  return r;
}

inline bool new_failure(const Outcome& r, const Options& o) {
  return r.failed && (r.known.empty() || !o.known.count(r.known));
}

// Minimizes a failing tape.
inline std::vector<uint64_t> shrink(
    const Prop& p, Slot* slot, std::vector<uint64_t> best, const Options& o) {
  double end = now() + 40;
  int attempts = 0;
  auto attempt = [&](const std::vector<uint64_t>& t) {
    if (now() > end || attempts > 4000) return false;
    attempts++;
    Outcome r = run_tape(p, slot, t, o, false);
    if (!new_failure(r, o)) return false;
    // Keep what was actually consumed.
    std::vector<uint64_t> got = r.tape;
    if (got.size() > t.size()) got = t;
    while (!got.empty() && got.back() == 0) got.pop_back();
    best = got;
    return true;
  };
  bool improved = true;
  while (improved && now() < end) {
    improved = false;
    for (size_t n = best.size() / 2; n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= best.size();) {
        std::vector<uint64_t> t = best;
        t.erase(t.begin() + i, t.begin() + i + n);
        if (attempt(t)) {
          improved = true;
        } else {
          i += n;
        }
        if (now() > end) break;
      }
    }
    for (size_t n : {8, 3, 1}) {
      for (size_t i = 0; i + n <= best.size(); i++) {
        std::vector<uint64_t> t = best;
        bool any = false;
        for (size_t k = i; k < i + n; k++) {
          any = any || t[k];
          t[k] = 0;
        }
        if (any && attempt(t)) improved = true;
        if (now() > end) break;
      }
    }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo) {
        std::vector<uint64_t> t = best;
        t[i] = lo + (best[i] - lo) / 2;
        if (attempt(t)) {
          improved = true;
        } else {
          lo = t[i] + 1;
        }
        if (now() > end) break;
      }
    }
  }
  return best;
}

inline std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", ch);
      r += buf;
    } else {
      r += ch;
    }
  }
  return r + "\"";
}

struct PropResult {
  uint64_t evaluations = 0, discarded = 0;
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::set<std::string> known_seen;
  bool capped = false;
  bool violation = false;
  std::string replay, unreproducible;
};

inline uint64_t hash_tape(const Slot* s) {
  uint64_t h = 1234567;
  for (uint32_t i = 0; i < s->tape_len; i++) h = mix(h ^ s->tape[i]);
  return h;
}

// Body of a worker: cases i = w, w + jobs, ... starting at `first`.
inline void worker(const Prop& p, Slot* slot, const Options& o, uint64_t first, uint64_t last,
    uint64_t step, const std::string& statfile, double deadline, int nsamples) {
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t evals = 0;
  bool capped = false;
  const uint64_t pseed = mix(mix(o.seed) ^ hash_str(p.name));
  bool failed = false;
  for (uint64_t i = first; i < last; i += step) {
    if ((i / step) % 16 == 0 && now() > deadline) {
      capped = true;
      break;
    }
    slot->index = i;
    reset(slot);
    arm_cpu_limit(o.cpu_limit);
    Src s(slot, mix(pseed ^ mix(i)));
    Ctx c;
    c.slot = slot;
    c.classes = &classes;
    c.verbose = (int)samples.size() < nsamples && i >= first + step * 3;
    bool ok = run_case(p, s, c);
    evals++;
    if (!ok) {
      if (slot->known[0] && o.known.count(slot->known)) {
        classes[std::string("known-finding hit: ") + slot->known]++;
        slot->done = slot->done + 1;
        continue;
      }
      failed = true;
      break;
    }
    slot->done = slot->done + 1;
    if (c.nontrivial) {
      distinct.insert(hash_tape(slot));
      if (c.verbose) samples.push_back(std::string(slot->desc, slot->desc_len));
    }
  }
  arm_cpu_limit(0);
  FILE* f = fopen(statfile.c_str(), "wb");
  if (f) {
    fprintf(f, "e %llu %d\n", (unsigned long long)evals, capped ? 1 : 0);
    for (auto& k : classes) fprintf(f, "c %llu %s\n", (unsigned long long)k.second, k.first.c_str());
    for (uint64_t h : distinct) fprintf(f, "h %llx\n", (unsigned long long)h);
    for (auto& k : samples) fprintf(f, "s %s\n", json_str(k.substr(0, 2500)).c_str());
    fclose(f);
  }
  slot->state = failed ? 2 : 1;
  _exit(0);
}

inline void merge_stats(PropResult& r, const std::string& file) {
  std::string all = slurp(file, (size_t)1 << 30);
  size_t pos = 0;
  while (pos < all.size()) {
    size_t e = all.find('\n', pos);
    if (e == std::string::npos) e = all.size();
    std::string l = all.substr(pos, e - pos);
    pos = e + 1;
    if (l.size() < 2) continue;
    if (l[0] == 'e') {
      unsigned long long n = 0;
      int capped = 0;
      sscanf(l.c_str(), "e %llu %d", &n, &capped);
      r.evaluations += n;
      if (capped) r.capped = true;
    } else if (l[0] == 'c') {
      size_t sp = l.find(' ', 2);
      std::string label = l.substr(sp + 1);
      r.classes[label] += strtoull(l.c_str() + 2, nullptr, 10);
      const char* kf = "known-finding hit: ";
      if (label.compare(0, strlen(kf), kf) == 0) r.known_seen.insert(label.substr(strlen(kf)));
    } else if (l[0] == 'h') {
      r.distinct.insert(strtoull(l.c_str() + 2, nullptr, 16));
    } else if (l[0] == 's') {
      r.samples.push_back(l.substr(2));
    }
  }
  unlink(file.c_str());
}

inline std::string tape_str(const std::vector<uint64_t>& t) {
  std::ostringstream os;
  for (size_t i = 0; i < t.size(); i++) os << (i ? " " : "") << t[i];
  return os.str();
}

inline std::string write_replay(
    const Prop& p, const Options& o, const Outcome& r, const std::string& kind) {
  mkdir(o.replay_dir.c_str(), 0755);
  uint64_t h = 99;
  for (uint64_t v : r.tape) h = mix(h ^ v);
  char buf[64];
  snprintf(buf, sizeof(buf), "%016llx", (unsigned long long)h);
  std::string path =
      o.replay_dir + "/" + o.id + "-" + o.config + "-" + p.name + "-" + buf + ".replay";
  FILE* f = fopen(path.c_str(), "wb");
  if (f) {
    fprintf(f, "check %s\nconfig %s\nprop %s\nkind %s\ntape %s\n", o.id.c_str(), o.config.c_str(),
        p.name, kind.c_str(), tape_str(r.tape).c_str());
    fprintf(f, "\n--- outcome: %s\n%s\n", r.how.c_str(), r.msg.c_str());
    fprintf(f, "--- case (minimized):\n%s\n", r.desc.c_str());
    fprintf(f, "--- stderr:\n%s\n", r.err.c_str());
    fclose(f);
  }
  return path;
}

// Decide whether a failing tape is a violation: minimize it, and require that it fails
// three times in a row in fresh processes.
inline bool confirm(const Prop& p, Slot* slot, std::vector<uint64_t> tape, const Options& o,
    PropResult& result) {
  Outcome first = run_tape(p, slot, tape, o, false);
  if (!new_failure(first, o)) return false;
  std::vector<uint64_t> best = shrink(p, slot, tape, o);
  for (int attempt = 0; attempt < 2; attempt++) {
    bool all = true;
    Outcome last;
    for (int k = 0; k < 3 && all; k++) {
      last = run_tape(p, slot, best, o, true);
      all = new_failure(last, o);
    }
    if (all) {
      last.tape = best;
      result.violation = true;
      result.replay = write_replay(p, o, last, "case");
      printf("FAILURE in %s (%s): %s %s\n%s\n%.1500s\n", p.name, o.config.c_str(), last.how.c_str(),
          last.msg.c_str(), last.desc.c_str(), last.err.c_str());
      return true;
    }
    best = tape;
  }
  return false;
}

inline PropResult run_prop(const Prop& p, const Options& o) {
  PropResult result;
  const uint64_t n = std::max<uint64_t>(1, (uint64_t)(o.cases * p.weight));
  const int jobs = (int)std::min<uint64_t>(o.jobs, std::max<uint64_t>(1, n / 8));
  double deadline = now() + o.max_seconds;
  struct W {
    pid_t pid = 0;
    Slot* slot = nullptr;
    uint64_t first = 0;
  };
  std::vector<W> ws(jobs);
  Slot* slot = make_slot();
  auto statfile = [&](int w) { return o.scratch + "/stat" + std::to_string(w); };
  auto errfile = [&](int w) { return o.scratch + "/err" + std::to_string(w); };
  auto start = [&](int w, uint64_t first) {
    W& k = ws[w];
    k.first = first;
    k.slot->state = 0;
    k.slot->done = 0;
    fflush(nullptr);
    k.pid = fork();
    if (k.pid == 0) {
      int fd = open(errfile(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      worker(p, k.slot, o, first, n, jobs, statfile(w), deadline, w < 2 ? 2 : 0);
    }
  };
  for (int w = 0; w < jobs; w++) {
    ws[w].slot = make_slot();
    start(w, w);
  }
  int alive = jobs;
  int unrepro = 0;
  while (alive > 0) {
    int st = 0;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int w = 0;
    while (w < jobs && ws[w].pid != pid) w++;
    if (w == jobs) continue;
    W& k = ws[w];
    alive--;
    k.pid = 0;
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && k.slot->state != 0);
    if (!crashed) merge_stats(result, statfile(w));
    if (crashed) result.evaluations += k.slot->done + 1;
    if (!crashed && k.slot->state == 1) continue;
    uint64_t index = k.slot->index;
    bool is_known = k.slot->known[0] && o.known.count(k.slot->known);
    if (crashed && is_known) {
      // A known finding that ends the process: carry on after it.
      result.known_seen.insert(k.slot->known);
      result.classes[std::string("known-finding hit: ") + k.slot->known]++;
      start(w, index + jobs);
      alive++;
      continue;
    }
    std::vector<uint64_t> tape(k.slot->tape, k.slot->tape + k.slot->tape_len);
    std::string msg(k.slot->msg, k.slot->msg_len);
    bool confirmed = confirm(p, slot, tape, o, result);
    if (!confirmed) {
      // Not reproducible alone: does the history of the worker reproduce it?
      bool all = true;
      Outcome last;
      for (int t = 0; t < 3 && all; t++) {
        Options o2 = o;
        fflush(nullptr);
        slot->state = 0;
        slot->done = 0;
        pid_t q = fork();
        if (q == 0) {
          int fd = open((o.scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
          dup2(fd, 2);
          worker(p, slot, o2, k.first, index + 1, jobs, o.scratch + "/stat-again", 1e300, 0);
        }
        int st2 = 0;
        while (waitpid(q, &st2, 0) < 0 && errno == EINTR) {}
        bool crashed2 = !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0 && slot->state != 0);
        all = crashed2 || slot->state == 2;
        last.failed = true;
        last.how = crashed2 ? status_str(st2) : "check failed";
        last.msg.assign(slot->msg, slot->msg_len);
        last.err = slurp(o.scratch + "/stderr", 6000);
      }
      if (all) {
        last.tape = {k.first, index + 1, (uint64_t)jobs, o.seed};
        result.violation = true;
        result.replay = write_replay(p, o, last, "history");
        printf("FAILURE in %s (%s), only after the preceding cases: %s %s\n%.1500s\n", p.name,
            o.config.c_str(), last.how.c_str(), last.msg.c_str(), last.err.c_str());
        confirmed = true;
      }
    }
    if (confirmed) {
      for (W& j : ws) {
        if (j.pid) {
          kill(j.pid, SIGKILL);
          waitpid(j.pid, nullptr, 0);
        }
      }
      break;
    }
    // A failure that never happens again says nothing about the code (e.g. the process was
    // ended by the system). Report it in the evidence and carry on.
    unrepro++;
    result.unreproducible = (crashed ? status_str(st) : "check failed") + " " + msg;
    if (unrepro < 20 && index + jobs < n) {
      start(w, index + jobs);
      alive++;
    }
  }
  for (W& k : ws) munmap(k.slot, sizeof(Slot));
  munmap(slot, sizeof(Slot));
  return result;
}

inline int run_main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = atof(val().c_str());
    else if (a == "--max-seconds") o.max_seconds = atof(val().c_str());
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else if (a == "--id") o.id = val();
    else if (a == "--config") o.config = val();
    else if (a == "--out") o.out = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--scratch") o.scratch = val();
    else if (a == "--only") o.only = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--from-bytes") o.from_bytes = val();
    else if (a == "--known") o.known.insert(val());
    else if (a == "--list") {
      for (auto& p : props()) printf("%s\n", p.name);
      return 0;
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  if (o.scratch.empty()) {
    char tmpl[] = "/tmp/pbtXXXXXX";
    o.scratch = mkdtemp(tmpl);
  }
  if (o.replay_dir.empty()) o.replay_dir = o.scratch;
  scratch_dir() = o.scratch;

  if (!o.replay.empty()) {
    std::string txt = slurp(o.replay, 1 << 24);
    std::istringstream is(txt);
    std::string line, prop, kind;
    std::vector<uint64_t> tape;
    while (std::getline(is, line) && !line.empty()) {
      std::istringstream ls(line);
      std::string key;
      ls >> key;
      if (key == "prop") ls >> prop;
      if (key == "kind") ls >> kind;
      if (key == "tape") {
        uint64_t v;
        while (ls >> v) tape.push_back(v);
      }
    }
    for (auto& p : props()) {
      if (prop != p.name) continue;
      Slot* slot = make_slot();
      if (kind == "history") {
        if (tape.size() < 4) return 2;
        o.seed = tape[3];
        pid_t q = fork();
        if (q == 0) worker(p, slot, o, tape[0], tape[1], tape[2], o.scratch + "/stat", 1e300, 0);
        int st = 0;
        waitpid(q, &st, 0);
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 1);
        printf("%s\n", bad ? "replay: FAILS" : "replay: passes");
        return bad ? 1 : 0;
      }
      Outcome r = run_tape(p, slot, tape, o, true);
      printf("%s", std::string(slot->desc, slot->desc_len).c_str());
      if (r.failed) {
        printf("replay: FAILS: %s %s\n%s\n", r.how.c_str(), r.msg.c_str(), r.err.c_str());
        return 1;
      }
      printf("replay: passes\n");
      return 0;
    }
    fprintf(stderr, "no such property function: %s\n", prop.c_str());
    return 2;
  }

  if (!o.from_bytes.empty()) {
    std::string b = slurp(o.from_bytes, 1 << 20);
    if (b.empty()) return 0;
    const Prop& p = props()[(uint8_t)b[0] % props().size()];
    std::vector<uint8_t> bytes(b.begin() + 1, b.end());
    Slot* slot = make_slot();
    Outcome r = run_tape(p, slot, {}, o, false, &bytes);
    PropResult res;
    if (new_failure(r, o) && confirm(p, slot, r.tape, o, res)) {
      printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), res.replay.c_str());
      return 1;
    }
    return 0;
  }

  double t0 = now();
  bool violation = false;
  std::ostringstream js;
  js << "{\"config\":" << json_str(o.config) << ",\"props\":[";
  bool first = true;
  std::set<std::string> known_seen;
  for (auto& p : props()) {
    if (!o.only.empty() && o.only != p.name) continue;
    double t1 = now();
    PropResult r = run_prop(p, o);
    if (!first) js << ",";
    first = false;
    js << "{\"name\":" << json_str(p.name) << ",\"evaluations\":" << r.evaluations
       << ",\"distinct_nontrivial\":" << r.distinct.size() << ",\"seconds\":" << now() - t1
       << ",\"time_capped\":" << (r.capped ? "true" : "false") << ",\"classes\":{";
    bool f2 = true;
    for (auto& k : r.classes) {
      js << (f2 ? "" : ",") << json_str(k.first) << ":" << k.second;
      f2 = false;
    }
    js << "},\"samples\":[";
    for (size_t i = 0; i < r.samples.size() && i < 3; i++) js << (i ? "," : "") << r.samples[i];
    js << "]";
    if (!r.unreproducible.empty()) js << ",\"unreproducible\":" << json_str(r.unreproducible);
    if (r.violation) js << ",\"violation\":" << json_str(r.replay);
    js << "}";
    for (auto& k : r.known_seen) known_seen.insert(k);
    if (r.violation) {
      printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), r.replay.c_str());
      fflush(stdout);
      violation = true;
      break;
    }
  }
  js << "],\"known_seen\":[";
  first = true;
  for (auto& k : known_seen) {
    js << (first ? "" : ",") << json_str(k);
    first = false;
  }
  js << "],\"seconds\":" << now() - t0 << "}\n";
  if (!o.out.empty()) {
    FILE* f = fopen(o.out.c_str(), "wb");
    if (f) {
      fputs(js.str().c_str(), f);
      fclose(f);
    }
  }
  return violation ? 1 : 0;
}

#endif  // PBT_FUZZ

}  // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN                                                                                   \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {                        \
    return pbt::fuzz_one(data, size);                                                              \
  }
#else
#define PBT_MAIN                                                                                   \
  int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif

#endif  // PBT_H
