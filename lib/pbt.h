// pbt.h - a small property-based testing runtime (choice-sequence based, in the
// style of Hypothesis): a property draws bounded integer choices from a Src; the
// list of choices *is* the test case, so that any failing case can be shrunk and
// replayed generically. Cases run in forked workers, so crashes, sanitizer
// aborts, process exits and runaway loops are attributed to the case.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

inline uint64_t SplitMix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

class Src {
 public:
  enum class Mode { kRandom, kReplay, kBytes };

  // --- construction (runtime only) ---
  void StartRandom(uint64_t seed) { mode_ = Mode::kRandom; rng_ = seed; Reset(); }
  void StartReplay(std::vector<uint64_t> c) { mode_ = Mode::kReplay; in_ = std::move(c); Reset(); }
  void StartBytes(const uint8_t* d, size_t n) { mode_ = Mode::kBytes; bytes_ = d; nbytes_ = n; Reset(); }

  // --- drawing ---
  // Uniform in [0, max]; 0 is the simplest choice.
  uint64_t Draw(uint64_t max);
  // Uniform in [lo, hi].
  int64_t Int(int64_t lo, int64_t hi) {
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + Draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  size_t Size(size_t lo, size_t hi) { return lo + static_cast<size_t>(Draw(hi - lo)); }
  bool Bool() { return Draw(1) != 0; }
  // True with probability num/den. (shrinks to false)
  bool Chance(unsigned num, unsigned den) { return Draw(den - 1) >= den - num; }
  // Weighted index; index 0 is the simplest.
  size_t Weighted(std::initializer_list<unsigned> w);
  template<typename T> const T& Pick(const std::vector<T>& v) { return v[Draw(v.size() - 1)]; }
  std::string_view PickStr(std::initializer_list<std::string_view> v) { return v.begin()[Draw(v.size() - 1)]; }
  char PickChar(std::string_view v) { return v[Draw(v.size() - 1)]; }
  // 64 bit value with boundary bias (small values, powers of 2 +-1, all-ones, random).
  uint64_t U64();
  int64_t I64() { return static_cast<int64_t>(U64()); }
  // Skewed size: mostly small, sometimes up to max.
  size_t SkewSize(size_t max);
  // String over alphabet with per-character choices.
  std::string Str(std::string_view alphabet, size_t max_len);
  // Arbitrary bytes per-character choices, biased to interesting bytes.
  std::string RawBytes(size_t max_len);
  // Blob of given length from one 'kind' and one seed choice (cheap for large data).
  std::string Blob(size_t len);

  // --- reporting ---
  // Marks this case non-trivial by the property's stated rule.
  void NonTrivial() { nontrivial_ = true; }
  void Label(const std::string& label);
  bool verbose() const { return verbose_; }
  void NoteStr(std::string s);
  const std::vector<uint64_t>& choices() const { return out_; }
  bool exhausted() const { return out_.size() > 200000; }

  // runtime internals
  void Reset() { pos_ = 0; out_.clear(); nontrivial_ = false; notes_.clear(); labels_.clear(); }
  bool nontrivial_ = false;
  bool verbose_ = false;
  std::string notes_;
  std::vector<const char*> labels_;

 private:
  Mode mode_ = Mode::kRandom;
  uint64_t rng_ = 0;
  std::vector<uint64_t> in_;
  const uint8_t* bytes_ = nullptr;
  size_t nbytes_ = 0;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
};

// Ends the current case as failed (never returns).
[[noreturn]] void Fail(const char* file, int line, const std::string& msg);

// Printable rendering of bytes.
std::string Quote(std::string_view s);
std::string Hex(std::string_view s);

template<typename T>
std::string Show(const T& v) {
  if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    return Quote(std::string_view(v));
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) {
    return std::to_string(static_cast<int>(v));
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(v));
  } else if constexpr (requires(std::ostream& os) { os << v; }) {
    std::ostringstream os;
    os << v;
    return os.str();
  } else if constexpr (requires { v.begin(); v.end(); }) {
    std::string r = "{";
    for (const auto& e : v) { if (r.size() > 1) r += ", "; r += Show(e); }
    return r + "}";
  } else if constexpr (requires { v.first; v.second; }) {
    return "(" + Show(v.first) + ", " + Show(v.second) + ")";
  } else {
    return "<?>";
  }
}

using PropFn = void (*)(Src&);
struct Prop {
  const char* name;
  uint64_t quick;
  uint64_t thorough;
  PropFn fn;
  const char* rule;
};
struct Finding {
  const char* key;
  bool (*fn)();  // true (or a crash) = the defect is present
};
struct Register {
  Register(const char* name, uint64_t quick, uint64_t thorough, const char* rule, PropFn fn);
};
struct RegisterFinding {
  RegisterFinding(const char* key, bool (*fn)());
};

// Runs `fn` in a forked child: returns exit status info. `out` receives what the
// child wrote to stdout and stderr.
struct ChildResult {
  bool exited = false;
  int code = 0;
  bool signaled = false;
  int sig = 0;
  std::string out;  // stdout+stderr of the child
};
template<typename F>
ChildResult RunChild(F&& fn) {
  struct Ctx { F* f; } ctx{&fn};
  extern ChildResult RunChildImpl(void (*)(void*), void*);
  return RunChildImpl([](void* c) { (*static_cast<Ctx*>(c)->f)(); }, &ctx);
}

// Tells the hang watchdog that a deliberately long case is advancing.
void Progress();
const char* ScratchDir();  // per-run scratch directory (removed by run.py)
std::string CaseDir();     // fresh directory, unique per worker; wiped on each call

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT_PROP(name, quick_cases, thorough_cases, rule) { ... use `src` ... }
#define PBT_PROP(name, quick, thorough, rule)                                           \
  static void PbtProp_##name(::pbt::Src& src);                                          \
  static ::pbt::Register pbt_reg_##name(#name, quick, thorough, rule, PbtProp_##name);  \
  static void PbtProp_##name([[maybe_unused]] ::pbt::Src& src)
#define PBT_FINDING(ident, key)                                              \
  static bool PbtFinding_##ident();                                          \
  static ::pbt::RegisterFinding pbt_fnd_##ident(key, PbtFinding_##ident);    \
  static bool PbtFinding_##ident()

#define PBT_NOTE(...)                                             \
  do {                                                            \
    if (src.verbose()) {                                          \
      std::ostringstream pbt_os;                                  \
      pbt_os << __VA_ARGS__;                                      \
      src.NoteStr(pbt_os.str());                                  \
    }                                                             \
  } while (0)
#define PBT_FAIL(...)                                             \
  do {                                                            \
    std::ostringstream pbt_os;                                    \
    pbt_os << __VA_ARGS__;                                        \
    ::pbt::Fail(__FILE__, __LINE__, pbt_os.str());                \
  } while (0)
#define PBT_CHECK(cond, ...)                                      \
  do {                                                            \
    if (!(cond)) {                                                \
      PBT_FAIL("check failed: " #cond " " __VA_OPT__(<<) __VA_ARGS__); \
    }                                                             \
  } while (0)
#define PBT_EQ(a, b, ...)                                                                     \
  do {                                                                                        \
    const auto& pbt_a = (a);                                                                  \
    const auto& pbt_b = (b);                                                                  \
    if (!(pbt_a == pbt_b)) {                                                                  \
      PBT_FAIL(#a " == " #b "\n  got:      " << ::pbt::Show(pbt_a) << "\n  expected: "        \
                                             << ::pbt::Show(pbt_b) << "\n  " __VA_OPT__(<<) __VA_ARGS__); \
    }                                                                                         \
  } while (0)

#endif
