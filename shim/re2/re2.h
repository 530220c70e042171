#pragma once
// A stand-in for RE2 (there is none in this environment): the parts of its syntax
// and API that helly25/mbo uses, on a linear-time matcher (a Pike VM) with RE2's
// leftmost-first semantics over UTF-8. See DESIGN.md, "Stand-ins".
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <mutex>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/base/macros_shim.h"
namespace re2 {
namespace shim {
using Ranges = std::vector<std::pair<int, int>>;
struct Node {
  enum Kind { kEmpty, kSet, kCat, kAlt, kRep, kCap, kAssert } kind = kEmpty;
  Ranges set;
  bool negated = false;
  std::vector<Node> kids;
  int lo = 0, hi = -1;
  bool greedy = true;
  int index = 0;
  char what = 0;
};
struct Inst {
  enum Op { kSet, kMatch, kJmp, kSplit, kSave, kAssert } op = kMatch;
  int x = 0, y = 0;
  Ranges set;
  bool negated = false;
  char what = 0;
};
inline int Decode(std::string_view s, std::size_t i, int* len) {
  auto b = [&](std::size_t k) { return i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0U; };
  unsigned c = b(0);
  *len = 1;
  if (c < 0x80) return int(c);
  auto cont = [&](std::size_t k) { return (b(k) & 0xC0U) == 0x80U; };
  if (c >= 0xC2 && c < 0xE0 && cont(1)) { *len = 2; return int(((c & 31U) << 6U) | (b(1) & 63U)); }
  if (c >= 0xE0 && c < 0xF0 && cont(1) && cont(2)) {
    int r = int(((c & 15U) << 12U) | ((b(1) & 63U) << 6U) | (b(2) & 63U));
    if (r >= 0x800) { *len = 3; return r; }
  }
  if (c >= 0xF0 && c < 0xF5 && cont(1) && cont(2) && cont(3)) {
    int r = int(((c & 7U) << 18U) | ((b(1) & 63U) << 12U) | ((b(2) & 63U) << 6U) | (b(3) & 63U));
    if (r >= 0x10000 && r <= 0x10FFFF) { *len = 4; return r; }
  }
  return -1;  // matches nothing
}
inline bool Word(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool Has(const Ranges& r, bool neg, int c) {
  if (c < 0) return false;
  for (auto [a, b] : r) if (c >= a && c <= b) return !neg;
  return neg;
}
inline void Negate(const Ranges& in, Ranges* out) {
  std::vector<std::pair<int, int>> v = in;
  std::sort(v.begin(), v.end());
  int next = 0;
  for (auto [a, b] : v) {
    if (a > next) out->emplace_back(next, a - 1);
    if (b + 1 > next) next = b + 1;
  }
  if (next <= 0x10FFFF) out->emplace_back(next, 0x10FFFF);
}
}  // namespace shim

class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen, ErrorUnexpectedParen, ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp, ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    Options() = default;
    Options(CannedOptions) {}  // NOLINT
    bool case_sensitive() const { return case_sensitive_; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    bool literal() const { return literal_; }
    void set_literal(bool b) { literal_ = b; }
    bool dot_nl() const { return dot_nl_; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    bool log_errors() const { return log_; }
    void set_log_errors(bool b) { log_ = b; }
    bool never_nl() const { return false; }
    void set_posix_syntax(bool) {}
    void set_longest_match(bool) {}
    std::int64_t max_mem() const { return 8 << 20; }
    void set_max_mem(std::int64_t) {}

   private:
    bool case_sensitive_ = true, literal_ = false, dot_nl_ = false, log_ = true;
  };
  class Arg {
   public:
    Arg() = default;
    Arg(std::nullptr_t) {}  // NOLINT
    template<typename T> Arg(T* p) : p_(p), f_(&Parse<T>) {}  // NOLINT
    bool operator()(const char* s, std::size_t n) const { return !f_ || f_(s, n, p_); }

   private:
    template<typename T> struct Opt : std::false_type {};
    template<typename T> struct Opt<std::optional<T>> : std::true_type { using V = T; };
    template<typename T> static bool Parse(const char* s, std::size_t n, void* d) {
      if constexpr (std::is_void_v<T>) {
        return true;
      } else {
        T* o = static_cast<T*>(d);
        if constexpr (Opt<T>::value) {
          if (!s) { if (o) o->reset(); return true; }
          typename Opt<T>::V v{};
          if (!Parse<typename Opt<T>::V>(s, n, &v)) return false;
          if (o) *o = std::move(v);
          return true;
        } else if constexpr (std::is_same_v<T, std::string>) {
          if (o) o->assign(s ? s : "", n);
          return true;
        } else if constexpr (std::is_same_v<T, std::string_view>) {
          if (o) *o = std::string_view(s, n);
          return true;
        } else if constexpr (std::is_same_v<T, char>) {
          if (n != 1) return false;
          if (o) *o = *s;
          return true;
        } else if constexpr (std::is_floating_point_v<T>) {
          std::string t(s ? s : "", n);
          char* e = nullptr;
          T v = static_cast<T>(std::strtod(t.c_str(), &e));
          if (t.empty() || *e || t[0] == ' ') return false;
          if (o) *o = v;
          return true;
        } else {
          static_assert(std::is_integral_v<T>);
          std::size_t i = 0;
          bool neg = false;
          if (n && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
          if (neg && std::is_unsigned_v<T>) return false;
          if (i >= n) return false;
          __int128 v = 0;
          for (; i < n; ++i) {
            if (s[i] < '0' || s[i] > '9') return false;
            v = v * 10 + (s[i] - '0');
            if (v > (__int128(1) << 66)) return false;
          }
          if (neg) v = -v;
          if (v < __int128(std::numeric_limits<T>::min()) || v > __int128(std::numeric_limits<T>::max())) return false;
          if (o) *o = static_cast<T>(v);
          return true;
        }
      }
    }
    void* p_ = nullptr;
    bool (*f_)(const char*, std::size_t, void*) = nullptr;
  };

  RE2(const char* p) : RE2(std::string_view(p), Options()) {}          // NOLINT
  RE2(const std::string& p) : RE2(std::string_view(p), Options()) {}   // NOLINT
  RE2(std::string_view p) : RE2(p, Options()) {}                       // NOLINT
  RE2(std::string_view p, const Options& o) : pattern_(p), options_(o) { Compile(); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;

  bool ok() const { return code_ == NoError; }
  ErrorCode error_code() const { return code_; }
  const std::string& error() const { return error_; }
  const std::string& error_arg() const { return arg_; }
  const std::string& pattern() const { return pattern_; }
  const Options& options() const { return options_; }
  int NumberOfCapturingGroups() const { return ok() ? ncap_ : -1; }
  int ProgramSize() const { return int(prog_.size()); }

  template<typename... A> static bool FullMatch(std::string_view t, const RE2& re, A&&... a) { return Apply(t, re, ANCHOR_BOTH, nullptr, {Arg(std::forward<A>(a))...}); }
  template<typename... A> static bool PartialMatch(std::string_view t, const RE2& re, A&&... a) { return Apply(t, re, UNANCHORED, nullptr, {Arg(std::forward<A>(a))...}); }
  template<typename... A> static bool Consume(std::string_view* t, const RE2& re, A&&... a) { return ApplyC(t, re, ANCHOR_START, {Arg(std::forward<A>(a))...}); }
  template<typename... A> static bool FindAndConsume(std::string_view* t, const RE2& re, A&&... a) { return ApplyC(t, re, UNANCHORED, {Arg(std::forward<A>(a))...}); }
  static bool Replace(std::string* s, const RE2& re, std::string_view rewrite) {
    std::vector<int> m;
    if (!re.Run(*s, 0, UNANCHORED, &m)) return false;
    std::string r;
    if (!re.Rewrite(&r, rewrite, *s, m)) return false;
    s->replace(m[0], m[1] - m[0], r);
    return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, std::string_view rewrite) {
    std::string out;
    std::size_t p = 0;
    int count = 0, last = -1;
    while (p <= s->size()) {
      std::vector<int> m;
      if (!re.Run(*s, p, UNANCHORED, &m)) break;
      out.append(*s, p, m[0] - p);
      if (m[0] == last && m[0] == m[1]) {  // no empty match right after a match
        if (p < s->size()) { int l = 1; if (shim::Decode(*s, p, &l) < 0) l = 1; out.append(*s, p, l); p += l; } else ++p;
        last = -1;
        continue;
      }
      if (!re.Rewrite(&out, rewrite, *s, m)) return 0;
      p = m[1];
      last = int(p);
      ++count;
    }
    if (!count) return 0;
    if (p < s->size()) out.append(*s, p, s->npos);
    *s = out;
    return count;
  }
  static std::string QuoteMeta(std::string_view s) {
    std::string r;
    for (char c : s) {
      if (!shim::Word(static_cast<unsigned char>(c)) && !(c & 0x80)) r += '\\';
      if (c == 0) { r += "x00"; continue; }
      r += c;
    }
    return r;
  }
  bool Match(std::string_view t, std::size_t start, std::size_t end, Anchor a, std::string_view* sub, int n) const {
    std::vector<int> m;
    t = t.substr(0, end);
    if (!Run(t, start, a, &m)) return false;
    for (int i = 0; i < n; ++i) sub[i] = i <= ncap_ && m[2 * i] >= 0 ? t.substr(m[2 * i], m[2 * i + 1] - m[2 * i]) : std::string_view();
    return true;
  }
  bool CheckRewriteString(std::string_view rw, std::string* err) const {
    int max = -1;
    for (std::size_t i = 0; i < rw.size(); ++i) {
      if (rw[i] != '\\') continue;
      if (++i == rw.size()) { *err = "Rewrite schema error: '\\' not allowed at end."; return false; }
      if (rw[i] == '\\') continue;
      if (rw[i] < '0' || rw[i] > '9') { *err = "Rewrite schema error: '\\' must be followed by a digit or '\\'."; return false; }
      max = std::max(max, rw[i] - '0');
    }
    if (max > ncap_) { *err = "Rewrite schema requests too many matches"; return false; }
    return true;
  }

 private:
  bool Rewrite(std::string* out, std::string_view rw, std::string_view text, const std::vector<int>& m) const {
    for (std::size_t i = 0; i < rw.size(); ++i) {
      if (rw[i] != '\\') { *out += rw[i]; continue; }
      char c = ++i < rw.size() ? rw[i] : 0;
      if (c >= '0' && c <= '9') {
        int n = c - '0';
        if (n > ncap_) return false;
        if (m[2 * n] >= 0) out->append(text.substr(m[2 * n], m[2 * n + 1] - m[2 * n]));
      } else if (c == '\\') {
        *out += '\\';
      } else {
        return false;
      }
    }
    return true;
  }
  static bool Apply(std::string_view t, const RE2& re, Anchor a, int* end, std::initializer_list<Arg> args) {
    if (!re.ok() || int(args.size()) > re.ncap_) return false;
    std::vector<int> m;
    if (!re.Run(t, 0, a, &m)) return false;
    if (end) *end = m[1];
    int i = 1;
    for (const Arg& g : args) {
      const bool set = m[2 * i] >= 0;
      if (!g(set ? t.data() + m[2 * i] : nullptr, set ? m[2 * i + 1] - m[2 * i] : 0)) return false;
      ++i;
    }
    return true;
  }
  static bool ApplyC(std::string_view* t, const RE2& re, Anchor a, std::initializer_list<Arg> args) {
    int end = 0;
    if (!Apply(*t, re, a, &end, args)) return false;
    t->remove_prefix(end);
    return true;
  }

  // ---- Parsing.
  struct Flags { bool i = false, m = false, s = false, u = false; };
  struct Fail {};
  bool Err(ErrorCode c, const char* text, std::string_view arg) {
    if (code_ == NoError) {
      code_ = c;
      arg_ = std::string(arg);
      error_ = text;
      if (!arg.empty()) error_ += ": " + arg_;
    }
    return false;
  }
  bool End() const { return pos_ >= in_.size(); }
  static void AddFold(shim::Ranges* r, int a, int b, bool fold) {
    r->emplace_back(a, b);
    if (!fold) return;
    for (int c = std::max(a, int('A')); c <= std::min(b, int('Z')); ++c) r->emplace_back(c + 32, c + 32);
    for (int c = std::max(a, int('a')); c <= std::min(b, int('z')); ++c) r->emplace_back(c - 32, c - 32);
  }
  shim::Node Lit(int c) const {
    shim::Node n;
    n.kind = shim::Node::kSet;
    AddFold(&n.set, c, c, f_.i);
    return n;
  }
  static shim::Node Assert(char w) {
    shim::Node n;
    n.kind = shim::Node::kAssert;
    n.what = w;
    return n;
  }
  static bool Perl(char c, shim::Ranges* out) {
    shim::Ranges r;
    switch (c | 32) {
      case 'd': r = {{'0', '9'}}; break;
      case 's': r = {{'\t', '\n'}, {'\f', '\r'}, {' ', ' '}}; break;
      case 'w': r = {{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}; break;
      default: return false;
    }
    if (c >= 'a') out->insert(out->end(), r.begin(), r.end()); else shim::Negate(r, out);
    return true;
  }
  bool Rune(int* c) {
    int len = 0;
    *c = shim::Decode(in_, pos_, &len);
    if (*c < 0) return Err(ErrorBadUTF8, "invalid UTF-8", "");
    pos_ += std::size_t(len);
    return true;
  }
  // At a backslash.
  bool Escape(int* out) {
    const std::size_t at = pos_;
    if (pos_ + 1 >= in_.size()) return Err(ErrorTrailingBackslash, "trailing \\ at end of regexp", "");
    ++pos_;
    int c = 0;
    if (!Rune(&c)) return false;
    auto bad = [&] { return Err(ErrorBadEscape, "invalid escape sequence", in_.substr(at, pos_ - at)); };
    auto hex = [](int v) { return v >= '0' && v <= '9' ? v - '0' : v >= 'a' && v <= 'f' ? v - 'a' + 10 : v >= 'A' && v <= 'F' ? v - 'A' + 10 : -1; };
    if (c >= '1' && c <= '7') {  // a backreference, unless more octal digits follow
      if (End() || in_[pos_] < '0' || in_[pos_] > '7') return bad();
    }
    if (c >= '0' && c <= '7') {
      int v = c - '0';
      for (int k = 0; k < 2 && !End() && in_[pos_] >= '0' && in_[pos_] <= '7'; ++k) v = v * 8 + (in_[pos_++] - '0');
      *out = v;
      return v <= 0x10FFFF || bad();
    }
    if (c == '8' || c == '9') return bad();
    if (c == 'x') {
      if (End()) return bad();
      if (in_[pos_] == '{') {
        ++pos_;
        int v = 0, n = 0;
        while (!End() && hex(in_[pos_]) >= 0) { v = v * 16 + hex(in_[pos_++]); ++n; if (v > 0x10FFFF) return bad(); }
        if (End() || in_[pos_] != '}' || !n) return bad();
        ++pos_;
        *out = v;
        return true;
      }
      int a = hex(in_[pos_++]), b = End() ? -1 : hex(in_[pos_++]);
      if (a < 0 || b < 0) return bad();
      *out = a * 16 + b;
      return true;
    }
    switch (c) {
      case 'n': *out = '\n'; return true;
      case 'r': *out = '\r'; return true;
      case 't': *out = '\t'; return true;
      case 'a': *out = '\a'; return true;
      case 'f': *out = '\f'; return true;
      case 'v': *out = '\v'; return true;
      default: break;
    }
    if (c < 0x80 && (!shim::Word(c) || c == '_')) { *out = c; return true; }
    return bad();
  }
  bool Class(shim::Node* n) {  // after '['
    const std::size_t start = pos_ - 1;
    n->kind = shim::Node::kSet;
    if (!End() && in_[pos_] == '^') { n->negated = true; ++pos_; }
    bool first = true;
    auto missing = [&] { return Err(ErrorMissingBracket, "missing ]", in_.substr(start)); };
    for (;; first = false) {
      if (End()) return missing();
      if (in_[pos_] == ']' && !first) { ++pos_; return true; }
      if (in_.substr(pos_, 2) == "[:") {
        std::size_t e = in_.find(":]", pos_ + 2);
        if (e != std::string_view::npos) {
          std::string_view name = in_.substr(pos_, e + 2 - pos_), inner = name.substr(2, name.size() - 4);
          bool neg = inner.starts_with("^");
          if (neg) inner.remove_prefix(1);
          shim::Ranges r;
          static const std::map<std::string_view, shim::Ranges> kP = {
              {"alnum", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}}, {"alpha", {{'A', 'Z'}, {'a', 'z'}}}, {"ascii", {{0, 127}}}, {"blank", {{'\t', '\t'}, {' ', ' '}}}, {"cntrl", {{0, 31}, {127, 127}}}, {"digit", {{'0', '9'}}}, {"graph", {{33, 126}}}, {"lower", {{'a', 'z'}}}, {"print", {{32, 126}}}, {"punct", {{33, 47}, {58, 64}, {91, 96}, {123, 126}}}, {"space", {{9, 13}, {32, 32}}}, {"upper", {{'A', 'Z'}}}, {"word", {{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}}, {"xdigit", {{'0', '9'}, {'A', 'F'}, {'a', 'f'}}}};
          auto it = kP.find(inner);
          if (it == kP.end()) return Err(ErrorBadCharRange, "invalid character class range", name);
          for (auto [a, b] : it->second) AddFold(&r, a, b, f_.i);
          if (neg) { shim::Ranges q; shim::Negate(r, &q); r = q; }
          n->set.insert(n->set.end(), r.begin(), r.end());
          pos_ = e + 2;
          continue;
        }
      }
      if (in_[pos_] == '\\' && pos_ + 1 < in_.size() && Perl(in_[pos_ + 1], &n->set)) { pos_ += 2; continue; }
      if (in_[pos_] == '\\' && pos_ + 1 < in_.size() && (in_[pos_ + 1] == 'p' || in_[pos_ + 1] == 'P')) Unsupported("\\p");
      const std::size_t at = pos_;
      int lo = 0, hi = 0;
      if (!ClassChar(&lo, start)) return false;
      hi = lo;
      if (pos_ + 1 < in_.size() && in_[pos_] == '-' && in_[pos_ + 1] != ']') {
        ++pos_;
        if (!ClassChar(&hi, start)) return false;
        if (hi < lo) return Err(ErrorBadCharRange, "invalid character class range", in_.substr(at, pos_ - at));
      }
      AddFold(&n->set, lo, hi, f_.i);
    }
  }
  bool ClassChar(int* c, std::size_t start) {
    if (End()) return Err(ErrorMissingBracket, "missing ]", in_.substr(start));
    return in_[pos_] == '\\' ? Escape(c) : Rune(c);
  }
  [[noreturn]] static void Unsupported(const char* w) {
    std::fprintf(stderr, "re2 shim: unsupported syntax %s\n", w);
    std::abort();
  }
  bool RepCount(int* lo, int* hi) {  // at '{'
    std::size_t p = pos_ + 1;
    auto num = [&](int* v) {
      if (p >= in_.size() || in_[p] < '0' || in_[p] > '9') return false;
      if (in_[p] == '0' && p + 1 < in_.size() && in_[p + 1] >= '0' && in_[p + 1] <= '9') return false;  // no leading zeros
      long r = 0;
      while (p < in_.size() && in_[p] >= '0' && in_[p] <= '9') { r = r * 10 + (in_[p++] - '0'); if (r > 100000000) return false; }
      *v = int(r);
      return true;
    };
    if (!num(lo)) return false;
    if (p >= in_.size()) return false;
    if (in_[p] == ',') {
      ++p;
      if (p >= in_.size()) return false;
      if (in_[p] == '}') *hi = -1; else if (!num(hi)) return false;
    } else {
      *hi = *lo;
    }
    if (p >= in_.size() || in_[p] != '}') return false;
    pos_ = p + 1;
    return true;
  }
  bool Alt(shim::Node* out, int depth) {
    if (depth > 900) return Err(ErrorBadPerlOp, "nested too deep", "");
    const Flags saved = f_;
    shim::Node alt;
    alt.kind = shim::Node::kAlt;
    shim::Node cat;
    cat.kind = shim::Node::kCat;
    std::string_view last_op;
    std::size_t last_end = std::string_view::npos;
    while (!End() && in_[pos_] != ')') {
      char c = in_[pos_];
      if (c == '|') { ++pos_; alt.kids.push_back(std::move(cat)); cat = shim::Node(); cat.kind = shim::Node::kCat; last_end = std::string_view::npos; continue; }
      if (c == '*' || c == '+' || c == '?' || c == '{') {
        const std::size_t at = pos_;
        int lo = c == '+' ? 1 : 0, hi = c == '?' ? 1 : -1;
        if (c == '{') {
          if (!RepCount(&lo, &hi)) { ++pos_; cat.kids.push_back(Lit('{')); last_end = std::string_view::npos; continue; }
          if (lo > 1000 || hi > 1000 || (hi >= 0 && hi < lo)) return Err(ErrorRepeatSize, "bad repetition operator", in_.substr(at, pos_ - at));
        } else {
          ++pos_;
        }
        bool greedy = !f_.u;
        if (!End() && in_[pos_] == '?') { greedy = !greedy; ++pos_; }
        if (last_end == at) return Err(ErrorRepeatOp, "bad repetition operator", std::string(last_op) + std::string(in_.substr(at, pos_ - at)));
        if (cat.kids.empty()) return Err(ErrorRepeatArgument, "no argument for repetition operator", in_.substr(at, pos_ - at));
        last_op = in_.substr(at, pos_ - at);
        last_end = pos_;
        shim::Node r;
        r.kind = shim::Node::kRep;
        r.lo = lo;
        r.hi = hi;
        r.greedy = greedy;
        r.kids.push_back(std::move(cat.kids.back()));
        cat.kids.back() = std::move(r);
        continue;
      }
      shim::Node n;
      bool skip = false;
      switch (c) {
        case '(': {
          const std::size_t at = pos_++;
          bool cap = true;
          if (!End() && in_[pos_] == '?') {
            cap = false;
            ++pos_;
            if (in_.substr(pos_).starts_with("P<") || (in_.substr(pos_).starts_with("<") && !in_.substr(pos_).starts_with("<=") && !in_.substr(pos_).starts_with("<!"))) {
              std::size_t b = in_.find('<', pos_) + 1, e = in_.find('>', b);
              if (e == std::string_view::npos || e == b) return Err(ErrorBadNamedCapture, "invalid named capture group", in_.substr(at));
              for (std::size_t k = b; k < e; ++k) if (!shim::Word(in_[k])) return Err(ErrorBadNamedCapture, "invalid named capture group", in_.substr(at, e + 1 - at));
              pos_ = e + 1;
              cap = true;
            } else {
              Flags f = f_;
              bool neg = false, flag_seen = false;
              for (;; ++pos_) {
                if (End()) return Err(ErrorMissingParen, "missing )", in_.substr(at));
                char d = in_[pos_];
                if (d == ':' || d == ')') break;
                if (d == '-' && !neg) { neg = true; flag_seen = false; continue; }
                flag_seen = true;
                if (d == 'i') f.i = !neg; else if (d == 'm') f.m = !neg; else if (d == 's') f.s = !neg; else if (d == 'U') f.u = !neg;
                else return Err(ErrorBadPerlOp, "invalid perl operator", in_.substr(at, pos_ + 1 - at));
              }
              if (neg && !flag_seen) return Err(ErrorBadPerlOp, "invalid perl operator", in_.substr(at, pos_ + 1 - at));
              if (in_[pos_++] == ')') { f_ = f; skip = true; break; }
              const Flags outer = f_;
              f_ = f;
              if (!Alt(&n, depth + 1)) return false;
              f_ = outer;
              if (End()) return Err(ErrorMissingParen, "missing )", in_);
              ++pos_;
              break;
            }
          }
          const int index = cap ? ++ncap_ : 0;
          shim::Node body;
          const Flags outer = f_;
          if (!Alt(&body, depth + 1)) return false;
          f_ = outer;
          if (End()) return Err(ErrorMissingParen, "missing )", in_);
          ++pos_;
          n.kind = shim::Node::kCap;
          n.index = index;
          n.kids.push_back(std::move(body));
          break;
        }
        case '[':
          ++pos_;
          if (!Class(&n)) return false;
          break;
        case '.':
          ++pos_;
          n.kind = shim::Node::kSet;
          n.negated = true;
          if (!f_.s) n.set = {{'\n', '\n'}};
          break;
        case '^': ++pos_; n = Assert(f_.m ? '<' : 'A'); break;
        case '$': ++pos_; n = Assert(f_.m ? '>' : 'z'); break;
        case '\\': {
          char d = pos_ + 1 < in_.size() ? in_[pos_ + 1] : 0;
          if (d == 'b' || d == 'B' || d == 'A' || d == 'z') { pos_ += 2; n = Assert(d); break; }
          if (d == 'p' || d == 'P' || d == 'C') Unsupported("\\p or \\C");
          if (d == 'Q') {
            std::size_t e = in_.find("\\E", pos_ + 2), stop = e == std::string_view::npos ? in_.size() : e;
            for (pos_ += 2; pos_ < stop;) { int r = 0; if (!Rune(&r)) return false; cat.kids.push_back(Lit(r)); }
            pos_ = e == std::string_view::npos ? in_.size() : e + 2;
            skip = true;
            break;
          }
          if (pos_ + 1 < in_.size() && Perl(d, &n.set)) { pos_ += 2; n.kind = shim::Node::kSet; break; }
          int v = 0;
          if (!Escape(&v)) return false;
          n = Lit(v);
          break;
        }
        default: {
          int v = 0;
          if (!Rune(&v)) return false;
          n = Lit(v);
        }
      }
      last_end = std::string_view::npos;
      if (!skip) cat.kids.push_back(std::move(n));
    }
    alt.kids.push_back(std::move(cat));
    *out = std::move(alt);
    (void)saved;
    return true;
  }
  // ---- Compilation.
  bool Emit(const shim::Node& n) {
    using shim::Inst;
    using shim::Node;
    if (prog_.size() > 200000) return Err(ErrorPatternTooLarge, "pattern too large - compile failed", "");
    auto add = [&](Inst i) { prog_.push_back(std::move(i)); return int(prog_.size()) - 1; };
    switch (n.kind) {
      case Node::kEmpty: return true;
      case Node::kSet: add({Inst::kSet, 0, 0, n.set, n.negated, 0}); return true;
      case Node::kAssert: add({Inst::kAssert, 0, 0, {}, false, n.what}); return true;
      case Node::kCat:
        for (auto& k : n.kids) if (!Emit(k)) return false;
        return true;
      case Node::kCap:
        if (!n.index) return Emit(n.kids[0]);
        add({Inst::kSave, 2 * n.index, 0, {}, false, 0});
        if (!Emit(n.kids[0])) return false;
        add({Inst::kSave, 2 * n.index + 1, 0, {}, false, 0});
        return true;
      case Node::kAlt: {
        std::vector<int> outs;
        for (std::size_t i = 0; i < n.kids.size(); ++i) {
          int s = i + 1 < n.kids.size() ? add({Inst::kSplit, 0, 0, {}, false, 0}) : -1;
          if (s >= 0) prog_[s].x = s + 1;
          if (!Emit(n.kids[i])) return false;
          if (s >= 0) { outs.push_back(add({Inst::kJmp, 0, 0, {}, false, 0})); prog_[s].y = int(prog_.size()); }
        }
        for (int o : outs) prog_[o].x = int(prog_.size());
        return true;
      }
      case Node::kRep: {
        for (int i = 0; i < n.lo; ++i) if (!Emit(n.kids[0])) return false;
        auto split = [&](int s, int in, int out) { prog_[s].x = n.greedy ? in : out; prog_[s].y = n.greedy ? out : in; };
        if (n.hi < 0) {
          int s = add({Inst::kSplit, 0, 0, {}, false, 0});
          if (!Emit(n.kids[0])) return false;
          add({Inst::kJmp, s, 0, {}, false, 0});
          split(s, s + 1, int(prog_.size()));
        } else {
          std::vector<int> ss;
          for (int i = n.lo; i < n.hi; ++i) {
            ss.push_back(add({Inst::kSplit, 0, 0, {}, false, 0}));
            if (!Emit(n.kids[0])) return false;
          }
          for (int s : ss) split(s, s + 1, int(prog_.size()));
        }
        return true;
      }
    }
    return true;
  }
  void Compile() {
    in_ = pattern_;
    f_.i = !options_.case_sensitive();
    f_.s = options_.dot_nl();
    shim::Node root;
    if (options_.literal()) {
      root.kind = shim::Node::kCat;
      while (!End()) { int r = 0; if (!Rune(&r)) break; root.kids.push_back(Lit(r)); }
    } else if (Alt(&root, 0) && !End()) {
      Err(ErrorUnexpectedParen, "unexpected )", pattern_);
    }
    if (ok()) Emit(root);
    if (ok()) prog_.push_back({shim::Inst::kMatch, 0, 0, {}, false, 0}); else prog_.clear();
    in_ = {};
  }
  // ---- Matching.
  bool Run(std::string_view t, std::size_t start, Anchor anchor, std::vector<int>* m) const {
    if (!ok()) return false;
    const int slots = 2 * (ncap_ + 1);
    struct Thread { int pc; std::vector<int> cap; };
    std::vector<Thread> cur, next;
    std::vector<std::size_t> mark(prog_.size(), ~std::size_t(0));
    std::size_t gen = 0;
    bool matched = false;
    auto follow = [&](std::vector<Thread>& list, int pc0, std::vector<int> cap0, std::size_t i) {
      struct Todo { int pc; int slot; int old; };
      std::vector<Todo> st{{pc0, -1, 0}};
      std::vector<int> cap = std::move(cap0);
      while (!st.empty()) {
        Todo d = st.back();
        st.pop_back();
        if (d.slot >= 0) { cap[d.slot] = d.old; continue; }
        int pc = d.pc;
        for (;;) {
          if (mark[pc] == gen) break;
          mark[pc] = gen;
          const shim::Inst& in = prog_[pc];
          if (in.op == shim::Inst::kJmp) { pc = in.x; continue; }
          if (in.op == shim::Inst::kSplit) { st.push_back({in.y, -1, 0}); pc = in.x; continue; }
          if (in.op == shim::Inst::kSave) { st.push_back({0, in.x, cap[in.x]}); cap[in.x] = int(i); ++pc; continue; }
          if (in.op == shim::Inst::kAssert) {
            bool ok = false;
            const bool w0 = i > 0 && shim::Word(static_cast<unsigned char>(t[i - 1])), w1 = i < t.size() && shim::Word(static_cast<unsigned char>(t[i]));
            switch (in.what) {
              case 'A': ok = i == 0; break;
              case 'z': ok = i == t.size(); break;
              case '<': ok = i == 0 || t[i - 1] == '\n'; break;
              case '>': ok = i == t.size() || t[i] == '\n'; break;
              case 'b': ok = w0 != w1; break;
              case 'B': ok = w0 == w1; break;
              default: break;
            }
            if (!ok) break;
            ++pc;
            continue;
          }
          list.push_back({pc, cap});
          break;
        }
      }
    };
    for (std::size_t i = start;; ) {
      int len = 1;
      const int c = i < t.size() ? shim::Decode(t, i, &len) : -1;
      // `cur` was filled for position i under mark generation `gen`.
      if (!matched && (anchor == UNANCHORED || i == start)) {
        if (cur.empty()) ++gen;
        std::vector<int> cap(slots, -1);
        cap[0] = int(i);
        follow(cur, 0, std::move(cap), i);
      }
      if (cur.empty() && (matched || anchor != UNANCHORED)) break;
      ++gen;
      next.clear();
      for (auto& th : cur) {
        const shim::Inst& in = prog_[th.pc];
        if (in.op == shim::Inst::kMatch) {
          if (anchor == ANCHOR_BOTH && i != t.size()) continue;
          *m = th.cap;
          (*m)[1] = int(i);
          matched = true;
          break;  // lower-priority threads are cut off
        }
        if (i < t.size() && shim::Has(in.set, in.negated, c)) follow(next, th.pc + 1, std::move(th.cap), i + std::size_t(len));
      }
      cur.swap(next);
      if (i >= t.size()) break;
      i += std::size_t(len);
    }
    return matched;
  }

  const std::string pattern_;
  const Options options_;
  ErrorCode code_ = NoError;
  std::string error_, arg_;
  int ncap_ = 0;
  std::vector<shim::Inst> prog_;
  std::string_view in_;
  std::size_t pos_ = 0;
  Flags f_;
};

class LazyRE2 {
 public:
  const RE2& operator*() const { return *Get(); }
  const RE2* operator->() const { return Get(); }
  const RE2* Get() const {
    static std::mutex mu;
    static auto* all = new std::map<std::string_view, const RE2*>;
    std::lock_guard l(mu);
    auto& r = (*all)[pattern_];
    if (!r) r = new RE2(pattern_);
    return r;
  }
  const char* pattern_ = "";
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
