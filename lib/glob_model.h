// Reference model of glob patterns: generated syntax trees, their text, and a direct matcher.
#ifndef VERIF_GLOB_MODEL_H_
#define VERIF_GLOB_MODEL_H_
#include <cctype>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "pbt.h"

namespace globm {

inline std::vector<char32_t> Decode(std::string_view s) {  // s is valid UTF-8.
  std::vector<char32_t> r;
  for (std::size_t i = 0; i < s.size();) {
    const unsigned char c = static_cast<unsigned char>(s[i]);
    const int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    char32_t v = n == 1 ? c : c & (0xff >> (n + 1));
    for (int k = 1; k < n; ++k) v = v << 6 | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 0x3f);
    r.push_back(v);
    i += static_cast<std::size_t>(n);
  }
  return r;
}
inline std::string Encode(char32_t c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xc0 | c >> 6); s += static_cast<char>(0x80 | (c & 0x3f)); }
  else { s += static_cast<char>(0xe0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 0x3f)); s += static_cast<char>(0x80 | (c & 0x3f)); }
  return s;
}

inline bool InClass(std::string_view name, char32_t u) {
  if (u >= 128) return false;
  const int c = static_cast<int>(u);
  if (name == "alpha") return std::isalpha(c);
  if (name == "digit") return std::isdigit(c);
  if (name == "alnum") return std::isalnum(c);
  if (name == "upper") return std::isupper(c);
  if (name == "lower") return std::islower(c);
  if (name == "space") return std::isspace(c);
  if (name == "punct") return std::ispunct(c);
  if (name == "xdigit") return std::isxdigit(c);
  if (name == "cntrl") return std::iscntrl(c);
  if (name == "print") return std::isprint(c);
  if (name == "graph") return std::isgraph(c);
  if (name == "blank") return c == ' ' || c == '\t';
  if (name == "word") return std::isalnum(c) || c == '_';
  return false;
}
inline const std::vector<std::string>& ClassNames() {
  static const std::vector<std::string> k = {"alpha", "digit", "alnum", "upper", "lower", "space", "punct", "xdigit", "cntrl", "print", "graph", "blank", "word"};
  return k;
}

struct Tok {
  enum Kind { kLit, kSlash, kAny, kStar, kStarStar, kRange } kind = kLit;
  char32_t lit = 0;
  bool neg = false;
  std::vector<std::pair<char32_t, char32_t>> ranges;
  std::vector<std::string> classes;
  std::string text;  // how it is written
  bool Wild() const { return kind != kLit && kind != kSlash; }
  bool Has(char32_t c) const {
    bool in = false;
    for (auto [a, b] : ranges) in |= a <= c && c <= b;
    for (const auto& n : classes) in |= InClass(n, c);
    return in != neg;
  }
};
using Toks = std::vector<Tok>;

struct Opts {
  bool star_star = true, ranges = true;
};

inline const std::vector<char32_t>& LitChars() {
  static const std::vector<char32_t> k = {'a', 'b', 'a', 'b', 'c', 'd', 'n', 'w', 's', 'A', 'Q', 'E', 'z', '0', '1', '_', '.', '.', '^', '$', '+', '(', ')', '{', '}', '|', ']', '-', '!', ' ', '#', ',', '=', '~', '&', '%', '@', '"', '\'', ':', ';', '<', '>', '\\', '*', '?', '[', 0xe9, 0x20ac, '\n', '\t'};
  return k;
}

inline Tok MakeLit(pbt::Src& src, char32_t c, const Opts& o) {
  Tok t{.kind = Tok::kLit, .lit = c};
  const bool must = c == '\\' || c == '*' || c == '?' || (c == '[' && o.ranges);
  t.text = (must || src.Chance(1, 5) ? "\\" : "") + Encode(c);
  return t;
}
inline Tok GenRange(pbt::Src& src) {
  Tok t{.kind = Tok::kRange};
  t.neg = src.Chance(1, 3);
  t.text = t.neg ? "[!" : "[";
  const std::size_t n = src.Size(1, 4);
  bool first = true, last_dash = false;
  auto single = [&](char32_t c) { t.ranges.push_back({c, c}); };
  if (src.Chance(1, 6)) { t.text += "]"; single(']'); first = false; }
  else if (src.Chance(1, 6)) { t.text += "-"; single('-'); first = false; last_dash = true; }
  else if (!t.neg && src.Chance(1, 6)) { t.text += "^"; single('^'); first = false; }
  for (std::size_t i = 0; i < n; ++i) {
    switch (src.Draw(6)) {
      case 0: {
        // No raw bound after a leading dash, which would be a range itself.
        const auto [a, b] = src.Pick(std::vector<std::pair<char32_t, char32_t>>{{'a', 'c'}, {'a', 'z'}, {'b', 'b'}, {'A', 'Z'}, {'0', '1'}, {'0', '9'}, {'+', '.'}, {'.', '1'}, {'(', ')'}, {'!', '~'}, {0xe0, 0xff}});
        if (first && (a == '!' || a == '^')) break;
        if (a == '!' && src.Bool()) break;
        t.ranges.push_back({a, b});
        t.text += Encode(a) + "-" + Encode(b);
        break;
      }
      case 1: {
        const std::string name = src.Pick(ClassNames());
        t.classes.push_back(name);
        t.text += "[:" + name + ":]";
        break;
      }
      default: {
        const char32_t c = src.Chance(1, 12) ? U'/' : src.Pick(LitChars());
        const bool must = c == '\\' || c == ']' || c == '-' || c == '[' || ((c == '!' || c == '^') && first);
        t.text += (must || src.Chance(1, 5) ? "\\" : "") + Encode(c);
        single(c);
        break;
      }
    }
    first = t.text == "[" || t.text == "[!";
  }
  bool only_slash = t.classes.empty();  // Also the empty range.
  for (auto [a, b] : t.ranges) only_slash &= a == '/' && b == '/';
  if (only_slash) { t.text += "x"; single('x'); }
  if (!last_dash && src.Chance(1, 6)) { t.text += "-"; single('-'); }
  t.text += "]";
  return t;
}
inline Tok MakeSlash(pbt::Src& src, const Opts& o, bool plain) {
  Tok t{.kind = Tok::kSlash};
  t.text = "/";
  if (!plain && src.Chance(1, 4)) {
    static const char* const kForms[] = {"//", "\\/", "///", "/\\/", "[/]", "/[/]"};
    const std::size_t k = src.Draw(o.ranges ? 5 : 3);
    t.text = kForms[k];
  }
  return t;
}
inline Toks GenToks(pbt::Src& src, const Opts& o, std::size_t max) {
  Toks r;
  const std::size_t n = src.Size(0, max);
  const bool wild = src.Chance(5, 6);
  for (std::size_t i = 0; i < n; ++i) {
    const Tok* last = r.empty() ? nullptr : &r.back();
    const bool star = last && (last->kind == Tok::kStar || last->kind == Tok::kStarStar);
    switch (wild ? src.Weighted({8, 6, 2, 3, 4, 3}) : src.Weighted({8, 6})) {
      case 1:
        if (last && last->kind == Tok::kSlash) break;
        r.push_back(MakeSlash(src, o, last && last->kind == Tok::kLit && last->lit == ':'));
        break;
      case 2: r.push_back({.kind = Tok::kAny, .text = "?"}); break;
      case 3: if (!star) r.push_back({.kind = Tok::kStar, .text = "*"}); break;
      case 4:
        if (!star) r.push_back({.kind = o.star_star ? Tok::kStarStar : Tok::kStar, .text = std::string(src.Chance(1, 4) ? src.Size(3, 5) : 2, '*')});
        break;
      case 5:
        if (o.ranges) { r.push_back(GenRange(src)); break; }
        [[fallthrough]];
      default: r.push_back(MakeLit(src, src.Pick(LitChars()), o)); break;
    }
  }
  // '**/**' at the start: the documentation and the tests disagree.
  while (r.size() >= 3 && r[0].kind == Tok::kStarStar && r[1].kind == Tok::kSlash && r[2].kind == Tok::kStarStar) r.erase(r.begin(), r.begin() + 2);
  return r;
}
inline std::string Text(const Toks& t) {
  std::string r;
  for (const auto& x : t) r += x.text;
  return r;
}

// Direct matcher. `slash`: whether a range that contains '/' matches one.
class Matcher {
 public:
  Matcher(Toks toks, bool slash) : t_(std::move(toks)), slash_(slash) {
    if (t_.size() > 1 && t_.back().kind == Tok::kSlash) t_.pop_back();
    for (std::size_t i = 0; i < t_.size(); ++i) {
      const bool next_slash = i + 1 < t_.size() && t_[i + 1].kind == Tok::kSlash;
      const bool end = i + 1 == t_.size();
      if (t_[i].kind == Tok::kStarStar) {
        if (!ops_.empty() && ops_.back().kind == Op::kTok && t_[ops_.back().tok].kind == Tok::kSlash && (next_slash || end)) {
          ops_.back() = {Op::kOptSlashAny, i};
        } else if (i == 0 && next_slash) {
          ops_.push_back({Op::kOptAnySlash, i});
          ++i;
        } else {
          ops_.push_back({Op::kAll, i});
        }
      } else if (t_[i].kind == Tok::kStar) {
        ops_.push_back({Op::kRun, i});
      } else {
        ops_.push_back({Op::kTok, i});
      }
    }
  }
  bool Match(std::string_view text) {
    s_ = Decode(text);
    memo_.clear();
    return M(0, 0);
  }

 private:
  struct Op { enum Kind { kTok, kRun, kAll, kOptSlashAny, kOptAnySlash } kind; std::size_t tok; };
  bool One(const Tok& t, char32_t c) const {
    switch (t.kind) {
      case Tok::kLit: return c == t.lit;
      case Tok::kSlash: return c == '/';
      case Tok::kAny: return c != '/';
      default: return c == '/' ? slash_ && t.Has(c) : t.Has(c);
    }
  }
  bool M(std::size_t i, std::size_t p) {
    if (i == ops_.size()) return p == s_.size();
    auto [it, fresh] = memo_.try_emplace({i, p}, false);
    if (!fresh) return it->second;
    bool r = false;
    const Op& o = ops_[i];
    switch (o.kind) {
      case Op::kTok: r = p < s_.size() && One(t_[o.tok], s_[p]) && M(i + 1, p + 1); break;
      case Op::kRun:
        for (std::size_t q = p;; ++q) {
          if (M(i + 1, q)) { r = true; break; }
          if (q >= s_.size() || s_[q] == '/') break;
        }
        break;
      case Op::kAll:
        for (std::size_t q = p; q <= s_.size() && !r; ++q) r = M(i + 1, q);
        break;
      case Op::kOptSlashAny:
        r = M(i + 1, p);
        if (!r && p < s_.size() && s_[p] == '/') {
          for (std::size_t q = p + 2; q <= s_.size() && !r; ++q) r = M(i + 1, q);
        }
        break;
      case Op::kOptAnySlash:
        r = M(i + 1, p);
        for (std::size_t q = p + 2; q <= s_.size() && !r; ++q) r = s_[q - 1] == '/' && M(i + 1, q);
        break;
    }
    return memo_[{i, p}] = r;
  }
  Toks t_;
  std::vector<Op> ops_;
  bool slash_;
  std::vector<char32_t> s_;
  std::map<std::pair<std::size_t, std::size_t>, bool> memo_;
};

// A text that the pattern is likely to match, sometimes changed.
inline std::string GenText(pbt::Src& src, const Toks& toks) {
  std::string r;
  auto any = [&] { return Encode(src.Chance(1, 2) ? U'a' + static_cast<char32_t>(src.Draw(1)) : src.Pick(LitChars())); };
  for (std::size_t i = 0; i < toks.size(); ++i) {
    const Tok& t = toks[i];
    if (src.Chance(1, 25)) continue;
    if (src.Chance(1, 25)) r += any();
    switch (t.kind) {
      case Tok::kLit: r += Encode(src.Chance(1, 12) ? src.Pick(LitChars()) : t.lit); break;
      case Tok::kSlash:
        if (i + 1 == toks.size() && i > 0 && src.Chance(3, 4)) break;
        r += "/";
        break;
      case Tok::kAny: r += src.Chance(1, 10) ? "/" : any(); break;
      case Tok::kStar:
        for (std::size_t n = src.Size(0, 3); n > 0; --n) r += src.Chance(1, 12) ? "/" : any();
        break;
      case Tok::kStarStar: {
        const std::size_t n = src.Size(0, 3);
        if (n == 0 && r.ends_with('/') && src.Bool()) r.pop_back();
        for (std::size_t k = 0; k < n; ++k) r += (k ? "/" : "") + any() + (src.Bool() ? any() : "");
        if (n == 0 && i + 1 < toks.size() && toks[i + 1].kind == Tok::kSlash && src.Bool()) ++i;
        break;
      }
      case Tok::kRange: {
        std::vector<char32_t> in;
        for (char32_t c : LitChars()) if (t.Has(c)) in.push_back(c);
        for (auto [a, b] : t.ranges) { if (t.Has(a)) in.push_back(a); if (t.Has(b)) in.push_back(b); }
        r += in.empty() || src.Chance(1, 8) ? any() : Encode(src.Pick(in));
        break;
      }
    }
  }
  return r;
}

}  // namespace globm
#endif
