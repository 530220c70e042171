// S02: the string helpers against their plain definitions.
#include <cstdint>
#include <cstring>
#include <limits>
#include <list>
#include <string>
#include <string_view>
#include <vector>

#include "absl/strings/str_split.h"
#include "mbo/strings/contains.h"
#include "mbo/strings/indent.h"
#include "mbo/strings/numbers.h"
#include "mbo/strings/split.h"
#include "mbo/strings/strip.h"
#include "pbt.h"
#include "ref_parse.h"
namespace ms = mbo::strings;

namespace {
using S = std::string;
using SV = std::string_view;
bool Naive(const S& h, const S& n) {
  if (n.size() > h.size()) return false;
  for (size_t i = 0; i + n.size() <= h.size(); ++i) {
    size_t k = 0;
    while (k < n.size() && h[i + k] == n[k]) ++k;
    if (k == n.size()) return true;
  }
  return false;
}
S Text(pbt::Src& src, const S& alphabet, size_t most) {
  S r;
  for (size_t i = 0, n = src.Size(0, most); i < n; ++i) r += src.Chance(1, 15) ? char(src.Draw(255)) : alphabet[src.Draw(alphabet.size() - 1)];
  return r;
}
struct Exact {
  std::unique_ptr<char[]> p;
  SV view;
  explicit Exact(const S& s) : p(new char[s.size()]), view(p.get(), s.size()) { std::copy(s.begin(), s.end(), p.get()); }
};
std::vector<S> Lines(const S& s) {
  std::vector<S> r(1);
  for (char c : s) { if (c == '\n') r.emplace_back(); else r.back() += c; }
  return r;
}
S Join(const std::vector<S>& v) {
  S r;
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += '\n'; r += v[i]; }
  return r;
}
}  // namespace

PBT_PROP(contains, 20000, 300000, "the needle is not empty") {
  S h = Text(src, S("ab\0", 3), 14), n = src.Bool() && !h.empty() ? h.substr(src.Draw(h.size() - 1), src.Draw(4)) : Text(src, S("ab\0", 3), 4);
  if (!n.empty()) src.NonTrivial();
  PBT_NOTE(pbt::Quote(h), " ", pbt::Quote(n));
  Exact eh(h), en(n);
  PBT_EQ(ms::Contains(eh.view, en.view), Naive(h, n));
  char c = src.Bool() ? char(src.Draw(255)) : "ab\0c"[src.Draw(3)];
  PBT_EQ(ms::Contains(eh.view, c), Naive(h, S(1, c)), "char ", int(c));
  static_assert(ms::Contains("abc", "bc") && !ms::Contains("abc", "cb") && ms::Contains("", "") && ms::Contains("abc", 'c') && !ms::Contains("abc", '\0'));
}

PBT_PROP(prefix_suffix, 20000, 300000, "the text starts or ends with it") {
  S t = Text(src, "ab", 10);
  S a = src.Weighted({2, 2, 2}) == 0 ? Text(src, "ab", 5) : src.Bool() ? t.substr(0, src.Draw(t.size())) : t.substr(t.size() - src.Draw(t.size()));
  if (src.Chance(1, 6)) a += "a";
  bool pre = a.size() <= t.size() && std::equal(a.begin(), a.end(), t.begin());
  bool suf = a.size() <= t.size() && std::equal(a.rbegin(), a.rend(), t.rbegin());
  if ((pre || suf) && !a.empty()) src.NonTrivial();
  PBT_NOTE(pbt::Quote(t), " ", pbt::Quote(a));
  S no_pre = pre ? t.substr(a.size()) : t, no_suf = suf ? t.substr(0, t.size() - a.size()) : t;
  if (src.Bool()) t.reserve(100);
  Exact ea(a);
  { S x = t; PBT_EQ(ms::ConsumePrefix(x, ea.view), pre); PBT_EQ(x, no_pre, "ConsumePrefix"); }
  { S x = t; PBT_EQ(ms::ConsumeSuffix(x, ea.view), suf); PBT_EQ(x, no_suf, "ConsumeSuffix"); }
  { S x = t; PBT_EQ(ms::StripPrefix(std::move(x), ea.view), no_pre, "StripPrefix"); }
  { S x = t; PBT_EQ(ms::StripSuffix(std::move(x), ea.view), no_suf, "StripSuffix"); }
  // The prefix or suffix may be a part of the text itself.
  size_t k = src.Draw(t.size());
  { S x = t; PBT_CHECK(ms::ConsumePrefix(x, SV(x).substr(0, k)), "own prefix"); PBT_EQ(x, t.substr(k), "own prefix"); }
  { S x = t; PBT_CHECK(ms::ConsumeSuffix(x, SV(x).substr(k)), "own suffix"); PBT_EQ(x, t.substr(0, k), "own suffix"); }
  { S x = t; SV v = SV(x).substr(0, k); PBT_EQ(ms::StripPrefix(std::move(x), v), t.substr(k), "own prefix"); }
  { S x = t; SV v = SV(x).substr(k); PBT_EQ(ms::StripSuffix(std::move(x), v), t.substr(0, k), "own suffix"); }
}

namespace {
template<typename T> S Grouped(T v) {
  // Digits from the magnitude, without std::to_string.
  bool neg = false;
  unsigned __int128 m;
  if constexpr (std::is_signed_v<T>) { __int128 w = v; neg = w < 0; m = static_cast<unsigned __int128>(neg ? -w : w); }
  else m = v;
  S r;
  int n = 0;
  do {
    if (n && n % 3 == 0) r += '\'';
    r += char('0' + int(m % 10));
    m /= 10;
    ++n;
  } while (m != 0);
  if (neg) r += '-';
  return S(r.rbegin(), r.rend());
}
template<typename T> void Number(T v) {
  S want = Grouped(v);
  PBT_EQ(ms::BigNumber(v), want, sizeof(T), " byte number");
  PBT_EQ(size_t(ms::BigNumberLen(v)), want.size(), sizeof(T), " byte number ", want, " length");
}
template<typename T> void Random(pbt::Src& src) {
  using L = std::numeric_limits<T>;
  unsigned __int128 p = 1;
  switch (src.Draw(3)) {
    case 0: for (size_t k = src.Draw(19); k--;) p *= 10; Number(T(p + src.Draw(2) - 1)); if (std::is_signed_v<T>) Number(T(0 - T(p + src.Draw(2) - 1))); break;
    case 1: Number(T(src.U64())); break;
    case 2: Number(T(T(src.U64()) >> src.Draw(sizeof(T) * 8 - 1))); break;
    case 3: Number(T(L::min() + T(src.Draw(40)))); Number(T(L::max() - T(src.Draw(40)))); break;
  }
}
}  // namespace
PBT_PROP(numbers, 30000, 600000, "every case") {
  src.NonTrivial();
  switch (src.Draw(9)) {
    case 0: Random<int32_t>(src); break;
    case 1: Random<uint32_t>(src); break;
    case 2: Random<int64_t>(src); break;
    case 3: Random<uint64_t>(src); break;
    case 4: Random<long long>(src); break;
    case 5: Random<unsigned long long>(src); break;
    case 6: Random<char32_t>(src); break;
    case 7: Random<wchar_t>(src); break;
    case 8: Random<long>(src); break;
    case 9: Random<unsigned long>(src); break;
  }
}
PBT_PROP(numbers_small, 1, 1, "every case: all 8 and 16 bit numbers, all powers of ten and two with their neighbours") {
  src.NonTrivial();
  for (int i = -32768; i < 65536; ++i) {
    if (i >= -128 && i < 128) { Number(static_cast<signed char>(i)); Number(static_cast<char>(i)); }
    if (i >= 0 && i < 256) { Number(static_cast<unsigned char>(i)); Number(static_cast<char8_t>(i)); }
    if (i < 32768) Number(static_cast<short>(i));
    if (i >= 0) { Number(static_cast<unsigned short>(i)); Number(static_cast<char16_t>(i)); }
    Number(i);
    Number(long(i));
  }
  Number(false);
  Number(true);
  auto all = [](unsigned __int128 p) {
    for (int d = -2; d <= 2; ++d) {
      uint64_t u = uint64_t(p) + uint64_t(d);
      Number(u);
      Number(uint32_t(u));
      Number(int64_t(u));
      Number(int32_t(u));
      Number(int64_t(0 - u));
      Number(int32_t(0 - uint32_t(u)));
    }
  };
  unsigned __int128 p = 1;
  for (int k = 0; k < 20; ++k, p *= 10) all(p);
  for (int k = 0; k < 64; ++k) all(static_cast<unsigned __int128>(1) << k);
}

namespace {
// From the documentation: an empty first line goes; the next line's indent is removed from it and all that follow;
// a last line with only whitespace is cleared.
std::vector<S> Dropped(S text) {
  size_t first = 1;
  if (!text.empty() && text[0] == '\n') { text.erase(0, 1); first = 0; }
  std::vector<S> l = Lines(text);
  if (l.size() <= first) return l;
  size_t n = 0;
  while (n < l[first].size() && (l[first][n] == ' ' || l[first][n] == '\t')) ++n;
  S indent = l[first].substr(0, n);
  bool blank = true;
  for (char c : l.back()) if (c != ' ' && c != '\t') blank = false;
  if (blank) l.back().clear();
  for (size_t i = first; i < l.size(); ++i) if (l[i].compare(0, indent.size(), indent) == 0) l[i].erase(0, indent.size());
  return l;
}
}  // namespace
PBT_PROP(drop_indent, 30000, 500000, "at least three lines") {
  S t;
  if (src.Bool()) t = "\n";
  S indent = src.Bool() ? S(src.Draw(3), ' ') : src.Bool() ? "\t" : " \t ";
  size_t n = src.Size(0, 7);
  for (size_t i = 0; i < n; ++i) {
    if (i) t += '\n';
    if (!src.Chance(1, 5)) t += indent;
    t += Text(src, "ab \t", 4);
  }
  if (src.Chance(1, 3)) { t += '\n'; t += Text(src, " \t", 4); }
  PBT_NOTE(pbt::Quote(t));
  auto want = Dropped(t);
  if (want.size() >= 3) src.NonTrivial();
  Exact e(t);
  auto got = ms::DropIndentAndSplit(e.view);
  PBT_EQ(pbt::Show(std::vector<S>(got.begin(), got.end())), pbt::Show(want), pbt::Quote(t));
  if (t != "\n") PBT_EQ(ms::DropIndent(e.view), Join(want), pbt::Quote(t));
  // Text with an indent comes out as without it.
  if (n && src.Bool()) {
    std::vector<S> plain;
    S ind;
    for (size_t i = 0; i < n; ++i) {
      S line = Text(src, "ab \t", 4);
      for (char& c : line) if (c == '\n') c = '.';
      if (i == 0) line = "x" + line;
      plain.push_back(line);
      ind += "\n" + indent + line;
    }
    if (plain.back().find_first_not_of(" \t") == S::npos) plain.back().clear();
    PBT_EQ(ms::DropIndent(ind), Join(plain), pbt::Quote(ind));
  }
}

PBT_PROP(at_last, 20000, 300000, "the separator occurs at least twice") {
  char sep = "/ab\0"[src.Draw(3)];
  S t = Text(src, S("/a/b\0", 5), 12);
  size_t count = size_t(std::count(t.begin(), t.end(), sep));
  if (count > 1) src.NonTrivial();
  PBT_NOTE(pbt::Quote(t), " at ", pbt::Quote(S(1, sep)));
  std::vector<S> want;
  size_t at = t.size();
  for (size_t i = 0; i < t.size(); ++i) if (t[i] == sep) at = i;
  if (at == t.size()) want = {t};
  else want = {t.substr(0, at), t.substr(at + 1)};
  Exact e(t);
  std::vector<S> got = absl::StrSplit(e.view, ms::AtLast(sep));
  PBT_EQ(pbt::Show(got), pbt::Show(want), "split");
  std::pair<S, S> pair = absl::StrSplit(e.view, ms::AtLast(sep));
  PBT_EQ(pair.first, want[0], "pair");
  PBT_EQ(pair.second, want.size() > 1 ? want[1] : S(), "pair");
  std::vector<S> skip = absl::StrSplit(e.view, ms::AtLast(sep), absl::SkipEmpty()), ws;
  for (auto& w : want) if (!w.empty()) ws.push_back(w);
  PBT_EQ(pbt::Show(skip), pbt::Show(ws), "split without empty parts");
  // As a delimiter: the last separator at or behind a position.
  size_t pos = src.Draw(t.size());
  SV f = ms::AtLast(sep).Find(e.view, pos);
  if (at == t.size() || at < pos) PBT_CHECK(f.empty() && f.data() == e.view.data() + t.size(), "Find from ", pos, " without a separator");
  else PBT_CHECK(f.size() == 1 && f.data() == e.view.data() + at, "Find from ", pos, " gives offset ", f.data() - e.view.data());
}

namespace {
bool Space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
S Rtrim(S s) { while (!s.empty() && Space(s.back())) s.pop_back(); return s; }
}  // namespace
PBT_PROP(strip_comments, 30000, 500000, "a line has a comment") {
  S start = src.Chance(1, 12) ? "" : src.Bool() ? "#" : src.Bool() ? "//" : Text(src, "/#*", 3);
  if (start.find('\n') != S::npos) return;
  bool trim = src.Bool();
  S in;
  for (size_t i = 0, n = src.Size(0, 6); i < n; ++i) {
    if (i) in += '\n';
    in += Text(src, "ab \t/#*\r\v", 7);
    if (src.Bool()) in += start + Text(src, "ab #/", 4);
  }
  PBT_NOTE(pbt::Quote(in), " comments start with ", pbt::Quote(start));
  std::vector<S> want;
  for (S& l : Lines(in)) {
    size_t p = 0;
    while (p + start.size() <= l.size() && l.compare(p, start.size(), start) != 0) ++p;
    S w = l;
    if (p + start.size() <= l.size()) {
      w = l.substr(0, p);
      if (trim) w = Rtrim(w);
      if (p < l.size()) src.NonTrivial();
    }
    Exact e(l);
    PBT_EQ(S(ms::StripLineComments(e.view, {.comment_start = start, .strip_trailing_whitespace = trim})), w, "line ", pbt::Quote(l));
    want.push_back(w);
  }
  Exact e(in);
  PBT_EQ(ms::StripComments(e.view, {.comment_start = start, .strip_trailing_whitespace = trim}), Join(want));
}

PBT_PROP(strip_parsed_comments, 30000, 500000, "a line has a quote or an escape") {
  ref::ParseOpts o;
  o.stop_any = src.Bool() ? "#" : src.Bool() ? ";#" : "";
  if (src.Bool()) o.stop_str = "//";
  if (src.Chance(1, 4)) o.split = ",";
  o.remove = src.Bool();
  if (src.Chance(1, 4)) o.dq = false;
  if (src.Chance(1, 4)) o.sq = false;
  bool trim = src.Bool();
  S in;
  for (size_t i = 0, n = src.Size(0, 5); i < n; ++i) {
    if (i) in += '\n';
    for (size_t k = 0, m = src.Draw(5); k < m; ++k) {
      switch (src.Draw(5)) {
        case 0: case 1: in += Text(src, "ab \t/;,", 3); break;
        case 2: { char q = "'\""[src.Draw(1)]; in += q; in += Text(src, "a #/;'", 3); if (!src.Chance(1, 10)) in += q; break; }
        case 3: in += '\\'; in += "'\"#nt\\x"[src.Draw(6)]; break;
        case 4: in += src.Bool() ? "# c" : "// c 'x"; break;
        case 5: in += " \t"[src.Draw(1)]; break;
      }
    }
  }
  if (in.find_first_of("\\'\"") != S::npos) src.NonTrivial();
  ms::StripParsedCommentArgs args;
  args.parse.stop_at_any_of = o.stop_any;
  args.parse.stop_at_str = o.stop_str;
  args.parse.split_at_any_of = o.split;
  args.parse.remove_quotes = o.remove;
  args.parse.enable_double_quotes = o.dq;
  args.parse.enable_single_quotes = o.sq;
  args.strip_trailing_whitespace = trim;
  PBT_NOTE(pbt::Quote(in), " stop at ", pbt::Quote(o.stop_any), " ", pbt::Quote(o.stop_str), " ", pbt::Quote(o.split), o.remove ? " remove quotes" : "", trim ? " trim" : "");
  std::vector<S> want;
  bool bad = false, vague = false;
  for (S& l : Lines(in)) {
    ref::Parsed p = ref::Parse(o, l);
    vague = vague || p.vague;
    bool err = p.err != ref::Err::kNone;
    bad = bad || err;
    S w = trim ? Rtrim(p.text) : p.text;
    want.push_back(w);
    if (p.vague) continue;
    Exact e(l);
    auto got = ms::StripParsedLineComments(e.view, args);
    PBT_EQ(got.ok(), !err, "line ", pbt::Quote(l), " ", got.status().ToString());
    if (!err) PBT_EQ(*got, w, "line ", pbt::Quote(l));
  }
  if (vague) return;
  Exact e(in);
  auto got = ms::StripParsedComments(e.view, args);
  PBT_EQ(got.ok(), !bad, got.status().ToString());
  if (!bad) PBT_EQ(*got, Join(want));
}
