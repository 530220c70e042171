// Shared parts of the diff checks: text generators, an edit script model, a
// strict reader of unified diffs and a reference renderer of all formats.
#ifndef VERIF_DIFF_COMMON_H_
#define VERIF_DIFF_COMMON_H_
#include <algorithm>
#include <cstddef>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/diff/diff.h"
#include "mbo/file/artefact.h"
#include "pbt.h"

namespace difft {

using mbo::diff::Diff;
using mbo::diff::DiffOptions;
using Algo = DiffOptions::Algorithm;
using Format = DiffOptions::OutputFormat;
using mbo::file::Artefact;

inline constexpr std::string_view kNoNl = "\\ No newline at end of file";

struct Line {
  std::string text;
  bool nl = true;
  bool operator==(const Line&) const = default;
};
using Text = std::vector<Line>;

inline Text Split(std::string_view s) {
  Text r;
  while (!s.empty()) {
    const std::size_t p = s.find('\n');
    if (p == s.npos) {
      r.push_back({std::string(s), false});
      break;
    }
    r.push_back({std::string(s.substr(0, p)), true});
    s.remove_prefix(p + 1);
  }
  return r;
}
inline std::string Join(const Text& t) {
  std::string r;
  for (const Line& l : t) r += l.text + (l.nl ? "\n" : "");
  return r;
}

struct Entry {
  char kind;
  Line line;
};
using Script = std::vector<Entry>;

struct Hunk {
  std::size_t lhs = 0, lhs_n = 0, rhs = 0, rhs_n = 0;  // 0-based positions
  Script entries;
};

// ---- Generation.
inline const std::vector<std::string>& NastyLines() {
  static const auto* v = new std::vector<std::string>{
      "",   " ",  "-",  "+",  "- x", "+ x", "--- a", "+++ b", "@@ -1 +1 @@", "*** 1 ****", "--- 1 ----", "***************", "1c1", "---", "< a", "> b", std::string(kNoNl), "\\", "a\r", "\t", std::string("\0z", 2), "\xff\x80", "%s%n", std::string(200, 'w'), "a  ", "  a"};
  return *v;
}
struct LineSource {
  std::vector<std::string> lines;
};
inline LineSource GenLines(pbt::Src& src, bool plain = false) {
  LineSource ls;
  const std::size_t n = src.Size(1, 6) * (src.Chance(1, 4) ? 4 : 1);
  for (std::size_t i = 0; i < n; ++i) {
    switch (src.Weighted({5, plain ? 0U : 3U, 1, plain ? 0U : 1U})) {
      case 0: ls.lines.push_back(std::string(1, static_cast<char>('a' + (i % 26)))); break;
      case 1: ls.lines.push_back(src.Pick(NastyLines())); break;
      case 2: ls.lines.push_back(""); break;
      default: {
        std::string s = src.RawBytes(6);
        std::erase(s, '\n');
        ls.lines.push_back(s);
      }
    }
  }
  return ls;
}
inline std::vector<std::string> GenSeq(pbt::Src& src, const LineSource& ls, std::size_t max) {
  std::vector<std::string> r;
  const std::size_t n = src.SkewSize(max);
  while (r.size() < n) {
    if (src.Chance(1, 5)) {  // a run of equal lines, or a repeated block
      const std::size_t k = src.Size(1, 6);
      if (src.Bool() && !r.empty()) {
        const std::size_t b = src.Size(0, r.size() - 1), m = std::min<std::size_t>(k, r.size() - b);
        for (std::size_t i = 0; i < m; ++i) r.push_back(std::string(r[b + i]));
      } else {
        const std::string s = src.Pick(ls.lines);
        for (std::size_t i = 0; i < k; ++i) r.push_back(s);
      }
    } else {
      r.push_back(src.Pick(ls.lines));
    }
  }
  return r;
}
inline std::string Render(const std::vector<std::string>& v, bool nl) {
  std::string r;
  for (std::size_t i = 0; i < v.size(); ++i) r += v[i] + (i + 1 < v.size() || nl ? "\n" : "");
  return r;
}
inline void Mutate(pbt::Src& src, std::vector<std::string>* v, const LineSource& ls, std::size_t ops) {
  for (; ops > 0; --ops) {
    const std::size_t at = src.Size(0, v->size());
    const std::size_t len = std::min(src.Size(1, 4), v->size() - at);
    const auto b = v->begin() + static_cast<std::ptrdiff_t>(at), e = b + static_cast<std::ptrdiff_t>(len);
    switch (src.Draw(4)) {
      case 0: {
        std::vector<std::string> add;
        for (std::size_t i = src.Size(1, 4); i > 0; --i) add.push_back(src.Pick(ls.lines));
        v->insert(b, add.begin(), add.end());
        break;
      }
      case 1: v->erase(b, e); break;
      case 2:
        for (auto i = b; i != e; ++i) *i = src.Pick(ls.lines);
        break;
      case 3: {  // move a block
        std::vector<std::string> cut(b, e);
        v->erase(b, e);
        v->insert(v->begin() + static_cast<std::ptrdiff_t>(src.Size(0, v->size())), cut.begin(), cut.end());
        break;
      }
      default: std::reverse(b, e); break;
    }
  }
}
struct Pair {
  std::string lhs, rhs;
};
inline Pair GenPair(pbt::Src& src, std::size_t max, bool plain = false) {
  const LineSource ls = GenLines(src, plain);
  std::vector<std::string> l = GenSeq(src, ls, max), r;
  switch (src.Weighted({4, 2, 1})) {
    case 0:
      r = l;
      Mutate(src, &r, ls, src.Size(0, 5));
      break;
    case 1: r = GenSeq(src, ls, max); break;
    default:  // few common lines
      r = GenSeq(src, ls, max);
      for (std::string& s : r) {
        if (!src.Chance(1, 6)) s += "'";
      }
  }
  const bool ln = !src.Chance(1, 5), rn = !src.Chance(1, 5);
  // An unterminated last line that is empty is the same as a terminated one.
  return {Render(l, ln || (!l.empty() && l.back().empty())), Render(r, rn || (!r.empty() && r.back().empty()))};
}

// ---- Reading.
inline bool Number(std::string_view* s, std::size_t* n) {
  std::size_t i = 0;
  *n = 0;
  while (i < s->size() && (*s)[i] >= '0' && (*s)[i] <= '9') *n = *n * 10 + std::size_t((*s)[i++] - '0');
  s->remove_prefix(i);
  return i > 0;
}
inline bool Eat(std::string_view* s, std::string_view p) {
  if (!s->starts_with(p)) return false;
  s->remove_prefix(p.size());
  return true;
}
inline bool TakeLine(std::string_view* s, std::string_view* line) {
  const std::size_t p = s->find('\n');
  if (p == s->npos) return false;
  *line = s->substr(0, p);
  s->remove_prefix(p + 1);
  return true;
}
// Reads hunks of a unified diff without file header. Empty result and *err set
// when it is not well-formed.
inline std::vector<Hunk> ReadUnified(std::string_view out, std::string* err) {
  std::vector<Hunk> hunks;
  while (!out.empty()) {
    std::string_view line;
    auto bad = [&](const char* what) { *err = std::string(what) + " at " + pbt::Quote(line); return std::vector<Hunk>(); };
    if (!TakeLine(&out, &line)) return bad("unterminated line");
    std::string_view h = line;
    Hunk k;
    k.lhs_n = k.rhs_n = 1;
    if (!Eat(&h, "@@ -") || !Number(&h, &k.lhs)) return bad("bad hunk header");
    if (Eat(&h, ",") && !Number(&h, &k.lhs_n)) return bad("bad hunk header");
    if (!Eat(&h, " +") || !Number(&h, &k.rhs)) return bad("bad hunk header");
    if (Eat(&h, ",") && !Number(&h, &k.rhs_n)) return bad("bad hunk header");
    if (h != " @@") return bad("bad hunk header");
    if (k.lhs_n > 0) { if (k.lhs == 0) return bad("line number 0"); --k.lhs; }
    if (k.rhs_n > 0) { if (k.rhs == 0) return bad("line number 0"); --k.rhs; }
    std::size_t l = 0, r = 0;
    while (l < k.lhs_n || r < k.rhs_n) {
      if (!TakeLine(&out, &line)) return bad("hunk too short");
      if (line.empty()) return bad("line without prefix");
      const char c = line[0];
      if (c != ' ' && c != '-' && c != '+') return bad("bad line prefix");
      l += c != '+';
      r += c != '-';
      if (l > k.lhs_n || r > k.rhs_n) return bad("hunk too long");
      k.entries.push_back({c, {std::string(line.substr(1)), true}});
      if (out.starts_with("\\")) {
        if (!TakeLine(&out, &line) || line != kNoNl) return bad("bad marker");
        k.entries.back().line.nl = false;
      }
    }
    hunks.push_back(std::move(k));
  }
  return hunks;
}
// Applies hunks strictly at their positions. Returns nullopt and sets *err when they do not fit.
inline std::optional<Text> Apply(const Text& lhs, const std::vector<Hunk>& hunks, std::string* err) {
  Text out;
  std::size_t at = 0;
  for (const Hunk& h : hunks) {
    if (h.lhs < at || h.lhs > lhs.size()) { *err = "hunk out of order or out of range"; return std::nullopt; }
    while (at < h.lhs) out.push_back(lhs[at++]);
    if (out.size() != h.rhs) { *err = "wrong right position " + std::to_string(h.rhs) + " != " + std::to_string(out.size()); return std::nullopt; }
    for (const Entry& e : h.entries) {
      if (e.kind != '+') {
        if (at >= lhs.size() || !(lhs[at] == e.line)) { *err = "line does not match the left side: " + pbt::Quote(e.line.text); return std::nullopt; }
        ++at;
      }
      if (e.kind != '-') out.push_back(e.line);
    }
  }
  while (at < lhs.size()) out.push_back(lhs[at++]);
  return out;
}

// ---- Reference rendering.
inline std::vector<Hunk> Group(const Script& s, std::size_t ctx) {
  std::vector<Hunk> r;
  std::vector<std::pair<std::size_t, std::size_t>> changes;  // [begin, end) of changed runs
  for (std::size_t i = 0; i < s.size();) {
    if (s[i].kind == ' ') { ++i; continue; }
    std::size_t b = i;
    while (i < s.size() && s[i].kind != ' ') ++i;
    changes.emplace_back(b, i);
  }
  std::vector<std::pair<std::size_t, std::size_t>> spans;
  for (auto [b, e] : changes) {
    if (!spans.empty() && (b - spans.back().second + 1) / 2 <= ctx) spans.back().second = e; else spans.emplace_back(b, e);
  }
  for (auto [b, e] : spans) {
    const std::size_t b2 = b - std::min(b, ctx), e2 = e + std::min(s.size() - e, ctx);
    Hunk h;
    for (std::size_t i = 0; i < b2; ++i) { h.lhs += s[i].kind != '+'; h.rhs += s[i].kind != '-'; }
    for (std::size_t i = b2; i < e2; ++i) {
      h.entries.push_back(s[i]);
      h.lhs_n += s[i].kind != '+';
      h.rhs_n += s[i].kind != '-';
    }
    r.push_back(std::move(h));
  }
  return r;
}
inline std::string Full(const Line& l) { return l.text + "\n" + (l.nl ? "" : std::string(kNoNl) + "\n"); }
inline std::string RenderHunks(const std::vector<Hunk>& hunks, Format f, std::size_t width = 130) {
  std::string o;
  auto num = [](std::size_t n) { return std::to_string(n); };
  auto range = [&](std::size_t idx, std::size_t n) { return n <= 1 ? num(idx + n) : num(idx + 1) + "," + num(idx + n); };
  for (const Hunk& h : hunks) {
    const Script& s = h.entries;
    switch (f) {
      case Format::kUnified: {
        auto pos = [&](std::size_t idx, std::size_t n) { return n == 0 ? num(idx) + ",0" : n == 1 ? num(idx + 1) : num(idx + 1) + "," + num(n); };
        o += "@@ -" + pos(h.lhs, h.lhs_n) + " +" + pos(h.rhs, h.rhs_n) + " @@\n";
        for (const Entry& e : s) o += std::string(1, e.kind) + Full(e.line);
        break;
      }
      case Format::kContext: {
        std::string l, r;
        bool del = false, add = false;
        for (std::size_t i = 0; i < s.size();) {
          if (s[i].kind == ' ') { l += "  " + Full(s[i].line); r += "  " + Full(s[i].line); ++i; continue; }
          std::size_t d = i;
          while (d < s.size() && s[d].kind == '-') ++d;
          std::size_t a = d;
          while (a < s.size() && s[a].kind == '+') ++a;
          const bool both = d > i && a > d;
          for (std::size_t k = i; k < d; ++k) { l += (both ? "! " : "- ") + Full(s[k].line); del = true; }
          for (std::size_t k = d; k < a; ++k) { r += (both ? "! " : "+ ") + Full(s[k].line); add = true; }
          i = a;
        }
        o += "***************\n*** " + range(h.lhs, h.lhs_n) + " ****\n" + (del ? l : "") + "--- " + range(h.rhs, h.rhs_n) + " ----\n" + (add ? r : "");
        break;
      }
      case Format::kNormal: {
        std::size_t ln = h.lhs, rn = h.rhs;
        for (std::size_t i = 0; i < s.size();) {
          if (s[i].kind == ' ') { ++i; ++ln; ++rn; continue; }
          std::size_t d = i;
          while (d < s.size() && s[d].kind == '-') ++d;
          std::size_t a = d;
          while (a < s.size() && s[a].kind == '+') ++a;
          o += range(ln, d - i) + (d == i ? "a" : a == d ? "d" : "c") + range(rn, a - d) + "\n";
          for (std::size_t k = i; k < d; ++k) o += "< " + Full(s[k].line);
          if (d > i && a > d) o += "---\n";
          for (std::size_t k = d; k < a; ++k) o += "> " + Full(s[k].line);
          ln += d - i;
          rn += a - d;
          i = a;
        }
        break;
      }
      case Format::kSideBySide: {
        const std::size_t col = (width - 3) / 2;
        auto row = [&](const std::string& l, char c, const std::string& r) {
          std::string t = l.substr(0, col);
          t.resize(col, ' ');
          t += std::string(" ") + c + " " + r.substr(0, col);
          while (!t.empty() && t.back() == ' ') t.pop_back();
          o += t + "\n";
        };
        for (std::size_t i = 0; i < s.size();) {
          if (s[i].kind == ' ') {
            row(s[i].line.text, ' ', s[i].line.text);
            if (!s[i].line.nl) o += std::string(kNoNl) + "\n";
            ++i;
            continue;
          }
          std::size_t d = i;
          while (d < s.size() && s[d].kind == '-') ++d;
          std::size_t a = d;
          while (a < s.size() && s[a].kind == '+') ++a;
          for (std::size_t k = 0; k < std::max(d - i, a - d); ++k) {
            const bool hl = i + k < d, hr = d + k < a;
            row(hl ? s[i + k].line.text : "", hl && hr ? '|' : hl ? '<' : '>', hr ? s[d + k].line.text : "");
            if (hl && !s[i + k].line.nl) o += std::string(kNoNl) + "\n";
            if (hr && !s[d + k].line.nl) o += std::string(kNoNl) + "\n";
          }
          i = a;
        }
        break;
      }
    }
  }
  return o;
}

// ---- Running.
inline const char* Name(Algo a) { return a == Algo::kNaive ? "naive" : a == Algo::kDirect ? "direct" : "myers"; }
inline const char* Name(Format f) { return f == Format::kUnified ? "unified" : f == Format::kContext ? "context" : f == Format::kNormal ? "normal" : "side-by-side"; }
inline constexpr Algo kAlgos[] = {Algo::kMyers, Algo::kNaive, Algo::kDirect};
inline constexpr Format kFormats[] = {Format::kUnified, Format::kContext, Format::kNormal, Format::kSideBySide};

inline Artefact File(std::string_view data, std::string name) {
  Artefact a;
  a.data = std::string(data);
  a.name = std::move(name);
  return a;
}
inline std::string Run(const Pair& p, const DiffOptions& o) {
  auto r = Diff::FileDiff(File(p.lhs, "lhs"), File(p.rhs, "rhs"), o);
  PBT_CHECK(r.ok(), r.status().ToString());
  return *std::move(r);
}

// The edit script the algorithm chooses, read from one hunk that holds everything.
// `same` says whether a left line may be shown as unchanged for a right line.
template<typename Same>
Script FullScript(const Pair& p, DiffOptions& o, Same same) {
  const auto fmt = o.output_format;
  const auto ctx = o.context_size;
  const auto hdr = o.file_header_use;
  o.output_format = Format::kUnified;
  o.context_size = 1U << 20U;
  o.file_header_use = DiffOptions::FileHeaderUse::kNone;
  const std::string out = Run(p, o);
  o.output_format = fmt;
  o.context_size = ctx;
  o.file_header_use = hdr;
  const Text l = Split(p.lhs), r = Split(p.rhs);
  Script s;
  if (out.empty()) {
    PBT_CHECK(p.lhs == p.rhs || l.size() == r.size(), "empty diff for " << l.size() << " and " << r.size() << " lines");
    for (std::size_t i = 0; i < l.size(); ++i) {
      PBT_CHECK(p.lhs == p.rhs || same(l[i], r[i]), "no difference shown for line " << i << ": " << pbt::Quote(l[i].text) << " and " << pbt::Quote(r[i].text));
      s.push_back({' ', l[i]});
    }
    return s;
  }
  std::string err;
  const std::vector<Hunk> h = ReadUnified(out, &err);
  PBT_CHECK(err.empty(), err << "\nin:\n" << out);
  PBT_EQ(h.size(), 1U, out);
  s = h[0].entries;
  std::size_t a = 0, b = 0, changes = 0;
  for (const Entry& e : s) {
    changes += e.kind != ' ';
    const bool left = e.kind != '+';
    PBT_CHECK(left ? a < l.size() : b < r.size(), out);
    const Line& want = left ? l[a] : r[b];
    PBT_EQ(e.line.text, want.text, out);
    PBT_CHECK(e.line.nl == (want.nl || o.ignore_missing_final_newline), "marker for a missing newline, " << out);
    if (e.kind == ' ') { PBT_CHECK(b < r.size() && same(l[a], r[b]), "shown as unchanged: " << pbt::Quote(l[a].text) << " for " << pbt::Quote(b < r.size() ? r[b].text : "") << " in\n" << out); }
    a += e.kind != '+';
    b += e.kind != '-';
  }
  PBT_EQ(a, l.size(), out);
  PBT_EQ(b, r.size(), out);
  PBT_CHECK(changes > 0, "a diff without changes:\n" << out);
  return s;
}

// The smallest number of removed plus added lines (a plain dynamic program).
template<typename Same>
std::size_t MinimalEdits(const Text& l, const Text& r, Same same) {
  std::vector<std::size_t> row(r.size() + 1), prev(r.size() + 1);
  for (std::size_t j = 0; j <= r.size(); ++j) prev[j] = j;
  for (std::size_t i = 1; i <= l.size(); ++i) {
    row[0] = i;
    for (std::size_t j = 1; j <= r.size(); ++j) {
      row[j] = same(l[i - 1], r[j - 1]) ? prev[j - 1] : 1 + std::min(prev[j], row[j - 1]);
    }
    std::swap(row, prev);
  }
  return prev[r.size()];
}

}  // namespace difft
#endif
