// F02: diff options ignore exactly the differences they name.
#include "absl/strings/ascii.h"
#include "diff_common.h"
#include "mbo/strings/strip.h"
#include "re2/re2.h"
#include "tool.h"
#define main DiffToolMain
#include "mbo/diff/diff_main.cc"
#undef main

using namespace difft;

namespace {

bool IsSpace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

struct Opts {
  bool icase = false, all = false, cons = false, trail = false, nonl = false;
  int comments = 0;  // 1: simple, 2: parsed
  std::string start;
  std::string re_l, rep_l, re_r, rep_r;
  std::string matching;
  bool chunks = true, blank = false;
  bool Preprocess() const { return all || cons || trail || comments != 0 || !re_l.empty() || !re_r.empty(); }

  void Set(DiffOptions* o) const {
    o->ignore_case = icase;
    o->ignore_all_space = all;
    o->ignore_consecutive_space = cons;
    o->ignore_trailing_space = trail;
    o->ignore_missing_final_newline = nonl;
    o->ignore_blank_lines = blank;
    o->ignore_matching_chunks = chunks;
    if (comments == 1) o->strip_comments = mbo::strings::StripCommentArgs{.comment_start = start};
    if (comments == 2) o->strip_comments = Parsed();
    if (!re_l.empty()) o->regex_replace_lhs = DiffOptions::ParseRegexReplaceFlag("/" + re_l + "/" + rep_l + "/");
    if (!re_r.empty()) o->regex_replace_rhs = DiffOptions::ParseRegexReplaceFlag("," + re_r + "," + rep_r + ",");
    if (!matching.empty()) o->ignore_matching_lines.emplace(matching);
  }
  mbo::strings::StripParsedCommentArgs Parsed() const {
    return {.parse = {.stop_at_str = start, .remove_quotes = false}};
  }
  std::vector<std::string> Flags() const {
    std::vector<std::string> r;
    auto flag = [&](bool b, const char* n) { if (b) r.push_back(std::string("--") + n); };
    flag(icase, "ignore_case");
    flag(all, "ignore_all_space");
    flag(cons, "ignore_consecutive_space");
    flag(trail, "ignore_trailing_space");
    flag(nonl, "ignore_missing_final_newline");
    flag(blank, "ignore_blank_lines");
    flag(!chunks, "noignore_matching_chunks");
    if (comments != 0) r.push_back("--strip_comments=" + start);
    flag(comments == 1, "nostrip_parsed_comments");
    if (!re_l.empty()) r.push_back("--regex_replace_lhs=/" + re_l + "/" + rep_l + "/");
    if (!re_r.empty()) r.push_back("--regex_replace_rhs=," + re_r + "," + rep_r + ",");
    if (!matching.empty()) r.push_back("--ignore_matching_lines=" + matching);
    return r;
  }
  std::string Show() const { return pbt::Show(Flags()); }

  // The reference normalisation of one line (without its newline).
  std::string Norm(const std::string& line, bool left) const {
    std::string s = line;
    if (all) {
      std::erase_if(s, IsSpace);
    } else if (cons) {
      std::string t;
      for (char c : s) {
        if (!IsSpace(c)) t += c; else if (!t.empty() && t.back() != ' ') t += ' ';
      }
      if (!t.empty() && t.back() == ' ') t.pop_back();
      s = t;
    } else if (trail) {
      while (!s.empty() && IsSpace(s.back())) s.pop_back();
    }
    if (comments == 1) {
      if (const std::size_t p = s.find(start); p != s.npos) {
        s.resize(p);
        while (!s.empty() && IsSpace(s.back())) s.pop_back();
      } else {
        s = std::string(mbo::strings::StripLineComments(s, {.comment_start = start}));
      }
    } else if (comments == 2) {
      auto r = mbo::strings::StripParsedLineComments(s, Parsed());
      if (r.ok()) s = *std::move(r);
    }
    const std::string& re = left ? re_l : re_r;
    if (!re.empty()) RE2::Replace(&s, re, left ? rep_l : rep_r);
    return s;
  }
  std::string Fold(std::string s) const {
    if (icase) for (char& c : s) c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
    return s;
  }
  bool Matches(const Line& l, bool left) const { return !matching.empty() && RE2::PartialMatch(Norm(l.text, left), matching); }
  bool Same(const Line& a, const Line& b) const {
    if (Matches(a, true) && Matches(b, false)) return true;
    return (nonl || a.nl == b.nl) && Fold(Norm(a.text, true)) == Fold(Norm(b.text, false));
  }
};

Opts GenOpts(pbt::Src& src, bool with_matching) {
  Opts o;
  o.icase = src.Chance(1, 3);
  switch (src.Weighted({5, 2, 2, 2, 1})) {
    case 1: o.all = true; break;
    case 2: o.cons = true; break;
    case 3: o.trail = true; break;
    case 4: o.all = src.Bool(); o.cons = src.Bool(); o.trail = src.Bool(); break;
    default: break;
  }
  o.nonl = src.Chance(1, 4);
  if (src.Chance(1, 3)) {
    o.comments = static_cast<int>(src.Size(1, 2));
    o.start = std::string(src.PickStr({"#", "//", ";"}));
  }
  if (src.Chance(1, 3)) {
    static const std::vector<std::pair<std::string, std::string>> kRep{{"a", "b"}, {"[0-9]+", "N"}, {"M(.)", "\\1"}, {"x.*", ""}, {"^ *", ""}, {" *$", "!"}, {"(a|b)(.?)", "\\2\\1"}, {"b", ""}, {"a", "\\\\"}};
    const bool both = src.Bool();
    const bool l = both || src.Bool();
    if (l) std::tie(o.re_l, o.rep_l) = src.Pick(kRep);
    if (both || !l) std::tie(o.re_r, o.rep_r) = both && src.Bool() ? std::pair(o.re_l, o.rep_l) : src.Pick(kRep);
  }
  if (with_matching) {
    o.matching = std::string(src.PickStr({"M", "[0-9]", "^a", "b$", "^$", "(?i)m", "newline", "x"}));
    if (o.icase) o.matching = "(?i)" + o.matching;  // as the documentation asks for
    o.chunks = src.Bool();
  }
  return o;
}

std::string GenLine(pbt::Src& src) {
  std::string s;
  for (std::size_t n = src.Weighted({1, 4, 3, 2, 1}); n > 0; --n) {
    s += src.PickStr({"a", "b", "A", "B", "M1", "M2", "7", "42", "x", " ", "  ", "\t", "#", "//", ";", "\"", "\\", "'", "\r", "\v", "c\xc3\x89"});
  }
  return s;
}
// A change that some option may ignore.
std::string Noise(pbt::Src& src, std::string s) {
  const std::size_t at = src.Size(0, s.size());
  switch (src.Draw(7)) {
    case 0: s.insert(at, src.PickStr({" ", "\t", "  ", "\v", " \t"})); break;
    case 1: s += src.PickStr({" ", "\t ", "\r", "  "}); break;
    case 2: s.insert(0, src.PickStr({" ", "\t"})); break;
    case 3: if (at < s.size()) s[at] = static_cast<char>(s[at] ^ ((s[at] | 32) >= 'a' && (s[at] | 32) <= 'z' ? 32 : 0)); break;
    case 4: s += src.PickStr({"# y", " // z", ";", "#"}); break;
    case 5: if (const auto p = s.find_first_of(" \t\v\r"); p != s.npos) s.erase(p, 1); break;
    case 6: if (const auto p = s.find_first_of("0123456789"); p != s.npos) s[p] = src.PickChar("0123456789"); break;
    default: s += src.PickStr({"a", "M", "x"}); break;
  }
  return s;
}
Pair GenNoisy(pbt::Src& src, std::size_t max) {
  std::vector<std::string> l, r;
  for (std::size_t n = src.SkewSize(max); n > 0; --n) l.push_back(src.Chance(1, 4) && !l.empty() ? std::string(l[src.Size(0, l.size() - 1)]) : GenLine(src));
  LineSource ls;
  for (int i = 0; i < 3; ++i) ls.lines.push_back(src.Chance(1, 3) ? std::string(src.PickStr({"", " ", "M9"})) : GenLine(src));
  const bool shift = src.Bool();
  for (const std::string& s : l) {
    switch (src.Weighted({6, 4, shift ? 1U : 0U, shift ? 1U : 0U})) {
      case 0: r.push_back(s); break;
      case 1: r.push_back(Noise(src, s)); break;
      case 2: r.push_back(s); r.push_back(src.Pick(ls.lines)); break;
      default: break;
    }
  }
  if (r.empty() && src.Bool()) r.push_back(GenLine(src));
  const bool ln = !src.Chance(1, 4), rn = !src.Chance(1, 4);
  return {Render(l, ln || (!l.empty() && l.back().empty())), Render(r, rn || (!r.empty() && r.back().empty()))};
}

bool Aligned(const Opts& o, const Pair& p) {
  const Text l = Split(p.lhs), r = Split(p.rhs);
  if (l.size() != r.size()) return false;
  for (std::size_t i = 0; i < l.size(); ++i) {
    if (!o.Same(l[i], r[i])) return false;
  }
  return true;
}

}  // namespace

// Without suppression of whole chunks the diff is empty exactly for equivalent texts, and every
// line shown as unchanged is equivalent to the line on the other side.
PBT_PROP(equivalence, 40000, 1500000, "the texts differ and an option applies") {
  Opts opts = GenOpts(src, src.Chance(1, 3));
  opts.chunks = false;
  const Pair p = GenNoisy(src, 8);
  DiffOptions o;
  opts.Set(&o);
  o.algorithm = kAlgos[src.Draw(2)];
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\n" << Name(o.algorithm) << ' ' << opts.Show());
  if (p.lhs != p.rhs && !opts.Flags().empty()) src.NonTrivial();
  const bool want = p.lhs == p.rhs || Aligned(opts, p);
  if (want && p.lhs != p.rhs) src.Label("differences ignored");
  o.output_format = kFormats[src.Draw(3)];
  PBT_EQ(Run(p, o).empty(), want, "emptiness (" << Name(o.output_format) << ") with " << opts.Show());
  const Script script = FullScript(p, o, [&](const Line& a, const Line& b) { return opts.Same(a, b); });
  // The line options change what is equal, not how the result is rendered.
  if (!want && !opts.nonl) {
    o.context_size = src.Size(0, 3);
    o.file_header_use = DiffOptions::FileHeaderUse::kNone;
    PBT_EQ(Run(p, o), RenderHunks(Group(script, o.context_size), o.output_format), Name(o.output_format) << ' ' << opts.Show());
  }
}

// Blank lines, and chunks of matching lines: the option removes exactly the chunks that hold nothing else.
PBT_PROP(suppressed_chunks, 40000, 1500000, "a chunk is suppressed") {
  const bool matching = src.Bool();
  Opts opts = src.Chance(1, 2) ? Opts() : GenOpts(src, false);
  if (matching) {
    // What a chunk of lines matches is only compared where the other options keep lines as they are.
    opts.comments = 0;
    opts.re_l.clear();
    opts.re_r.clear();
    opts.all = opts.cons = opts.trail = false;
    opts.matching = std::string(src.PickStr({"M", "[0-9]", "^M", "2$", "^$", "newline", "^ *$", "x"}));
    if (opts.icase) opts.matching = "(?i)" + opts.matching;
  } else if (src.Chance(1, 4)) {
    opts.matching = "M";
    if (opts.icase) opts.matching = "(?i)" + opts.matching;
  }
  opts.chunks = false;
  Pair p = GenNoisy(src, 12);
  if (src.Bool()) {  // insert lines to be ignored
    Text l = Split(p.lhs), r = Split(p.rhs);
    for (std::size_t n = src.Size(1, 4); n > 0; --n) {
      Text& t = src.Bool() ? l : r;
      const Line add{matching ? std::string(src.PickStr({"M5", "M6", "12", ""})) : "", true};
      t.insert(t.begin() + static_cast<std::ptrdiff_t>(src.Size(0, t.empty() ? 0 : t.size() - 1)), add);
    }
    p = {Join(l), Join(r)};
  }
  DiffOptions base, o;
  opts.Set(&base);
  Opts with = opts;
  if (matching) with.chunks = true; else with.blank = true;
  with.Set(&o);
  base.algorithm = o.algorithm = kAlgos[src.Draw(2)];
  base.context_size = o.context_size = src.Size(0, 4);
  base.file_header_use = o.file_header_use = DiffOptions::FileHeaderUse::kNone;
  if (src.Chance(1, 3)) base.minimal = o.minimal = true;
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\n" << Name(o.algorithm) << " context " << o.context_size << ' ' << with.Show());
  std::string err;
  const std::vector<Hunk> all = ReadUnified(Run(p, base), &err);
  PBT_CHECK(err.empty(), err);
  // Whether a line of whitespace only is blank is not specified: both readings are fine.
  std::vector<Hunk> keep, keep2;
  for (const Hunk& h : all) {
    bool drop = true, drop2 = true;
    for (const Entry& e : h.entries) {
      if (e.kind == ' ') continue;
      if (matching) {
        drop &= RE2::PartialMatch(e.line.text, with.matching);
        drop2 = drop;
      } else {
        drop &= e.line.text.empty();
        drop2 &= with.Norm(e.line.text, e.kind == '-').empty() || e.line.text.find_first_not_of(" \t\v\r\f") == std::string::npos;
      }
    }
    if (!drop) keep.push_back(h);
    if (!drop2) keep2.push_back(h);
  }
  if (keep.size() < all.size()) src.NonTrivial();
  if (!keep.empty() && keep.size() < all.size()) src.Label("some chunks remain");
  o.output_format = kFormats[src.Draw(3)];
  const std::string out = Run(p, o);
  if (!opts.nonl && keep.size() != keep2.size() && out == RenderHunks(keep2, o.output_format)) {
    src.Label("whitespace is blank");
    return;
  }
  if (opts.nonl) {
    PBT_CHECK(out.empty() == keep.empty() || out.empty() == keep2.empty(), out);
    return;
  }
  PBT_EQ(out, RenderHunks(keep, o.output_format), Name(o.output_format) << ' ' << with.Show());
}

// A header appears exactly when a chunk remains.
PBT_PROP(suppressed_header, 3000, 100000, "nothing remains") {
  Opts opts;
  opts.blank = src.Bool();
  opts.matching = src.Bool() ? "M" : "";
  const Pair p = GenNoisy(src, 6);
  DiffOptions o;
  opts.Set(&o);
  o.algorithm = kAlgos[src.Draw(2)];
  o.output_format = kFormats[src.Draw(1)];
  o.time_format = "";
  const std::string out = Run(p, o);
  o.file_header_use = DiffOptions::FileHeaderUse::kNone;
  const std::string body = Run(p, o);
  if (body.empty() && p.lhs != p.rhs) src.NonTrivial();
  const std::string head = o.output_format == Format::kUnified ? "--- lhs\n+++ rhs\n" : "*** lhs\n--- rhs\n";
  PBT_EQ(out, body.empty() ? "" : head + body, opts.Show());
}

// skip_left_deletions shows every addition and no removal.
PBT_PROP(skip_left_deletions, 8000, 300000, "the texts differ") {
  Opts opts = GenOpts(src, false);
  const Pair p = GenNoisy(src, 10);
  DiffOptions o;
  opts.Set(&o);
  o.algorithm = kAlgos[src.Draw(2)];
  o.file_header_use = DiffOptions::FileHeaderUse::kNone;
  o.context_size = src.Size(0, 3);
  o.show_chunk_headers = false;
  auto added = [&](bool skip) {
    o.skip_left_deletions = skip;
    std::string r;
    const std::string hold = Run(p, o);
    std::string_view out = hold;
    std::string_view line;
    char last = ' ';
    while (TakeLine(&out, &line)) {
      PBT_CHECK(!line.empty());
      if (skip) PBT_CHECK(line[0] != '-', "a removal is shown:\n" << hold);
      if (line[0] == '+' || (line[0] == '\\' && last == '+')) r += std::string(line) + "\n";
      last = line[0];
    }
    return r;
  };
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\n" << Name(o.algorithm) << ' ' << opts.Show());
  if (p.lhs != p.rhs) src.NonTrivial();
  const std::string want = added(false);
  PBT_EQ(added(true), want, "additions");
}

// The command line tool passes every option on.
PBT_PROP(tool, 2500, 60000, "an option changes the result") {
  Opts opts = GenOpts(src, src.Chance(1, 2));
  opts.blank = src.Chance(1, 3);
  const Pair p = GenNoisy(src, 8);
  DiffOptions o, plain;
  opts.Set(&o);
  o.skip_left_deletions = src.Chance(1, 6);
  const std::string dir = pbt::CaseDir();
  WriteFile(dir + "/l", p.lhs);
  WriteFile(dir + "/r", p.rhs);
  std::vector<std::string> args = opts.Flags();
  if (o.skip_left_deletions) args.push_back("--skip_left_deletions");
  args.push_back("--file_header_use=none");
  o.file_header_use = plain.file_header_use = DiffOptions::FileHeaderUse::kNone;
  args.push_back("l");
  args.push_back("r");
  const std::string want = Run(p, o);
  if (want != Run(p, plain)) src.NonTrivial();
  const ToolResult res = RunTool(DiffToolMain, args, dir);
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\n" << pbt::Show(args));
  PBT_CHECK(res.exited, res.Show());
  PBT_EQ(res.out, want, pbt::Show(args) << "\n" << res.Show());
  PBT_EQ(res.code, want.empty() ? 0 : 1, res.Show());
}
