// F01: a diff is empty exactly for equal texts, and patches the left text into the right one.
#include <sys/wait.h>

#include <fstream>

#include "diff_common.h"
#include "tool.h"
#define main DiffToolMain
#include "mbo/diff/diff_main.cc"
#undef main

using namespace difft;

namespace {

bool Same(const Line& a, const Line& b) { return a == b; }

std::size_t GenContext(pbt::Src& src) {
  switch (src.Weighted({6, 2, 1})) {
    case 0: return src.Size(0, 5);
    case 1: return src.Size(0, 40);
    default: {
      const std::size_t big[] = {~std::size_t{0}, ~std::size_t{0} / 2, ~std::size_t{0} / 2 + 1, std::size_t{1} << 63U, (std::size_t{1} << 63U) + 1, std::size_t{1} << 32U, ~std::size_t{0} / 4 * 3};
      return big[src.Draw(6)];
    }
  }
}

void CheckAll(pbt::Src& src, const Pair& p, Algo algo, bool minimal) {
  DiffOptions o;
  o.algorithm = algo;
  o.minimal = minimal;
  const std::string d = Run(p, o);
  PBT_CHECK(d.empty() == (p.lhs == p.rhs), "empty: " << d.empty() << ", equal: " << (p.lhs == p.rhs));
  if (p.lhs == p.rhs) {
    o.output_format = kFormats[src.Draw(3)];
    PBT_CHECK(Run(p, o).empty(), "a difference between equal texts");
    return;
  }
  const Text l = Split(p.lhs), r = Split(p.rhs);
  const Script script = FullScript(p, o, Same);
  const std::size_t ctx = GenContext(src);
  o.context_size = ctx;
  // Unified output, strictly read and applied.
  {
    o.file_header_use = DiffOptions::FileHeaderUse::kNone;
    const std::string out = Run(p, o);
    std::string err;
    const std::vector<Hunk> hunks = ReadUnified(out, &err);
    PBT_CHECK(err.empty(), err << " in\n" << out);
    const std::optional<Text> got = Apply(l, hunks, &err);
    PBT_CHECK(got.has_value(), err << " in\n" << out);
    PBT_EQ(Join(*got), p.rhs, out);
    PBT_CHECK(*got == r, out);
    if (hunks.size() > 1) src.Label("several hunks");
  }
  const std::vector<Hunk> want = Group(script, ctx);
  for (Format f : kFormats) {
    const bool sbs = f == Format::kSideBySide;
    o.output_format = f;
    o.side_by_side_width = sbs && src.Bool() ? src.Size(5, 40) : 130;
    const std::string out = Run(p, o);
    PBT_EQ(out, RenderHunks(want, f, o.side_by_side_width), Name(algo) << ' ' << Name(f) << " context=" << ctx << " width=" << o.side_by_side_width);
  }
}

}  // namespace

PBT_PROP(roundtrip, 40000, 1500000, "the texts differ and both have at least two lines") {
  const Pair p = GenPair(src, 24);
  const Algo algo = kAlgos[src.Draw(2)];
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\nalgorithm " << Name(algo));
  if (p.lhs != p.rhs && Split(p.lhs).size() > 1 && Split(p.rhs).size() > 1) src.NonTrivial();
  src.Label(Name(algo));
  if (p.lhs == p.rhs) src.Label("equal");
  CheckAll(src, p, algo, src.Chance(1, 4));
}

// Larger texts: long runs, many hunks, the Myers cost cap.
PBT_PROP(large, 400, 12000, "more than 100 lines differ") {
  const bool naive = src.Chance(1, 4);
  const LineSource ls = GenLines(src, true);
  const std::size_t n = src.Size(20, naive ? 150 : 1200);
  std::uint64_t seed = src.Draw(~std::uint64_t{0});
  const std::size_t alphabet = src.Pick(std::vector<std::size_t>{2, 5, 40, 1000, 100000});
  const unsigned keep = static_cast<unsigned>(src.Draw(20));
  std::vector<std::string> l, r;
  for (std::size_t i = 0; i < n; ++i) l.push_back("x" + std::to_string(pbt::SplitMix(seed) % alphabet));
  if (src.Bool()) {
    for (const std::string& s : l) {
      const std::uint64_t k = pbt::SplitMix(seed) % 20;
      if (k >= keep) { r.push_back(s); continue; }
      if (k % 3 == 0) r.push_back(s + "'");
      if (k % 3 == 1) { r.push_back("new" + std::to_string(pbt::SplitMix(seed) % alphabet)); r.push_back(s); }
    }
  } else {
    const std::size_t m = src.Size(1, naive ? 150 : 1200);
    for (std::size_t i = 0; i < m; ++i) r.push_back((keep < 3 ? "y" : "x") + std::to_string(pbt::SplitMix(seed) % alphabet));
  }
  const Pair p{Render(l, !src.Chance(1, 6)), Render(r, !src.Chance(1, 6))};
  const Algo algo = naive ? Algo::kNaive : src.Chance(1, 6) ? Algo::kDirect : Algo::kMyers;
  PBT_NOTE("lhs " << l.size() << " lines, rhs " << r.size() << " lines, alphabet " << alphabet << ", " << Name(algo));
  std::size_t differ = 0;
  for (std::size_t i = 0; i < std::max(l.size(), r.size()); ++i) differ += i >= l.size() || i >= r.size() || l[i] != r[i];
  if (differ > 100) src.NonTrivial();
  CheckAll(src, p, algo, false);
}

namespace {
// Runs `patch` in `dir` and returns the patched file, or nullopt.
std::optional<std::string> Patch(const std::string& dir, const std::string& diff, Format f, const std::string& lhs, std::string* log) {
  WriteFile(dir + "/lhs", lhs);
  WriteFile(dir + "/d", diff);
  const char* flag = f == Format::kUnified ? "-u" : f == Format::kContext ? "-c" : "-n";
  const std::string cmd = "cd '" + dir + "' && patch -s -f --binary -F0 " + flag + " -r - -o out lhs d > log 2>&1";
  const int rc = std::system(cmd.c_str());
  *log = ReadFile(dir + "/log");
  if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 0) return std::nullopt;
  return ReadFile(dir + "/out");
}
}  // namespace

// GNU patch accepts the output of every patchable format.
PBT_PROP(gnu_patch, 2000, 40000, "the texts differ") {
  Pair p = GenPair(src, 30, true);
  const Algo algo = kAlgos[src.Draw(2)];
  const Format f = kFormats[src.Draw(2)];
  DiffOptions o;
  o.algorithm = algo;
  o.output_format = f;
  // GNU patch rejects context diffs without context, GNU diff's own included.
  o.context_size = src.Size(f == Format::kContext ? 1 : 0, 6);
  o.time_format = src.Bool() ? "" : o.time_format;
  o.file_header_use = src.Bool() ? DiffOptions::FileHeaderUse::kBoth : DiffOptions::FileHeaderUse::kLeft;
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << "\n" << Name(algo) << ' ' << Name(f) << ' ' << o.context_size);
  if (p.lhs == p.rhs) return;
  // The direct comparison interleaves removals with additions; GNU patch aborts on
  // an added line without newline that a removed one follows.
  if (algo == Algo::kDirect && (!p.lhs.ends_with('\n') || !p.rhs.ends_with('\n'))) return;
  src.NonTrivial();
  Artefact l = File(p.lhs, "lhs"), r = File(p.rhs, "lhs");
  l.time = r.time = absl::FromUnixSeconds(1700000000);
  auto d = Diff::FileDiff(l, r, o);
  PBT_CHECK(d.ok());
  std::string log;
  const std::string dir = pbt::CaseDir();
  const auto out = Patch(dir, *d, f, p.lhs, &log);
  PBT_CHECK(out.has_value(), "patch refuses:\n" << log << "\n" << *d);
  PBT_EQ(*out, p.rhs, *d);
}

// Header lines name the files, their time and nothing else.
PBT_PROP(header, 5000, 200000, "the format has header lines") {
  const Pair p{"a\n", "b\n"};
  DiffOptions o;
  o.output_format = kFormats[src.Draw(3)];
  o.file_header_use = static_cast<DiffOptions::FileHeaderUse>(src.Draw(3));
  auto name = [&] { return std::string(src.PickStr({"", "dir/", "/abs/", "pre/dir/"})) + src.Str("ab./ -", 5); };
  Artefact l = File(p.lhs, name()), r = File(p.rhs, name());
  l.time = absl::FromUnixMillis(static_cast<std::int64_t>(src.Draw(4000000000000ULL)));
  r.time = absl::FromUnixMillis(static_cast<std::int64_t>(src.Draw(4000000000000ULL)));
  const bool with_time = src.Bool();
  if (!with_time) o.time_format = "";
  o.strip_file_header_prefix = std::string(src.PickStr({"", "dir/", "/abs/", "pre/", "a", "(pre/)?dir/", "[a-z/]*/"}));
  o.algorithm = kAlgos[src.Draw(2)];
  auto d = Diff::FileDiff(l, r, o);
  PBT_CHECK(d.ok());
  auto strip = [&](std::string n) {
    auto cut = [&](std::string_view pre) { if (n.starts_with(pre)) { n.erase(0, pre.size()); return true; } return false; };
    const std::string& pre = o.strip_file_header_prefix;
    if (pre == "(pre/)?dir/") {
      cut("pre/dir/") || cut("dir/");
    } else if (pre == "[a-z/]*/") {
      const std::size_t stop = n.find_first_not_of("abcdefghijklmnopqrstuvwxyz/");
      const std::size_t at = n.substr(0, stop).rfind('/');
      if (at != n.npos) n.erase(0, at + 1);
    } else {
      cut(pre);
    }
    return n;
  };
  auto head = [&](const Artefact& a) {
    std::string s = a.name.empty() ? "-" : strip(a.name);
    if (with_time) {
      const std::int64_t ms = absl::ToUnixMillis(a.time);
      std::time_t t = ms / 1000;
      std::tm tm{};
      gmtime_r(&t, &tm);
      char b[64];
      std::snprintf(b, sizeof b, " %04d-%02d-%02d %02d:%02d:%02d.%03d +0000", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, static_cast<int>(ms % 1000));
      s += b;
    }
    return s;
  };
  using Use = DiffOptions::FileHeaderUse;
  const Artefact& first = o.file_header_use == Use::kRight ? r : l;
  const Artefact& second = o.file_header_use == Use::kLeft ? l : r;
  std::string want;
  if (o.file_header_use != Use::kNone && o.output_format == Format::kUnified) want = "--- " + head(first) + "\n+++ " + head(second) + "\n";
  if (o.file_header_use != Use::kNone && o.output_format == Format::kContext) want = "*** " + head(first) + "\n--- " + head(second) + "\n";
  if (!want.empty()) src.NonTrivial();
  const Script s{{'-', {"a", true}}, {'+', {"b", true}}};
  PBT_EQ(*d, want + RenderHunks(Group(s, 3), o.output_format), "prefix " << o.strip_file_header_prefix << " names " << pbt::Quote(l.name) << ' ' << pbt::Quote(r.name));
}

// The command line tool: exit code and output.
PBT_PROP(tool, 2000, 40000, "the files differ") {
  Pair p = GenPair(src, 12);
  const std::string dir = pbt::CaseDir();
  WriteFile(dir + "/old.txt", p.lhs);
  WriteFile(dir + "/new.txt", p.rhs);
  std::vector<std::string> args{"--skip_time"};
  DiffOptions o;
  if (src.Bool()) {
    o.algorithm = kAlgos[src.Draw(2)];
    args.push_back(std::string("--algorithm=") + Name(o.algorithm));
  }
  if (src.Bool()) {
    o.output_format = kFormats[src.Draw(3)];
    args.push_back(std::string("--format=") + Name(o.output_format));
  }
  const bool direct = o.algorithm == Algo::kDirect, sbs = o.output_format == Format::kSideBySide;
  if (sbs) {
    o.context_size = 1000;
  } else if (direct || o.output_format == Format::kNormal) {
    o.context_size = 0;
  }
  if (src.Bool()) {
    o.context_size = src.Size(0, 6);
    args.push_back("--context=" + std::to_string(o.context_size));
  }
  o.show_chunk_headers = !direct;
  if (src.Bool()) {
    o.show_chunk_headers = src.Bool();
    args.push_back(std::string("--show_chunk_headers=") + (o.show_chunk_headers ? "true" : "false"));
  }
  if (src.Bool()) {
    o.side_by_side_width = src.Size(5, 60);
    args.push_back("--width=" + std::to_string(o.side_by_side_width));
  }
  if (src.Bool()) {
    o.file_header_use = static_cast<DiffOptions::FileHeaderUse>(src.Draw(3));
    args.push_back("--file_header_use=" + std::vector<std::string>{"none", "both", "left", "right"}[static_cast<std::size_t>(o.file_header_use)]);
  }
  if (src.Bool()) {
    o.minimal = true;
    args.push_back("--minimal");
  }
  std::size_t max = 0;
  if (src.Chance(1, 4)) {
    max = src.Size(0, 8);
    args.push_back("--max_lines=" + std::to_string(max));
  }
  auto cut = [&](const std::string& s) {
    Text t = Split(s);
    if (max > 0 && t.size() > max) t.resize(max);
    return Join(t);
  };
  const std::size_t mode = src.Weighted({12, 1, 1, 1});
  std::string l = "old.txt", r = "new.txt";
  if (mode == 1) l = "absent.txt";
  if (mode == 2) r = "absent.txt";
  args.push_back(l);
  if (mode != 3) args.push_back(r);
  const ToolResult res = RunTool(DiffToolMain, args, dir);
  PBT_CHECK(res.exited, res.Show());
  PBT_NOTE("args " << pbt::Show(args) << "\n" << res.Show());
  if (mode != 0) {
    src.Label("trouble");
    PBT_EQ(res.code, 2, res.Show());
    PBT_EQ(res.out, "", "output");
    return;
  }
  auto d = Diff::FileDiff(File(cut(p.lhs), "old.txt"), File(cut(p.rhs), "new.txt"), o);
  PBT_CHECK(d.ok());
  if (!d->empty()) src.NonTrivial();
  PBT_EQ(res.code, d->empty() ? 0 : 1, res.Show());
  PBT_EQ(res.out, *d, pbt::Show(args));
}
