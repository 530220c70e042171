// P02: a glob pattern matches exactly the paths its syntax describes.
//
// Patterns are generated as syntax trees whose meaning is known, written with all spellings (escapes,
// repeated and escaped slashes, runs of stars) and compared to a direct matcher on texts derived from them.
// Ranges that can match a '/' are documented as not handled: both answers are accepted there.
#include <memory>
#include <string>
#include <vector>

#include "glob_model.h"
#include "mbo/file/glob.h"
#include "pbt.h"
#include "re2/re2.h"
using globm::Tok;
using globm::Toks;
using mbo::file::Glob2Re2Options;
namespace gi = mbo::file::file_internal;

namespace {
Glob2Re2Options Conv(const globm::Opts& o) {
  Glob2Re2Options r;
  r.allow_star_star = o.star_star;
  r.allow_ranges = o.ranges;
  r.re2_options.set_log_errors(false);
  return r;
}
globm::Opts GenOpts(pbt::Src& src) { return {.star_star = !src.Chance(1, 4), .ranges = !src.Chance(1, 4)}; }
std::string Show(const globm::Opts& o) { return std::string(o.star_star ? "" : " no **") + (o.ranges ? "" : " no ranges"); }
}  // namespace

PBT_PROP(match, 40000, 1500000, "the pattern has a wildcard and matched as well as rejected a text") {
  const globm::Opts o = GenOpts(src);
  const Toks toks = globm::GenToks(src, o, 8);
  const std::string pattern = globm::Text(toks);
  PBT_NOTE("pattern " << pbt::Quote(pattern) << Show(o));
  const auto re = gi::Glob2Re2(pattern, Conv(o));
  PBT_CHECK(re.ok(), "a valid pattern is rejected: " << re.status());
  PBT_CHECK((**re).ok());
  globm::Matcher with(toks, true), without(toks, false);
  bool wild = false, yes = false, no = false;
  for (const auto& t : toks) wild |= t.Wild();
  for (int i = 0; i < 5; ++i) {
    const std::string text = globm::GenText(src, toks);
    const bool want = with.Match(text);
    if (want != without.Match(text)) { src.Label("range meets slash"); continue; }
    (want ? yes : no) = true;
    PBT_EQ(RE2::FullMatch(text, **re), want, "pattern " << pbt::Quote(pattern) << Show(o) << " on " << pbt::Quote(text) << " (" << (**re).pattern() << ")");
  }
  if (wild && yes && no) src.NonTrivial();
}

// Escaping every character matches exactly that text.
PBT_PROP(literal, 20000, 500000, "a character that is special in globs or regular expressions") {
  std::string text, pattern;
  const std::size_t n = src.Size(1, 10);
  const bool all = src.Bool();
  for (std::size_t i = 0; i < n; ++i) {
    const char32_t c = src.Chance(1, 3) ? static_cast<char32_t>(src.Int(1, 126)) : src.Pick(globm::LitChars());
    if (c == '/') continue;
    const std::string e = globm::Encode(c);
    text += e;
    pattern += (all || c == '\\' || c == '*' || c == '?' || c == '[' ? "\\" : "") + e;
    if (c < 128 && std::ispunct(static_cast<int>(c))) src.NonTrivial();
  }
  const auto re = gi::Glob2Re2(pattern, Conv({}));
  PBT_CHECK(re.ok(), pbt::Quote(pattern) << ": " << re.status());
  PBT_CHECK(RE2::FullMatch(text, **re), pbt::Quote(pattern) << " does not match " << pbt::Quote(text) << " (" << (**re).pattern() << ")");
  std::string other = text;
  std::vector<char32_t> cps = globm::Decode(text);
  if (!cps.empty()) {
    const std::size_t at = src.Size(0, cps.size() - 1);
    const std::size_t how = src.Draw(2);
    if (how == 0) cps[at] = src.Pick(globm::LitChars());
    if (how == 1) cps.erase(cps.begin() + static_cast<std::ptrdiff_t>(at));
    if (how == 2) cps.insert(cps.begin() + static_cast<std::ptrdiff_t>(at), src.Pick(globm::LitChars()));
    other.clear();
    for (char32_t c : cps) other += globm::Encode(c);
    PBT_EQ(RE2::FullMatch(other, **re), other == text, pbt::Quote(pattern) << " on " << pbt::Quote(other));
  }
}

// Invalid patterns are rejected wherever they appear.
PBT_PROP(invalid, 10000, 200000, "always") {
  src.NonTrivial();
  const globm::Opts o{.star_star = src.Bool(), .ranges = true};
  const std::string head = globm::Text(globm::GenToks(src, o, 4));
  std::string bad, tail = globm::Text(globm::GenToks(src, o, 3));
  bool semantic = false;  // only found when the expression is built
  auto plain = [&] { return src.Str("ab!.^$*?+", 4); };
  switch (src.Draw(5)) {
    case 0: bad = "\\"; tail = ""; break;
    case 1: bad = "[" + std::string(src.PickStr({"", "!", "]", "!]", "-", "a-", "!-"})) + plain(); tail = ""; if (bad == "[") bad += src.Bool() ? "" : "]"; break;
    case 2: bad = "[" + plain() + "x\\"; tail = ""; break;
    case 3: bad = "[x" + plain() + std::string(src.PickStr({"[::]", "[:a1:]", "[:al pha:]", "[:!:]"})) + "]"; break;
    case 4: bad = "[[:alpha" ; tail = src.Bool() ? "]" : ""; break;
    default: bad = std::string(src.PickStr({"[[:nope:]]", "[z-a]", "[9-0]", "[x[:Alpha:]]"})); semantic = true; break;
  }
  const std::string pattern = head + bad + tail;
  PBT_NOTE("pattern " << pbt::Quote(pattern));
  const auto re = gi::Glob2Re2(pattern, Conv(o));
  PBT_CHECK(!re.ok(), "an invalid pattern is accepted: " << pbt::Quote(pattern) << " as " << (**re).pattern());
  PBT_EQ(static_cast<int>(re.status().code()), static_cast<int>(absl::StatusCode::kInvalidArgument), re.status());
  if (!semantic) {
    PBT_CHECK(!mbo::file::GlobSplit(pattern, Conv(o)).ok(), "GlobSplit accepts " << pbt::Quote(pattern));
  }
  int calls = 0;
  const absl::Status walk = mbo::file::Glob("/nonexistent", pattern, Conv(o), {}, [&](const mbo::file::GlobEntry&) -> absl::StatusOr<mbo::file::GlobEntryAction> { ++calls; return mbo::file::GlobEntryAction::kContinue; });
  PBT_EQ(static_cast<int>(walk.code()), static_cast<int>(absl::StatusCode::kInvalidArgument), walk);
}

// Splitting: the root is the literal directory prefix, and root plus pattern mean what the whole meant.
PBT_PROP(split, 30000, 800000, "a root and a pattern") {
  const globm::Opts o{.star_star = !src.Chance(1, 4), .ranges = true};
  const Toks toks = globm::GenToks(src, o, 9);
  const std::string pattern = globm::Text(toks);
  PBT_NOTE("pattern " << pbt::Quote(pattern) << Show(o));
  const auto split = mbo::file::GlobSplit(pattern, Conv(o));
  PBT_CHECK(split.ok(), split.status());
  Toks t = toks;
  if (t.size() > 1 && t.back().kind == Tok::kSlash) t.pop_back();
  bool wild = false;
  std::string root, part;
  bool absolute_only = false;
  for (const auto& x : t) {
    if (x.Wild()) { wild = true; break; }
    if (x.kind == Tok::kSlash) { root = part; absolute_only = part.empty(); }
    part += x.kind == Tok::kSlash ? "/" : globm::Encode(x.lit);
  }
  if (!wild) root = part; else if (root.empty() && absolute_only) root = "/";
  PBT_EQ(split->root, root, "root of " << pbt::Quote(pattern));
  if (!wild) {
    PBT_EQ(split->pattern, "", "pattern of " << pbt::Quote(pattern));
    return;
  }
  PBT_CHECK(!split->pattern.empty(), "the wildcards are lost: " << pbt::Quote(pattern));
  if (!root.empty()) src.NonTrivial();
  const auto re = gi::Glob2Re2(split->pattern, Conv(o));
  PBT_CHECK(re.ok(), re.status());
  globm::Matcher with(toks, true), without(toks, false);
  Toks rest;  // tokens of the pattern part
  {
    std::size_t from = 0, i = 0;
    for (; i < t.size() && !t[i].Wild(); ++i) if (t[i].kind == Tok::kSlash) from = i + 1;
    rest.assign(t.begin() + static_cast<std::ptrdiff_t>(from), t.end());
  }
  if (rest.size() >= 3 && rest[0].kind == Tok::kStarStar && rest[1].kind == Tok::kSlash && rest[2].kind == Tok::kStarStar) return;
  for (int i = 0; i < 4; ++i) {
    const std::string rel = globm::GenText(src, rest);
    if (rel.empty() || rel[0] == '/' || rel.back() == '/') continue;
    const std::string full = root.empty() ? rel : root == "/" ? "/" + rel : root + "/" + rel;
    const bool want = with.Match(full);
    if (want != without.Match(full)) continue;
    PBT_EQ(RE2::FullMatch(rel, **re), want, pbt::Quote(pattern) << " split into " << pbt::Quote(split->root) << " and " << pbt::Quote(split->pattern) << " on " << pbt::Quote(full));
  }
}

// Any text: never a crash; only the documented errors; without ranges only a trailing escape is invalid.
PBT_PROP(noise, 30000, 800000, "the pattern is accepted and contains syntax") {
  const std::string pattern = src.Str("ab/*?[]!-^:\\.alph", 14);
  const globm::Opts o = GenOpts(src);
  PBT_NOTE("pattern " << pbt::Quote(pattern) << Show(o));
  const auto re = gi::Glob2Re2(pattern, Conv(o));
  if (!re.ok()) {
    PBT_EQ(static_cast<int>(re.status().code()), static_cast<int>(absl::StatusCode::kInvalidArgument), re.status());
    std::size_t slashes = 0;
    while (slashes < pattern.size() && pattern[pattern.size() - 1 - slashes] == '\\') ++slashes;
    if (!o.ranges) PBT_CHECK(slashes % 2 == 1, "rejected: " << re.status());
  } else if (pattern.find_first_of("*?[") != pattern.npos) {
    src.NonTrivial();
  }
  const auto split = mbo::file::GlobSplit(pattern, Conv(o));
  const auto parts = gi::GlobSplitParts(pattern, Conv(o));
  if (re.ok()) {
    PBT_CHECK(split.ok(), split.status());
    PBT_CHECK(parts.ok(), parts.status());
    RE2::FullMatch(pattern, **re);
  }
}
