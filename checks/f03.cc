// F03: with the minimal option Myers reports a shortest edit script.
#include "diff_common.h"

using namespace difft;

namespace {
std::size_t Edits(const Script& s) {
  return static_cast<std::size_t>(std::count_if(s.begin(), s.end(), [](const Entry& e) { return e.kind != ' '; }));
}
bool Fold(const Line& a, const Line& b) {
  auto low = [](std::string s) { for (char& c : s) c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; return s; };
  return a.nl == b.nl && low(a.text) == low(b.text);
}
void Check(pbt::Src& src, const Pair& p, DiffOptions& o) {
  auto same = [&](const Line& a, const Line& b) { return o.ignore_case ? Fold(a, b) : a == b; };
  const std::size_t want = MinimalEdits(Split(p.lhs), Split(p.rhs), same);
  if (want > 2) src.NonTrivial();
  if (want > 126) src.Label("above the cost cap");
  o.minimal = true;
  PBT_EQ(Edits(FullScript(p, o, same)), want, "removed and added lines");
  o.minimal = false;
  const std::size_t def = Edits(FullScript(p, o, same));
  PBT_CHECK(def >= want);
  // The cost cap of the default mode is for large differences.
  if (want <= 60) PBT_EQ(def, want, "removed and added lines in the default mode");
  else if (def > want) src.Label("default mode not minimal");
}
}  // namespace

PBT_PROP(small, 30000, 1000000, "at least three edits") {
  DiffOptions o;
  o.ignore_case = src.Chance(1, 5);
  const LineSource ls{{"a", "b", "A", "c", "B", "", "d", "e"}};
  LineSource sub;
  for (std::size_t i = src.Size(1, 8); i > 0; --i) sub.lines.push_back(ls.lines[i - 1]);
  std::vector<std::string> l, r;
  for (std::size_t n = src.Size(0, 14); n > 0; --n) l.push_back(src.Pick(sub.lines));
  if (src.Bool()) {
    r = l;
    Mutate(src, &r, sub, src.Size(1, 4));
  } else {
    for (std::size_t n = src.Size(0, 14); n > 0; --n) r.push_back(src.Pick(sub.lines));
  }
  const bool ln = !src.Chance(1, 6), rn = !src.Chance(1, 6);
  const Pair p{Render(l, ln || (!l.empty() && l.back().empty())), Render(r, rn || (!r.empty() && r.back().empty()))};
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs) << " ignore_case " << o.ignore_case);
  Check(src, p, o);
}

PBT_PROP(large, 400, 15000, "at least three edits") {
  DiffOptions o;
  std::uint64_t seed = src.Draw(~std::uint64_t{0});
  const std::size_t alphabet = src.Pick(std::vector<std::size_t>{2, 3, 8, 50, 500});
  auto seq = [&](std::size_t n) {
    std::vector<std::string> v;
    while (v.size() < n) v.push_back(std::to_string(pbt::SplitMix(seed) % alphabet));
    return v;
  };
  std::vector<std::string> l = seq(src.Size(1, 400)), r;
  switch (src.Draw(3)) {
    case 0: r = seq(src.Size(1, 400)); break;
    case 1: {
      const std::size_t keep = src.Size(1, 40);
      for (const std::string& s : l) {
        const std::uint64_t k = pbt::SplitMix(seed) % 40;
        if (k < keep) r.push_back(s);
        if (k % 7 == 6) r.push_back("new" + std::to_string(k));
      }
      break;
    }
    case 2: {  // a rotation: half the text has moved
      r = l;
      std::rotate(r.begin(), r.begin() + static_cast<std::ptrdiff_t>(src.Size(0, r.size() - 1)), r.end());
      break;
    }
    default: {
      r = l;
      std::reverse(r.begin(), r.end());
    }
  }
  if (src.Bool()) std::swap(l, r);
  const Pair p{Render(l, true), Render(r, true)};
  PBT_NOTE(l.size() << " and " << r.size() << " lines, alphabet " << alphabet);
  Check(src, p, o);
}

// Every pair of texts of up to five lines over three different lines.
PBT_PROP(exhaustive, 132496, 132496, "at least three edits") {
  // 1 + 3 + 9 + 27 + 81 + 243 = 364 texts; 364 * 364 pairs.
  static std::uint64_t next = 0;
  const std::uint64_t k = src.Draw(364 * 364 - 1);
  (void)next;
  auto text = [](std::uint64_t n) {
    std::size_t len = 0;
    for (std::uint64_t c = 1; n >= c; c *= 3) { n -= c; ++len; }
    std::vector<std::string> v;
    for (; len > 0; --len, n /= 3) v.push_back(std::string(1, static_cast<char>('a' + n % 3)));
    return v;
  };
  const Pair p{Render(text(k % 364), true), Render(text(k / 364), true)};
  DiffOptions o;
  PBT_NOTE("lhs " << pbt::Quote(p.lhs) << "\nrhs " << pbt::Quote(p.rhs));
  Check(src, p, o);
}
