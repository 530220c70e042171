// T05, run-time arguments against compile-time strings.
#include <functional>
#include <sstream>

#include "absl/hash/hash.h"
#include "mbo/types/tstring.h"
#include "pbt.h"
using mbo::types::operator""_ts;

namespace {
int Sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename T>
void One(pbt::Src& src, std::string_view a, T t) {
  const size_t npos = a.npos;
  std::string b = src.Bool() ? src.Str(std::string_view("ab\0c\xff", 5), 5) : std::string(a.substr(std::min(a.size(), size_t(src.Draw(4))), src.Draw(a.size() + 1)));
  size_t p = src.Chance(1, 8) ? npos - src.Draw(2) : src.Draw(a.size() + 2), n = src.Chance(1, 8) ? npos - src.Draw(2) : src.Draw(a.size() + 2);
  char x = src.Bool() && !a.empty() ? a[src.Draw(a.size() - 1)] : src.PickChar(std::string_view("ab\0c\xff", 5));
  PBT_NOTE("tstring " << pbt::Quote(a) << " arg " << pbt::Quote(b) << " pos " << p << " count " << n << " char " << pbt::Quote(std::string_view(&x, 1)));
  if (!a.empty() && !b.empty()) src.NonTrivial();
  std::string_view bv = b;
  PBT_EQ(T::str(), a); PBT_EQ(T::size(), a.size()); PBT_EQ(T::empty(), a.empty());
  PBT_EQ(T::substr(p, n), p >= a.size() ? std::string_view() : a.substr(p, n), "substr(pos, count)");
  PBT_EQ(T::find_first_of(bv, p), a.find_first_of(bv, p), "find_first_of(set, pos)");
  PBT_EQ(T::find_last_of(bv, p), a.find_last_of(bv, p), "find_last_of(set, pos)");
  PBT_EQ(T::find_first_of(x, p), a.find_first_of(x, p), "find_first_of(char, pos)");
  PBT_EQ(T::find_last_of(x, p), a.find_last_of(x, p), "find_last_of(char, pos)");
  PBT_EQ(T::find_first_of(bv), a.find_first_of(bv)); PBT_EQ(T::find_last_of(bv), a.find_last_of(bv));
  PBT_EQ(T::find_first_of(x), a.find_first_of(x)); PBT_EQ(T::find_last_of(x), a.find_last_of(x));
  PBT_EQ(Sgn(T::compare(bv)), Sgn(a.compare(bv)), "compare");
  PBT_EQ(t == bv, a == bv); PBT_EQ(bv == t, a == bv); PBT_EQ(t != bv, a != bv); PBT_EQ(t == b, a == bv); PBT_EQ(b == t, a == bv);
  PBT_EQ(Sgn(t <=> bv), Sgn(a <=> bv)); PBT_EQ(Sgn(bv <=> t), Sgn(bv <=> a)); PBT_EQ(t < b, a < bv); PBT_EQ(b < t, bv < a); PBT_EQ(t >= bv, a >= bv);
  if (b.find('\0') == b.npos) { PBT_EQ(t == b.c_str(), a == bv); PBT_EQ(t < b.c_str(), a < bv); }
  std::ostringstream os;
  os << t;
  PBT_EQ(os.str(), a, "streamed");
  PBT_EQ(std::string(T::begin(), T::end()), a); PBT_EQ(std::string(T::crbegin(), T::crend()), std::string(a.rbegin(), a.rend()));
  PBT_EQ(T::StringHash(), mbo::hash::GetHash64(a)); PBT_EQ(T::Hash(), std::hash<const T>{}(t));
  PBT_EQ(absl::HashOf(t), absl::HashOf(T{}));
}
}  // namespace
PBT_PROP(run_time_arguments, 200000, 4000000, "twelve compile-time strings (empty, one char, repeats, NUL and high bytes) against random string/position/count/character arguments; non-trivial: both strings non-empty") {
#define S(L) One(src, std::string_view(L, sizeof(L) - 1), L##_ts)
  switch (src.Draw(11)) {
    case 0: S(""); break;
    case 1: S("a"); break;
    case 2: S("ab"); break;
    case 3: S("aaa"); break;
    case 4: S("abcab"); break;
    case 5: S("a\0b"); break;
    case 6: S("\0"); break;
    case 7: S("\xff\x80" "a\xff"); break;
    case 8: S("abababab"); break;
    case 9: S("cabcabcac"); break;
    case 10: S("b\0\0b\0"); break;
    default: S("the quick brown fox"); break;
  }
}
