// T03: extended structs behave as the tuple of their fields. One binary per group of
// field counts (T03_PART).
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mbo/types/extend.h"
#include "pbt.h"

namespace {

using Pair = std::pair<int, std::string>;
struct Inner : mbo::types::Extend<Inner> {
  int a;
  std::string b;
  std::tuple<const int&, const std::string&> Tie() const { return {a, b}; }
};

#include "t03_structs.inc"

#ifdef __clang__
constexpr bool kNames = true;
#else
constexpr bool kNames = false;
#endif

template<typename T>
T Val(int v) {
  if constexpr (std::is_same_v<T, bool>) return v % 2 == 1;
  else if constexpr (std::is_same_v<T, double>) return v == 3 ? std::numeric_limits<double>::quiet_NaN() : v == 2 ? -0.0 : v / 2.0;
  else if constexpr (std::is_same_v<T, signed char>) return static_cast<signed char>('a' - v);
  else if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(v == 3 ? std::numeric_limits<T>::min() : v);
  else if constexpr (std::is_same_v<T, std::string>) return v == 3 ? std::string("b") : std::string(static_cast<size_t>(v), 'b');
  else if constexpr (std::is_same_v<T, std::optional<int>>) return v == 0 ? std::nullopt : std::optional<int>(v - 2);
  else if constexpr (std::is_same_v<T, std::vector<int>>) return v == 3 ? std::vector<int>{1, 2} : std::vector<int>(static_cast<size_t>(v), 1);
  else if constexpr (std::is_same_v<T, Pair>) return {v / 2, v % 2 ? "y" : "x"};
  else return Inner{.a = v / 2, .b = v % 2 ? "y" : "x"};
}

// Field digits 0..3. `base` shares prefixes so that the deciding field varies.
std::vector<int> Digits(pbt::Src& src, size_t n) {
  std::vector<int> d(n);
  const int lim = src.Chance(1, 4) ? 3 : 2;
  for (auto& x : d) x = src.Int(0, lim);
  return d;
}
std::vector<int> Vary(pbt::Src& src, std::vector<int> d) {
  const size_t n = d.size();
  switch (src.Draw(3)) {
    case 0: break;  // equal
    case 1: {       // one field
      const size_t p = src.Draw(n - 1);
      d[p] = src.Int(0, 3);
      break;
    }
    case 2: {  // everything from p on
      for (size_t p = src.Draw(n - 1); p < n; ++p) d[p] = src.Int(0, 2);
      break;
    }
    default: {  // two fields in opposite directions
      if (n > 1) {
        const size_t p = src.Draw(n - 2);
        const size_t q = p + 1 + src.Draw(n - p - 2);
        d[p] = src.Int(0, 2);
        d[q] = src.Int(0, 2);
      }
    }
  }
  return d;
}

template<typename Tup>
Tup MakeTup(const std::vector<int>& d) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return Tup{Val<std::tuple_element_t<I, Tup>>(d[I])...}; }(std::make_index_sequence<std::tuple_size_v<Tup>>{});
}
template<typename X>
X Make(const std::vector<int>& d) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return X{{}, Val<std::tuple_element_t<I, typename X::Tup>>(d[I])...}; }(
      std::make_index_sequence<std::tuple_size_v<typename X::Tup>>{});
}
template<typename P>
P MakePlain(const std::vector<int>& d) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return P{Val<std::tuple_element_t<I, typename P::Tup>>(d[I])...}; }(
      std::make_index_sequence<std::tuple_size_v<typename P::Tup>>{});
}

// Reference comparison, field by field, written without std::tuple's operators.
int Cmp1(const double& a, const double& b) { return a < b ? -1 : a > b ? 1 : a == b ? 0 : 2; }
int Cmp1(const std::vector<int>& a, const std::vector<int>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
int Cmp1(const std::string& a, const std::string& b) { const int c = a.compare(b); return c < 0 ? -1 : c > 0; }
int Cmp1(const std::optional<int>& a, const std::optional<int>& b) {
  if (!a || !b) return a.has_value() == b.has_value() ? 0 : a.has_value() ? 1 : -1;
  return *a < *b ? -1 : *a > *b;
}
int Cmp1(const Pair& a, const Pair& b) { return a.first != b.first ? (a.first < b.first ? -1 : 1) : Cmp1(a.second, b.second); }
int Cmp1(const Inner& a, const Inner& b) { return a.a != b.a ? (a.a < b.a ? -1 : 1) : Cmp1(a.b, b.b); }
template<std::integral T>
int Cmp1(const T& a, const T& b) { return a < b ? -1 : a > b; }
// 2 = unordered
template<typename Tup>
int Ref(const Tup& a, const Tup& b) {
  int r = 0;
  [&]<size_t... I>(std::index_sequence<I...>) { (void)((r = Cmp1(std::get<I>(a), std::get<I>(b)), r == 0) && ...); }(std::make_index_sequence<std::tuple_size_v<Tup>>{});
  return r;
}
template<typename Tup>
bool RefEq(const Tup& a, const Tup& b) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return ((Cmp1(std::get<I>(a), std::get<I>(b)) == 0) && ...); }(std::make_index_sequence<std::tuple_size_v<Tup>>{});
}
template<typename O>
int Ord(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }

// Reference default rendering (names f0.. only known to clang).
std::string Txt(const std::string& s) { return "\"" + s + "\""; }
template<typename X, typename P>
void RunN(pbt::Src& src, int n) {
  n = static_cast<int>(std::tuple_size_v<typename X::Tup>);
  using Tup = typename X::Tup;
  const auto da = Digits(src, static_cast<size_t>(n));
  const auto db = Vary(src, da);
  PBT_NOTE("fields=" << n << " a=" << pbt::Show(da) << " b=" << pbt::Show(db));
  const X a = Make<X>(da);
  const X b = Make<X>(db);
  const Tup ta = MakeTup<Tup>(da);
  const Tup tb = MakeTup<Tup>(db);
  const P pa = MakePlain<P>(da);
  const P pb = MakePlain<P>(db);
  const int want = Ref(ta, tb);
  const bool eq = RefEq(ta, tb);
  if (n > 1 && da != db) src.NonTrivial();
  src.Label(want == 2 ? "unordered" : want == 0 ? "equal" : "ordered");
  const int back = want == 2 ? 2 : -want;
  const auto cmp = [&](const auto& x, const auto& y, int w, const char* what) {
    PBT_EQ(x == y, eq, what);
    PBT_EQ(x != y, !eq, what);
    PBT_EQ(x < y, w == -1, what);
    PBT_EQ(x > y, w == 1, what);
    PBT_EQ(x <= y, w == -1 || w == 0, what);
    PBT_EQ(x >= y, w == 1 || w == 0, what);
    PBT_EQ(Ord(x <=> y), w, what);
  };
  cmp(a, b, want, "a ? b");
  cmp(b, a, back, "b ? a");
#ifndef __clang__  // clang takes a std::tuple for a decomposable struct as well: ambiguous there
  cmp(a, tb, want, "a ? tuple");
  cmp(ta, b, want, "tuple ? b");
#endif
  cmp(a, pb, want, "a ? plain struct");
  cmp(pa, b, want, "plain struct ? b");
  // hash
  PBT_EQ(absl::HashOf(a), absl::HashOf(a.Tie()));
  PBT_EQ(std::hash<X>{}(a), absl::HashOf(a));
  {
    const X copy = a;
    PBT_EQ(absl::HashOf(copy), absl::HashOf(a));
  }
  if (eq) PBT_EQ(absl::HashOf(a), absl::HashOf(b));
  // construction
  const auto same = [&](const X& x, const Tup& t, const char* what) {
    // bit-for-bit: NaN counts as itself
    const bool ok = [&]<size_t... I>(std::index_sequence<I...>) {
      const auto tie = x.Tie();
      const auto one = [](const auto& u, const auto& v) {
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(u)>, double>) return std::isnan(u) ? std::isnan(v) : u == v && std::signbit(u) == std::signbit(v);
        else return Cmp1(u, v) == 0;
      };
      return (one(std::get<I>(tie), std::get<I>(t)) && ...);
    }(std::make_index_sequence<std::tuple_size_v<Tup>>{});
    PBT_CHECK(ok, what);
  };
  same(a, ta, "aggregate");
  {
    Tup t = ta;
    same(X::ConstructFromTuple(std::move(t)), ta, "ConstructFromTuple(tuple&&)");
  }
  {
    Tup t = ta;
    const X x = std::apply([](auto&... e) { return X::ConstructFromTuple(std::tuple<decltype(e)...>(e...)); }, t);
    same(x, ta, "ConstructFromTuple(refs)");
    same(std::apply([](auto&... e) { return X::ConstructFromArgs(e...); }, t), ta, "ConstructFromArgs(lvalues)");
    same(std::apply([](const auto&... e) { return X::ConstructFromConversions(e...); }, t), ta, "ConstructFromConversions(lvalues)");
    PBT_CHECK(RefEq(t, ta) || !RefEq(ta, ta), "the source tuple changed");
    same(std::apply([](auto&... e) { return X::ConstructFromArgs(std::move(e)...); }, t), ta, "ConstructFromArgs(rvalues)");
  }
  {
    Tup t = ta;
    same(std::apply([](auto&... e) { return X::ConstructFromConversions(std::move(e)...); }, t), ta, "ConstructFromConversions(rvalues)");
  }
  // printing agrees with the stringifier in every form
  const std::string def = mbo::types::Stringify().ToString(a);
  PBT_EQ(a.ToString(), def);
  std::ostringstream os;
  os << a;
  PBT_EQ(os.str(), def);
  PBT_EQ(absl::StrCat(a), def);
  PBT_EQ(absl::StrFormat("%v", a), def);
  PBT_EQ(a.ToString(mbo::types::Stringify::OptionsCpp()), mbo::types::Stringify(mbo::types::Stringify::OptionsCpp()).ToString(a));
  PBT_EQ(a.ToJsonString(), mbo::types::Stringify(mbo::types::Stringify::OptionsJson()).ToString(a));
  std::string want_txt = "{";
  bool full = true;
  std::apply([&](const auto&... e) {
    int i = 0;
    ((want_txt += (i ? ", " : "") + (kNames ? std::string(".f") + std::to_string(i) + ": " : ""), ++i, want_txt += [&](const auto& v) -> std::string {
        using T = std::remove_cvref_t<decltype(v)>;
        if constexpr (std::is_same_v<T, std::string>) return Txt(v);
        else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long long>) return std::to_string(v);
        else if constexpr (std::is_same_v<T, std::vector<int>>) {
          std::string r = "{";
          for (int x : v) r += (r.size() > 1 ? ", " : "") + std::to_string(x);
          return r + "}";
        } else if constexpr (std::is_same_v<T, Inner>) return kNames ? "{.a: " + std::to_string(v.a) + ", .b: " + Txt(v.b) + "}" : "{" + std::to_string(v.a) + ", " + Txt(v.b) + "}";
        else { full = false; return ""; }
      }(e)), ...);
  }, ta);
  if (full) {
    src.Label("text checked");
    PBT_EQ(def, want_txt + "}");
  }
}

PBT_PROP(extended_like_tuple, 6000, 60000, "at least two fields and two values that differ in some field") {
  static const std::vector<std::pair<int, void (*)(pbt::Src&, int)>> all = {
#define T03_ENTRY(n) {n, RunN<X##n, PlainX##n>},
      T03_ALL(T03_ENTRY)};
  const auto& [n, fn] = all[src.Draw(all.size() - 1)];
  fn(src, n < 100 ? n : 0);
}

#if T03_PART == 0
// Move-only fields and converting construction.
struct MoveOnly : mbo::types::Extend<MoveOnly> {
  std::unique_ptr<int> p;
  std::string s;
  std::unique_ptr<std::string> q;
};
struct Conv : mbo::types::ExtendNoPrint<Conv> {
  std::string s;
  double d;
  double f;
  long l;
};

PBT_PROP(move_only_and_conversions, 5000, 50000, "always (a random value reaches every field)") {
  src.NonTrivial();
  const int v = src.Int(-1000, 1000);
  const std::string str = src.Str("ab\n", 40);
  {
    auto p = std::make_unique<int>(v);
    auto q = std::make_unique<std::string>(str);
    const int* pp = p.get();
    const std::string* qq = q.get();
    MoveOnly m = src.Bool() ? MoveOnly::ConstructFromArgs(std::move(p), std::string(str), std::move(q))
                            : MoveOnly::ConstructFromTuple(std::tuple<std::unique_ptr<int>, std::string, std::unique_ptr<std::string>>(std::move(p), str, std::move(q)));
    PBT_CHECK(m.p.get() == pp && m.q.get() == qq && p == nullptr && q == nullptr, "ownership was not passed on");
    PBT_EQ(m.s, str);
    MoveOnly n{.p = nullptr, .s = str, .q = nullptr};
    PBT_CHECK(!(m == n) && m > n && n < m, "null pointers sort first");
  }
  {
    const std::string_view sv = str;
    const float f = static_cast<float>(v) / 4;
    const signed char sc = static_cast<signed char>(v);
    const Conv c = Conv::ConstructFromConversions(sv, v, f, sc);
    PBT_EQ(c.s, str);
    PBT_EQ(c.d, static_cast<double>(v));
    PBT_EQ(c.f, v / 4.0);
    PBT_EQ(c.l, static_cast<long>(sc));
    const Conv d = Conv::ConstructFromConversions(std::string_view(c.s), 0.5 + v, static_cast<short>(v), true);
    PBT_EQ(d.s, str);
    PBT_EQ(d.d, 0.5 + v);
    PBT_EQ(d.f, static_cast<double>(v));
    PBT_EQ(d.l, 1);
    PBT_CHECK(!(c == d) && c < d);
  }
}

// Extender selections.
template<typename Base>
struct CountFieldsImpl : Base {
  using Type = typename Base::Type;
  std::size_t CountFields() const { return std::tuple_size_v<decltype(static_cast<const Type&>(*this).ToTuple())>; }
};
using namespace mbo::types;  // NOLINT
struct CountFields final : mbo::types::MakeExtender<"CountFields"_ts, CountFieldsImpl> {};
struct OnlyCmp : ExtendNoDefault<OnlyCmp, mbo::extender::Comparable> { int a; int b; };
struct OnlyPrint : ExtendNoDefault<OnlyPrint, mbo::extender::AbslStringify, mbo::extender::Printable> { int a; int b; };
struct NoPrint : ExtendNoPrint<NoPrint> { int a; int b; };
struct NoPrintStream : ExtendNoPrint<NoPrintStream, mbo::extender::Streamable> { int a; int b; };
struct WithCount : Extend<WithCount, CountFields> { int a; int b; };
struct None : ExtendNoDefault<None> { int a; int b; };

template<typename T> concept CanCmp = requires(const T& v) { v == v; v < v; v <=> v; };
template<typename T> concept CanHash = requires(const T& v) { std::hash<T>{}(v); };
template<typename T> concept CanPrint = requires(const T& v) { v.ToString(); v.ToJsonString(); };
template<typename T> concept CanStream = requires(const T& v, std::ostream& os) { os << v; };

template<typename T>
void Selected(pbt::Src& src, bool cmp, bool hash, bool print, bool stream, std::vector<std::string_view> names, const char* what) {
  PBT_EQ(CanCmp<T>, cmp, what);
  PBT_EQ(CanHash<T>, hash, what);
  PBT_EQ(CanPrint<T>, print, what);
  PBT_EQ(CanStream<T>, stream, what);
  PBT_CHECK(mbo::types::IsExtended<T>, what);
  const auto got = T::RegisteredExtenderNames();
  PBT_EQ(std::vector<std::string_view>(got.begin(), got.end()), names, what);
  const int a1 = src.Int(0, 1), b1 = src.Int(0, 1), a2 = src.Int(0, 1), b2 = src.Int(0, 1);
  T x, y;
  x.a = a1; x.b = b1; y.a = a2; y.b = b2;
  if constexpr (CanCmp<T>) {
    PBT_EQ(x < y, std::pair(a1, b1) < std::pair(a2, b2));
    PBT_EQ(x == y, std::pair(a1, b1) == std::pair(a2, b2));
    PBT_EQ(x <=> y == 0, std::pair(a1, b1) == std::pair(a2, b2));
  }
  const std::string want = "{.a: " + std::to_string(a1) + ", .b: " + std::to_string(b1) + "}";
  if constexpr (CanPrint<T>) {
    PBT_EQ(x.ToString(), want);
    PBT_EQ(x.ToJsonString(), "{\"a\":" + std::to_string(a1) + ",\"b\":" + std::to_string(b1) + "}\n");
  }
  if constexpr (CanStream<T>) {
    std::ostringstream os;
    os << x;
    PBT_EQ(os.str(), want);
  }
  if constexpr (CanHash<T>) PBT_EQ(std::hash<T>{}(x), absl::HashOf(std::tie(x.a, x.b)));
}

PBT_PROP(extender_selection, 500, 5000, "always (two random values per extender selection)") {
  src.NonTrivial();
  Selected<OnlyCmp>(src, true, false, false, false, {"Comparable"}, "OnlyCmp");
  Selected<OnlyPrint>(src, false, false, true, false, {"AbslStringify", "Printable"}, "OnlyPrint");
  Selected<NoPrint>(src, true, true, false, false, {"AbslHashable", "AbslStringify", "Comparable"}, "NoPrint");
  Selected<NoPrintStream>(src, true, true, false, true, {"AbslHashable", "AbslStringify", "Comparable", "Streamable"}, "NoPrintStream");
  Selected<WithCount>(src, true, true, true, true, {"AbslHashable", "AbslStringify", "Comparable", "Printable", "Streamable", "CountFields"}, "WithCount");
  Selected<None>(src, false, false, false, false, {}, "None");
  PBT_EQ(absl::StrCat(NoPrint{.a = 1, .b = 2}), "{.a: 1, .b: 2}");
  PBT_CHECK(!mbo::types::IsExtended<PlainX4> && !mbo::types::IsExtended<int>);
}
#endif

}  // namespace
