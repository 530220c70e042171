// B01: test matchers accept exactly what they describe.
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "absl/container/btree_map.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "gmock/gmock.h"
#include "gtest/gtest-spi.h"
#include "gtest/gtest.h"
#include "mbo/container/limited_vector.h"
#include "mbo/strings/indent.h"
#include "mbo/testing/matchers.h"
#include "mbo/testing/status.h"
#include "pbt.h"

namespace {

namespace t = ::testing;
using namespace mbo::testing;

// A matcher and the plain condition it stands for.
template<typename T>
struct Pred {
  t::Matcher<const T&> matcher;
  std::function<bool(const T&)> holds;
  std::string show;
};
template<typename T, typename Leaf>
Pred<T> Tree(pbt::Src& src, int depth, Leaf leaf) {
  const std::size_t kind = depth == 0 ? 0 : src.Weighted({6, 2, 1, 1});
  if (kind == 0) return leaf();
  Pred<T> a = Tree<T>(src, depth - 1, leaf);
  if (kind == 1) return {t::Not(a.matcher), [a](const T& v) { return !a.holds(v); }, "!" + a.show};
  Pred<T> b = Tree<T>(src, depth - 1, leaf);
  if (kind == 2) return {t::AllOf(a.matcher, b.matcher), [a, b](const T& v) { return a.holds(v) && b.holds(v); }, "(" + a.show + " && " + b.show + ")"};
  return {t::AnyOf(a.matcher, b.matcher), [a, b](const T& v) { return a.holds(v) || b.holds(v); }, "(" + a.show + " || " + b.show + ")"};
}
template<typename T>
Pred<T> NumPred(pbt::Src& src, int64_t lo, int64_t hi, int depth = 2) {
  return Tree<T>(src, depth, [&]() -> Pred<T> {
    const T x = static_cast<T>(src.Int(lo, hi));
    const std::string s = std::to_string(x);
    switch (src.Draw(6)) {
      case 0: return {t::Eq(x), [x](const T& v) { return v == x; }, "==" + s};
      case 1: return {t::Ne(x), [x](const T& v) { return v != x; }, "!=" + s};
      case 2: return {t::Lt(x), [x](const T& v) { return v < x; }, "<" + s};
      case 3: return {t::Le(x), [x](const T& v) { return v <= x; }, "<=" + s};
      case 4: return {t::Gt(x), [x](const T& v) { return v > x; }, ">" + s};
      case 5: return {t::Ge(x), [x](const T& v) { return v >= x; }, ">=" + s};
      default: return {t::_, [](const T&) { return true; }, "any"};
    }
  });
}
std::string Word(pbt::Src& src) { return src.Chance(1, 6) ? src.RawBytes(4) : src.Str("ab", 3); }
Pred<std::string> StrPred(pbt::Src& src, int depth = 2) {
  using S = std::string;
  return Tree<S>(src, depth, [&]() -> Pred<S> {
    const S x = Word(src);
    switch (src.Draw(6)) {
      case 0: return {t::Eq(x), [x](const S& v) { return v == x; }, "==" + x};
      case 1: return {t::HasSubstr(x), [x](const S& v) { return v.find(x) != v.npos; }, "has " + x};
      case 2: return {t::StartsWith(x), [x](const S& v) { return v.starts_with(x); }, "starts " + x};
      case 3: return {t::EndsWith(x), [x](const S& v) { return v.ends_with(x); }, "ends " + x};
      case 4: return {t::IsEmpty(), [](const S& v) { return v.empty(); }, "empty"};
      case 5: {
        Pred<std::size_t> n = NumPred<std::size_t>(src, 0, 4, 1);
        return {t::SizeIs(n.matcher), [n](const S& v) { return n.holds(v.size()); }, "size " + n.show};
      }
      default: return {t::_, [](const S&) { return true; }, "any"};
    }
  });
}

// Whether `matcher` accepts `value`, asked in every way there is.
template<typename M, typename V>
void Check(const M& matcher, const V& value, bool want, std::string_view what) {
  const t::Matcher<const V&> m = matcher;
  PBT_EQ(m.Matches(value), want, what << (want ? ": must accept" : ": must reject"));
  t::StringMatchResultListener listener;
  PBT_EQ(m.MatchAndExplain(value, &listener), want, what << ": with explanation");
  PBT_EQ(t::Value(value, matcher), want, what << ": Value");
  PBT_EQ(t::Value(value, t::Not(matcher)), !want, what << ": Not");
  PBT_EQ(t::Value(value, t::AllOf(matcher, matcher)), want, what << ": AllOf");
  const t::Matcher<V> by_value = matcher;
  PBT_EQ(by_value.Matches(value), want, what << ": by value");
  std::ostringstream yes, no;
  m.DescribeTo(&yes);
  m.DescribeNegationTo(&no);
  PBT_CHECK(!yes.str().empty() && !no.str().empty(), what << ": description");
}

template<typename C, typename V>
bool In(const C& c, const V& v) {
  for (const auto& e : c) {
    if (e == v) return true;
  }
  return false;
}
template<typename T>
std::vector<T> Many(pbt::Src& src, const std::function<T()>& make, std::size_t most) {
  std::vector<T> r;
  for (std::size_t n = src.Size(0, most); n > 0; --n) r.push_back(make());
  return r;
}

PBT_PROP(membership, 60000, 1500000, "the container is not empty") {
  const std::function<int()> num = [&] { return static_cast<int>(src.Int(-2, 4)); };
  const std::function<std::string()> str = [&] { return Word(src); };
  switch (src.Draw(9)) {
    case 0: {
      auto c = Many<int>(src, num, 4);
      const auto kept = c;
      const auto m = IsElementOf(c);
      c.clear();
      if (!kept.empty()) src.NonTrivial();
      for (int i = 0; i < 3; ++i) {
        const int v = num();
        PBT_NOTE("vector " << pbt::Show(kept) << " value " << v);
        Check(m, v, In(kept, v), "int in vector<int>");
        Check(m, static_cast<long>(v), In(kept, v), "long in vector<int>");
        Check(m, static_cast<double>(v) + 0.5, false, "double in vector<int>");
        Check(t::Each(m), std::vector<int>{v, v}, In(kept, v), "Each(IsElementOf)");
      }
      break;
    }
    case 1: {
      auto v = Many<std::string>(src, str, 4);
      std::set<std::string> c(v.begin(), v.end());
      const auto kept = c;
      const auto m = IsElementOf(std::move(c));
      if (!kept.empty()) src.NonTrivial();
      const std::string x = str();
      PBT_NOTE("set " << pbt::Show(v) << " value " << pbt::Quote(x));
      Check(m, x, kept.contains(x), "string in set<string>");
      Check(m, std::string_view(x), kept.contains(x), "string_view in set<string>");
      if (x.find('\0') == x.npos) {
        const char* p = x.c_str();
        Check(m, p, kept.contains(x), "const char* in set<string>");
      }
      break;
    }
    case 2: {
      std::list<std::pair<std::string, std::string>> c;
      for (std::size_t n = src.Size(0, 4); n > 0; --n) { auto a = str(); c.emplace_back(a, str()); }
      if (!c.empty()) src.NonTrivial();
      const auto m = IsElementOf(c);
      const std::string a = str(), b = str();
      Check(m, std::make_pair(a, b), In(c, std::make_pair(a, b)), "pair in list of pairs");
      Check(m, std::make_pair(std::string_view(a), std::string_view(b)), In(c, std::make_pair(a, b)), "pair of views in list of pairs");
      if (a.find('\0') == a.npos) Check(m, std::make_pair(a.c_str(), b), In(c, std::make_pair(a, b)), "mixed pair in list of pairs");
      break;
    }
    case 3: {
      std::map<int, std::string> c;
      for (std::size_t n = src.Size(0, 4); n > 0; --n) { int k = num(); c[k] = str(); }
      if (!c.empty()) src.NonTrivial();
      const auto kept = c;
      const auto k = IsKeyOf(c);
      const auto v = IsValueOf(c);
      c.clear();
      const int x = num();
      const std::string s = str();
      bool has = false;
      for (const auto& e : kept) has = has || e.second == s;
      PBT_NOTE("key " << x << " value " << pbt::Quote(s) << " of " << kept.size());
      Check(k, x, kept.contains(x), "IsKeyOf(map<int, string>)");
      Check(v, s, has, "IsValueOf(map<int, string>)");
      Check(v, std::string_view(s), has, "IsValueOf(map<int, string>) of a view");
      break;
    }
    case 4: {
      std::multimap<std::string, int> c;
      for (std::size_t n = src.Size(0, 4); n > 0; --n) { auto k = str(); c.emplace(k, num()); }
      if (!c.empty()) src.NonTrivial();
      const std::string s = str();
      const int x = num();
      bool has = false;
      for (const auto& e : c) has = has || e.second == x;
      Check(IsKeyOf(c), s, c.contains(s), "IsKeyOf(multimap)");
      Check(IsKeyOf(c), std::string_view(s), c.contains(s), "IsKeyOf(multimap) of a view");
      Check(IsValueOf(c), x, has, "IsValueOf(multimap)");
      break;
    }
    case 5: {
      const int a = num(), b = num(), c = num(), x = num();
      src.NonTrivial();
      const auto m = IsElementOf({a, b, c});
      Check(m, x, x == a || x == b || x == c, "initializer list");
      Check(IsElementOf({a}), x, x == a, "initializer list of one");
      break;
    }
    case 6: {
      std::vector<bool> c;
      for (std::size_t n = src.Size(0, 3); n > 0; --n) c.push_back(src.Bool());
      if (!c.empty()) src.NonTrivial();
      const bool x = src.Bool();
      Check(IsElementOf(c), x, In(c, x), "bool in vector<bool>");
      break;
    }
    case 7: {
      std::deque<std::vector<int>> c;
      for (std::size_t n = src.Size(0, 3); n > 0; --n) c.push_back(Many<int>(src, num, 2));
      if (!c.empty()) src.NonTrivial();
      const auto x = Many<int>(src, num, 2);
      Check(IsElementOf(c), x, In(c, x), "vector in deque of vectors");
      Check(t::Not(IsElementOf(c)), x, !In(c, x), "not: vector in deque of vectors");
      break;
    }
    case 8: {
      std::map<std::string, std::optional<int>> c;
      for (std::size_t n = src.Size(0, 4); n > 0; --n) { auto k = str(); c[k] = src.Bool() ? std::optional<int>(num()) : std::nullopt; }
      if (!c.empty()) src.NonTrivial();
      const std::optional<int> x = src.Bool() ? std::optional<int>(num()) : std::nullopt;
      bool has = false;
      for (const auto& e : c) has = has || e.second == x;
      Check(IsValueOf(c), x, has, "IsValueOf with optional values");
      Check(IsNullopt(), x, !x.has_value(), "IsNullopt");
      break;
    }
    default: {
      const std::string s = str();
      const std::string c = Word(src);
      if (!c.empty()) src.NonTrivial();
      const char x = src.PickChar("ab\n");
      Check(IsElementOf(c), x, c.find(x) != c.npos, "char in string");
      break;
    }
  }
}

PBT_PROP(capacity, 40000, 1000000, "capacity and size differ") {
  const Pred<std::size_t> p = NumPred<std::size_t>(src, 0, 12);
  const std::size_t exact = src.Size(0, 12);
  PBT_NOTE("capacity " << p.show);
  std::vector<int> v;
  v.reserve(src.Size(0, 12));
  for (std::size_t n = src.Size(0, 4); n > 0; --n) v.push_back(1);
  if (v.size() != v.capacity()) src.NonTrivial();
  Check(CapacityIs(p.matcher), v, p.holds(v.capacity()), "vector");
  {
    const t::Matcher<const std::vector<int>&> m = CapacityIs(p.matcher);
    PBT_EQ(m.Matches(v), p.holds(v.capacity()), "stored matcher");
    const t::Matcher<const std::vector<int>&> e = CapacityIs(exact);
    PBT_EQ(e.Matches(v), v.capacity() == exact, "stored matcher of a number");
    PBT_EQ(t::Value(v, t::Not(CapacityIs(p.matcher))), !p.holds(v.capacity()), "not");
    PBT_EQ(t::Value(v, CapacityIs(static_cast<int>(exact))), v.capacity() == exact, "int");
    PBT_EQ(t::Value(v, CapacityIs(t::Le(exact))), v.capacity() <= exact, "Le");
  }
  std::string s;
  s.reserve(src.Size(0, 60));
  PBT_EQ(t::Value(s, CapacityIs(s.capacity())), true, "string");
  PBT_EQ(t::Value(s, CapacityIs(s.capacity() + 1)), false, "string");
  PBT_EQ(t::Value(s, CapacityIs(s.size() + 100)), false, "string");
  mbo::container::LimitedVector<int, 7> l;
  for (std::size_t n = src.Size(0, 7); n > 0; --n) l.push_back(1);
  PBT_EQ(t::Value(l, CapacityIs(p.matcher)), p.holds(7), "LimitedVector");
}

std::string Twice(int v) { return std::to_string(v * 2); }
int Length(const std::string& s) { return static_cast<int>(s.size()); }
// A transformation with a state of its own.
struct Append {
  std::string text;
  std::string operator()(int v) const { return std::to_string(v) + text; }
};

// What the transformed elements have to be like.
template<typename T>
Pred<std::vector<T>> ListPred(pbt::Src& src, const std::vector<T>& real, const std::function<T()>& make, const std::function<Pred<T>()>& inner) {
  using V = std::vector<T>;
  std::vector<T> near = real;  // the right answer, or nearly
  if (src.Chance(1, 2)) {
    if (!near.empty() && src.Bool()) {
      near[src.Draw(near.size() - 1)] = make();
    } else if (!near.empty() && src.Bool()) {
      near.pop_back();
    } else if (near.size() > 1 && src.Bool()) {
      std::swap(near[0], near[near.size() - 1]);
    } else {
      near.push_back(make());
    }
  }
  auto sorted = [](V v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  switch (src.Draw(7)) {
    case 0: return {t::ElementsAreArray(near), [near](const V& v) { return v == near; }, "elements"};
    case 1: return {t::UnorderedElementsAreArray(near), [near, sorted](const V& v) { return sorted(v) == sorted(near); }, "unordered elements"};
    case 2: return {t::WhenSorted(t::ElementsAreArray(near)), [near, sorted](const V& v) { return sorted(v) == near; }, "sorted elements"};
    case 3: {
      const std::size_t n = near.size();
      return {t::SizeIs(n), [n](const V& v) { return v.size() == n; }, "size"};
    }
    case 4: {
      const Pred<T> p = inner();
      return {t::Contains(p.matcher), [p](const V& v) { return std::any_of(v.begin(), v.end(), p.holds); }, "contains " + p.show};
    }
    case 5: {
      const Pred<T> p = inner();
      return {t::Each(p.matcher), [p](const V& v) { return std::all_of(v.begin(), v.end(), p.holds); }, "each " + p.show};
    }
    case 6: return {t::IsEmpty(), [](const V& v) { return v.empty(); }, "empty"};
    default: return {t::Not(t::Eq(near)), [near](const V& v) { return v != near; }, "not equal"};
  }
}

template<typename Out, typename C, typename F>
void Transformed(pbt::Src& src, const C& container, const F& f, const std::function<Out()>& make, const std::function<Pred<Out>()>& inner, std::string_view what) {
  std::vector<Out> real;
  for (const auto& e : container) real.push_back(f(e));
  const Pred<std::vector<Out>> p = ListPred<Out>(src, real, make, inner);
  PBT_NOTE(what << ": transformed " << pbt::Show(real) << " must be " << p.show);
  if (!real.empty()) src.NonTrivial();
  const bool want = p.holds(real);
  Check(WhenTransformedBy(f, p.matcher), container, want, what);
  // A matcher kept for longer, its arguments as well (see the finding below).
  const t::Matcher<const C&> stored = WhenTransformedBy(f, p.matcher);
  PBT_EQ(stored.Matches(container), want, what << ": stored matcher");
  PBT_EQ(t::Value(container, t::Not(stored)), !want, what << ": Not of the stored matcher");
}

// WhenTransformedBy refers to its arguments, all other matchers copy theirs.
PBT_FINDING(refers_to_arguments, "when_transformed_by_refers_to_arguments") {
  Append f{"a"};
  const t::Matcher<const std::vector<int>&> m = WhenTransformedBy(f, t::ElementsAre("1a"));
  f.text = "b";
  return !m.Matches({1});
}

PBT_PROP(transformed, 40000, 1000000, "the container has elements") {
  const std::function<int()> num = [&] { return static_cast<int>(src.Int(-2, 4)); };
  const std::function<std::string()> str = [&] { return src.Str("0123-", 2); };
  const std::function<Pred<int>()> nump = [&] { return NumPred<int>(src, -2, 5, 1); };
  const std::function<Pred<std::string>()> strp = [&] { return StrPred(src, 1); };
  const std::vector<int> v = Many<int>(src, num, 5);
  switch (src.Draw(6)) {
    case 0: Transformed<std::string>(src, v, Append{std::string(src.Size(0, 40), '!')}, str, strp, "vector, stateful"); break;
    case 1: {
      const std::string tail = src.Str("xy", 30);
      Transformed<std::string>(src, std::list<int>(v.begin(), v.end()), [tail](int x) { return std::to_string(x) + tail; }, str, strp, "list, lambda");
      break;
    }
    case 2: Transformed<std::string>(src, std::set<int>(v.begin(), v.end()), &Twice, str, strp, "set, function pointer"); break;
    case 3: {
      std::map<int, int> m;
      for (int x : v) m[x] = num();
      Transformed<int>(src, m, [](const std::pair<const int, int>& e) { return e.first * 10 + e.second; }, num, nump, "map");
      break;
    }
    case 4: {
      std::vector<std::string> s;
      for (int x : v) s.push_back(std::string(static_cast<std::size_t>(x + 2), 'q'));
      Transformed<int>(src, s, &Length, num, nump, "strings, function pointer");
      break;
    }
    case 5: {
      const std::string s = src.Str("abc", 6);
      Transformed<int>(src, s, [](char c) { return c - 'a'; }, num, nump, "string");
      break;
    }
    default: {
      const std::function<std::string(int)> f = [n = src.Int(0, 3)](int x) { return std::to_string(x * n); };
      Transformed<std::string>(src, std::deque<int>(v.begin(), v.end()), f, str, strp, "deque, std::function");
      break;
    }
  }
}

PBT_PROP(text, 40000, 800000, "the text has several lines") {
  auto lines = [&] { return src.Chance(1, 5) ? src.RawBytes(6) : src.Str("ab \n\t", 10); };
  const std::string a = lines();
  std::string b = src.Chance(1, 2) ? a : lines();
  if (src.Chance(1, 6)) b += src.PickStr({"\n", " ", "\r", "a"});
  if (a.find('\n') != a.npos) src.NonTrivial();
  PBT_NOTE(pbt::Quote(a) << " and " << pbt::Quote(b));
  std::string given = a;
  const auto m = EqualsText(given);
  given.assign(given.size(), '?');
  const bool same = a == b;
  PBT_EQ(t::Value(b, m), same, "EqualsText");
  PBT_EQ(t::Value(std::string_view(b), m), same, "EqualsText of a view");
  PBT_EQ(t::Value(b, t::Not(m)), !same, "Not(EqualsText)");
  t::StringMatchResultListener listener;
  PBT_EQ(t::ExplainMatchResult(m, b, &listener), same, "EqualsText with explanation");
  const std::string dropped = mbo::strings::DropIndent(a);
  for (const std::string& x : {b, dropped, a, mbo::strings::DropIndent(b)}) {
    PBT_EQ(t::Value(x, WithDropIndent(EqualsText(a))), x == dropped, "WithDropIndent for " << pbt::Quote(x));
    PBT_EQ(t::Value(x, EqualsText(a)), x == a, "EqualsText for " << pbt::Quote(x));
    PBT_EQ(t::Value(x, t::Not(WithDropIndent(EqualsText(a)))), x != dropped, "Not(WithDropIndent) for " << pbt::Quote(x));
  }
}

struct StatusModel {
  int code = 0;
  std::string message;
  std::map<std::string, std::string> payloads;
};
absl::Status Make(const StatusModel& m) {
  absl::Status s(static_cast<absl::StatusCode>(m.code), m.message);
  for (const auto& [k, v] : m.payloads) s.SetPayload(k, absl::Cord(v));
  return s;
}
StatusModel AnyStatus(pbt::Src& src) {
  StatusModel m;
  if (src.Chance(1, 5)) return m;
  m.code = static_cast<int>(src.Int(1, 16));
  m.message = Word(src);
  for (std::size_t n = src.Draw(3); n > 0; --n) m.payloads[src.Bool() ? "u" + std::to_string(n) : Word(src)] = Word(src);
  return m;
}

template<typename S>
void StatusChecks(pbt::Src& src, const StatusModel& m, const S& status, std::string_view what) {
  Check(IsOk(), status, m.code == 0, what);
  // Codes.
  const int code = src.Chance(1, 2) ? m.code : static_cast<int>(src.Int(0, 16));
  const int other = static_cast<int>(src.Int(0, 16));
  const auto ac = static_cast<absl::StatusCode>(code), oc = static_cast<absl::StatusCode>(other);
  Check(StatusIs(ac), status, m.code == code, "StatusIs(code)");
  Check(StatusIs(t::AnyOf(ac, oc)), status, m.code == code || m.code == other, "StatusIs(AnyOf)");
  Check(StatusIs(t::Not(ac)), status, m.code != code, "StatusIs(Not)");
  Check(StatusIs(t::Ne(ac)), status, m.code != code, "StatusIs(Ne)");
  Check(StatusIs(t::_), status, true, "StatusIs(_)");
  Check(StatusIs(code), status, m.code == code, "StatusIs(int)");
  const Pred<std::string> p = StrPred(src);
  PBT_NOTE("message " << p.show);
  // The message of an OK status is ignored.
  const bool msg = m.code == 0 || p.holds(m.message);
  Check(StatusIs(ac, p.matcher), status, m.code == code && msg, "StatusIs(code, message)");
  Check(StatusIs(t::_, p.matcher), status, msg, "StatusIs(_, message)");
  Check(StatusIs(t::AllOf(t::Ne(ac), t::Ne(oc)), p.matcher), status, m.code != code && m.code != other && msg, "StatusIs(AllOf(Ne, Ne), message)");
  const std::string text = src.Bool() ? m.message : Word(src);
  Check(StatusIs(ac, text), status, m.code == code && (m.code == 0 || m.message == text), "StatusIs(code, text)");
  Check(StatusIs(ac, t::Not(text)), status, m.code == code && (m.code == 0 || m.message != text), "StatusIs(code, Not(text))");
  // Payloads.
  Check(StatusHasPayload(), status, !m.payloads.empty(), "StatusHasPayload()");
  const std::string url = !m.payloads.empty() && src.Chance(2, 3) ? std::next(m.payloads.begin(), static_cast<long>(src.Draw(m.payloads.size() - 1)))->first : Word(src);
  const auto at = m.payloads.find(url);
  const bool has = at != m.payloads.end();
  PBT_NOTE("url " << pbt::Quote(url));
  Check(StatusHasPayload(url), status, has, "StatusHasPayload(url)");
  Check(StatusHasPayload(url, p.matcher), status, has && p.holds(at->second), "StatusHasPayload(url, matcher)");
  const std::string data = has && src.Bool() ? at->second : Word(src);
  Check(StatusHasPayload(url, data), status, has && at->second == data, "StatusHasPayload(url, text)");
  Check(StatusHasPayload(url, t::Not(t::Eq(data))), status, has && at->second != data, "StatusHasPayload(url, Not)");
  std::map<std::string, std::string> want = m.payloads;
  if (src.Bool()) {
    if (!want.empty() && src.Bool()) {
      if (src.Bool()) {
        want.begin()->second += "x";
      } else {
        want.erase(want.begin());
      }
    } else {
      want["new"] = "x";
    }
  }
  const bool same = want == m.payloads;
  std::vector<std::pair<const std::string, std::string>> list(want.begin(), want.end());
  Check(StatusPayloads(t::UnorderedElementsAreArray(list)), status, same, "StatusPayloads(UnorderedElementsAreArray)");
  Check(StatusPayloads(t::ElementsAreArray(list)), status, same, "StatusPayloads(ElementsAreArray)");
  Check(StatusPayloads(t::IsEmpty()), status, m.payloads.empty(), "StatusPayloads(IsEmpty)");
  Check(StatusPayloads(t::SizeIs(want.size())), status, want.size() == m.payloads.size(), "StatusPayloads(SizeIs)");
  Check(StatusPayloads(t::Contains(t::Key(url))), status, has, "StatusPayloads(Contains(Key))");
  Check(StatusPayloads(t::Contains(t::Pair(url, p.matcher))), status, has && p.holds(at->second), "StatusPayloads(Contains(Pair))");
}

PBT_PROP(status, 10000, 250000, "the status is an error") {
  const StatusModel m = AnyStatus(src);
  PBT_NOTE("code " << m.code << " " << pbt::Quote(m.message) << " payloads " << m.payloads.size());
  if (m.code != 0) src.NonTrivial();
  const absl::Status s = Make(m);
  StatusChecks(src, m, s, "Status");
  const int held = static_cast<int>(src.Int(-3, 3));
  const absl::StatusOr<int> so = m.code == 0 ? absl::StatusOr<int>(held) : absl::StatusOr<int>(s);
  StatusChecks(src, m, so, "StatusOr<int>");
  const Pred<int> p = NumPred<int>(src, -3, 3);
  PBT_NOTE("holds " << held << " must be " << p.show);
  Check(IsOkAndHolds(p.matcher), so, so.ok() && p.holds(held), "IsOkAndHolds(matcher)");
  Check(IsOkAndHolds(2), so, so.ok() && held == 2, "IsOkAndHolds(value)");
  Check(IsOkAndHolds(t::Not(2)), so, so.ok() && held != 2, "IsOkAndHolds(Not(value))");
  const std::string text = Word(src);
  const absl::StatusOr<std::string> st = m.code == 0 ? absl::StatusOr<std::string>(text) : absl::StatusOr<std::string>(s);
  const Pred<std::string> q = StrPred(src);
  Check(IsOkAndHolds(q.matcher), st, st.ok() && q.holds(text), "IsOkAndHolds(string matcher)");
  Check(IsOkAndHolds("ab"), st, st.ok() && text == "ab", "IsOkAndHolds(literal)");
  Check(IsOkAndHolds(std::string(text)), st, st.ok(), "IsOkAndHolds(string)");
  const absl::StatusOr<std::unique_ptr<int>> sp = m.code == 0 ? absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(held)) : absl::StatusOr<std::unique_ptr<int>>(s);
  PBT_EQ(t::Value(sp, IsOkAndHolds(t::Pointee(p.matcher))), sp.ok() && p.holds(held), "IsOkAndHolds(Pointee)");
  PBT_EQ(t::Value(sp, t::Not(IsOkAndHolds(t::Pointee(p.matcher)))), !(sp.ok() && p.holds(held)), "Not(IsOkAndHolds(Pointee))");
  PBT_EQ(t::Value(sp, IsOk()), sp.ok(), "IsOk of a StatusOr of a move-only type");
  const t::Matcher<const absl::StatusOr<std::string>&> stored = IsOkAndHolds(std::string(text) + "z");
  PBT_EQ(stored.Matches(st), false, "stored IsOkAndHolds");
}

// The assigning macros: evaluate once, stop the test on errors, move the value.
struct World {
  StatusModel m;
  int calls = 0, passed = 0;
  std::unique_ptr<int> owner = std::make_unique<int>(-1);
  int sum = 0;
};
absl::StatusOr<std::unique_ptr<int>> Give(World& w) {
  ++w.calls;
  if (w.m.code != 0) return Make(w.m);
  return std::make_unique<int>(7);
}
absl::StatusOr<std::pair<int, int>> GivePair(World& w) {
  ++w.calls;
  if (w.m.code != 0) return Make(w.m);
  return std::make_pair(3, 4);
}
void AssignNew(World& w) {
  MBO_ASSERT_OK_AND_ASSIGN(const std::unique_ptr<int> p, Give(w));
  w.sum = *p;
  ++w.passed;
}
void AssignOld(World& w) {
  MBO_ASSERT_OK_AND_ASSIGN(w.owner, Give(w));
  w.sum = *w.owner;
  ++w.passed;
}
void MoveTo(World& w) {
  MBO_ASSERT_OK_AND_MOVE_TO(GivePair(w), const auto [a, b]);
  w.sum = a + b;
  ++w.passed;
}
void AssertOk(World& w) {
  MBO_ASSERT_OK(Give(w));
  w.sum = 7;
  ++w.passed;
}
void ExpectOk(World& w) {
  MBO_EXPECT_OK(Give(w));
  w.sum = 7;
  ++w.passed;
}

PBT_PROP(macros, 10000, 100000, "the expression is an error") {
  World w{.m = AnyStatus(src)};
  if (w.m.code != 0) src.NonTrivial();
  const bool ok = w.m.code == 0;
  const std::size_t which = src.Draw(4);
  PBT_NOTE("macro " << which << " with code " << w.m.code);
  t::TestPartResultArray results;
  {
    t::ScopedFakeTestPartResultReporter reporter(t::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &results);
    switch (which) {
      case 0: AssignNew(w); break;
      case 1: AssignOld(w); break;
      case 2: MoveTo(w); break;
      case 3: AssertOk(w); break;
      default: ExpectOk(w); break;
    }
  }
  PBT_EQ(w.calls, 1, "evaluations");
  PBT_EQ(results.size(), ok ? 0 : 1, "failures");
  const bool goes_on = ok || which == 4;
  PBT_EQ(w.passed, goes_on ? 1 : 0, "what follows");
  PBT_EQ(w.sum, goes_on ? 7 : 0, "value");
  if (!ok) PBT_EQ(results.GetTestPartResult(0).fatally_failed(), which != 4, "fatal failure");
  PBT_CHECK(w.owner != nullptr, "target");
  PBT_EQ(*w.owner, ok && which == 1 ? 7 : -1, "target");
}

}  // namespace
