// C04: AnyScan / ConstScan / ConvertingScan and ConvertContainer.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "mbo/container/any_scan.h"
#include "mbo/container/convert_container.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "pbt.h"
#include "tracked.h"
namespace mc = mbo::container;

namespace {
using S = std::string;
using SV = std::string_view;
template<typename T> struct Mk_ { static T Make(int v) { return T(v); } };
template<> struct Mk_<S> { static S Make(int v) { return std::to_string(v) + S(size_t(v * 5 % 37), 'q'); } };
template<> struct Mk_<char> { static char Make(int v) { return char('a' + v % 26); } };
template<> struct Mk_<bool> { static bool Make(int v) { return v & 1; } };
template<typename T> struct Mk_<std::unique_ptr<T>> { static std::unique_ptr<T> Make(int v) { return std::make_unique<T>(v); } };
template<typename A, typename B> struct Mk_<std::pair<A, B>> { static std::pair<A, B> Make(int v) { return {Mk_<std::remove_const_t<A>>::Make(v), Mk_<B>::Make(v / 3)}; } };
template<typename T> T Mk(int v) { return Mk_<std::remove_cv_t<T>>::Make(v); }

// Fills a container with values made from ints.
template<typename C> C Fill(const std::vector<int>& vals) {
  using T = typename C::value_type;
  C c{};
  for (int v : vals) {
    if constexpr (requires { c.push_back(Mk<T>(v)); }) c.push_back(Mk<T>(v));
    else if constexpr (requires { c.emplace(Mk<T>(v)); }) c.emplace(Mk<T>(v));
    else { size_t i = size_t(&v - vals.data()); (void)i; }
  }
  if constexpr (requires { std::tuple_size<C>::value; }) { for (size_t i = 0; i < vals.size() && i < c.size(); ++i) c[i] = Mk<T>(vals[i]); }
  return c;
}
std::vector<int> Vals(pbt::Src& src) {
  std::vector<int> v;
  for (size_t i = 0, n = src.Size(0, 12); i < n; ++i) v.push_back(int(src.Draw(20)));
  PBT_NOTE("values ", pbt::Show(v));
  return v;
}

// The scan has to show exactly `want` (pointers to what to compare with); `at` gives the elements' addresses when the scan refers to a container of the caller.
template<bool kRef, typename Scan, typename W> void CheckScan(pbt::Src& src, Scan& scan, const std::vector<W>& want, const std::vector<const void*>& at, const char* what) {
  const size_t n = want.size();
  auto same = [&](const auto& got, size_t i, const char* how) {
    PBT_CHECK(i < n, what, " ", how, ": more than ", n, " elements");
    PBT_CHECK(got == want[i], what, " ", how, ": element ", i, " of ", n, " differs");
    if constexpr (kRef) { if (!at.empty()) PBT_CHECK(static_cast<const void*>(&got) == at[i], what, " ", how, ": not the container's element"); }
  };
  PBT_EQ(scan.size(), n, what, " size");
  PBT_EQ(scan.empty(), n == 0, what, " empty");
  size_t i = 0;
  for (auto&& v : scan) same(v, i++, "range for");
  PBT_EQ(i, n, what, " range for");
  i = 0;
  for (auto it = scan.begin(); it != scan.end(); ++it) { same(*it, i, "iterators"); same(*it, i++, "iterators (again)"); }
  PBT_EQ(i, n, what, " iterators");
  i = 0;
  for (auto it = scan.cbegin(); !(it == scan.cend()); it++) same(*it, i++, "const iterators");
  PBT_EQ(i, n, what, " const iterators");
  i = 0;
  for (auto it = scan.begin(); it != scan.end();) same(*it++, i++, "post increment");
  PBT_EQ(i, n, what, " post increment");
  if constexpr (kRef) {
    i = 0;
    for (auto it = scan.begin(); it != scan.end(); ++it, ++i) PBT_CHECK(it.operator->() == &*it, what, " operator->");
    PBT_CHECK(scan.end().operator->() == nullptr, what, " operator-> of the end");
  }
  // Two iterators are independent and an abandoned one has no effect.
  auto a = scan.begin();
  auto b = scan.begin();
  size_t ia = 0, ib = 0;
  for (size_t k = 0, m = src.Draw(2 * n + 2); k < m; ++k) {
    PBT_CHECK((a == scan.end()) == (ia == n), what, " end of ", ia);
    PBT_CHECK((scan.end() == b) == (ib == n), what, " end of ", ib);
    if constexpr (kRef) {
      if (ia < n && ib < n) {
        PBT_CHECK((a == b) == (ia == ib), what, " iterators at ", ia, " and ", ib, " compare ", a == b);
        PBT_CHECK((a != b) == (ia != ib), what, " iterators at ", ia, " and ", ib, " compare ", a != b);
      }
    }
    if (src.Bool()) { if (ia < n) { same(*a, ia, "first of two"); ++a; ++ia; } }
    else if (ib < n) { same(*b, ib, "second of two"); b++; ++ib; }
  }
  PBT_CHECK(scan.end() == scan.end() && scan.begin() != scan.end() == (n != 0), what, " begin/end");
  i = 0;
  Scan copy = scan;
  for (auto&& v : copy) same(v, i++, "copied scan");
  PBT_EQ(i, n, what, " copied scan");
}

// Containers by number: `f(container&)`.
template<typename T> struct Hash { size_t operator()(const T& t) const { if constexpr (requires { t.first; }) return std::hash<std::remove_cvref_t<decltype(t.first)>>()(t.first); else return std::hash<T>()(t); } };

template<typename C> std::vector<const void*> Addresses(C& c) {
  std::vector<const void*> r;
  for (auto& e : c) r.push_back(&e);
  return r;
}
template<typename C> auto Snapshot(const C& c) {
  std::vector<std::remove_const_t<typename C::value_type>> r;
  for (const auto& e : c) r.push_back(e);
  return r;
}
template<typename C> constexpr bool kConstElems = std::is_const_v<std::remove_reference_t<decltype(*std::declval<C&>().begin())>>;

// Every way to scan container type C whose element type is T (with the const that its iterators give).
template<typename C> void Scans(pbt::Src& src, const std::vector<int>& vals, const char* name) {
  using T = std::remove_reference_t<decltype(*std::declval<C&>().begin())>;
  using V = std::remove_const_t<typename C::value_type>;
  C c = Fill<C>(vals);
  auto want = Snapshot(c);
  auto at = Addresses(c);
  if (want.size() > 1) src.NonTrivial();
  src.Label(name);
  std::vector<const void*> none;
  switch (src.Draw(6)) {
    case 0: {
      mc::AnyScan<T> scan = mc::MakeAnyScan(c);
      CheckScan<true>(src, scan, want, at, "AnyScan(lvalue)");
      const auto& cs = scan;
      CheckScan<true>(src, cs, want, at, "const AnyScan(lvalue)");
      break;
    }
    case 1: {
      const C& cc = c;
      mc::AnyScan<const T> scan = mc::MakeAnyScan(cc);
      CheckScan<true>(src, scan, want, at, "AnyScan(const lvalue)");
      break;
    }
    case 2: {
      C moved = Fill<C>(vals);
      if constexpr (requires { typename C::hasher; }) want = Snapshot(moved);
      mc::AnyScan<T> scan = mc::MakeAnyScan(std::move(moved));
      { C other = Fill<C>({1, 2, 3}); moved = other; }
      CheckScan<true>(src, scan, want, none, "AnyScan(rvalue)");
      break;
    }
    case 3: {
      mc::ConstScan<V> scan = mc::MakeConstScan(c);
      CheckScan<true>(src, scan, want, at, "ConstScan(lvalue)");
      const C& cc = c;
      mc::ConstScan<V> cscan = mc::MakeConstScan(cc);
      CheckScan<true>(src, cscan, want, at, "ConstScan(const lvalue)");
      break;
    }
    case 4: {
      C moved = Fill<C>(vals);
      if constexpr (requires { typename C::hasher; }) want = Snapshot(moved);
      mc::ConstScan<V> scan = mc::MakeConstScan(std::move(moved));
      CheckScan<true>(src, scan, want, none, "ConstScan(rvalue)");
      break;
    }
    case 5: {
      mc::ConvertingScan<V> scan = mc::MakeConvertingScan(c);
      CheckScan<false>(src, scan, want, none, "ConvertingScan(lvalue)");
      const C& cc = c;
      mc::ConvertingScan<V> cscan = mc::MakeConvertingScan(cc);
      CheckScan<false>(src, cscan, want, none, "ConvertingScan(const lvalue)");
      break;
    }
    case 6: {
      C moved = Fill<C>(vals);
      if constexpr (requires { typename C::hasher; }) want = Snapshot(moved);
      mc::ConvertingScan<V> scan = mc::MakeConvertingScan(std::move(moved));
      CheckScan<false>(src, scan, want, none, "ConvertingScan(rvalue)");
      break;
    }
  }
  PBT_CHECK(Snapshot(c) == Snapshot(std::as_const(c)) && c.size() == want.size(), "scanning changed the container");
  { auto now = Snapshot(c); PBT_CHECK(now.size() == want.size(), "scanning changed the container"); if constexpr (!requires { typename C::hasher; }) PBT_CHECK(now == want, "scanning changed the container"); }
  // A scan of a container of the caller shows its current elements.
  if constexpr (!requires { std::tuple_size<C>::value; }) {
    mc::ConstScan<V> scan = mc::MakeConstScan(c);
    auto half = scan.begin();
    (void)half;
    c = Fill<C>({3});
    auto w = Snapshot(c);
    CheckScan<true>(src, scan, w, Addresses(c), "ConstScan after a change");
  }
}
template<typename T> void Sequences(pbt::Src& src) {
  auto v = Vals(src);
  switch (src.Draw(6)) {
    case 0: Scans<std::vector<T>>(src, v, "vector"); break;
    case 1: Scans<std::list<T>>(src, v, "list"); break;
    case 2: Scans<std::deque<T>>(src, v, "deque"); break;
    case 3: Scans<mc::LimitedVector<T, 12>>(src, v, "LimitedVector"); break;
    case 4: Scans<std::array<T, 5>>(src, v, "array"); break;
    case 5: Scans<std::array<T, 1>>(src, v, "array1"); break;
    case 6: {
      std::vector<T> e;
      for (int i = 0; i < 4; ++i) e.push_back(Mk<T>(v.empty() ? i : v[size_t(i) % v.size()]));
      std::initializer_list<T> il{e[0], e[1], e[2], e[3]}, none{};
      auto& use = src.Chance(1, 5) ? none : il;
      auto want = Snapshot(use);
      if (want.size() > 1) src.NonTrivial();
      src.Label("initializer_list");
      mc::AnyScan<const T> a = mc::MakeAnyScan(use);
      CheckScan<true>(src, a, want, Addresses(use), "AnyScan(initializer_list)");
      mc::ConstScan<T> c = mc::MakeConstScan(use);
      CheckScan<true>(src, c, want, Addresses(use), "ConstScan(initializer_list)");
      mc::ConstScan<T> direct(use);
      CheckScan<true>(src, direct, want, Addresses(use), "ConstScan from initializer_list");
      mc::ConvertingScan<T> cv(use);
      CheckScan<false>(src, cv, want, {}, "ConvertingScan from initializer_list");
      [&](const mc::ConstScan<T>& s) { CheckScan<true>(src, s, e, {}, "ConstScan from braces"); }({e[0], e[1], e[2], e[3]});
      break;
    }
  }
}
template<typename K> void Sets(pbt::Src& src) {
  auto v = Vals(src);
  switch (src.Draw(4)) {
    case 0: Scans<std::set<K>>(src, v, "set"); break;
    case 1: Scans<std::multiset<K>>(src, v, "multiset"); break;
    case 2: Scans<std::unordered_set<K, Hash<K>>>(src, v, "unordered_set"); break;
    case 3: Scans<std::unordered_multiset<K, Hash<K>>>(src, v, "unordered_multiset"); break;
    case 4: Scans<mc::LimitedSet<K, 12>>(src, v, "LimitedSet"); break;
  }
}
template<typename K, typename V> void Maps(pbt::Src& src) {
  auto v = Vals(src);
  switch (src.Draw(3)) {
    case 0: Scans<std::map<K, V>>(src, v, "map"); break;
    case 1: Scans<std::multimap<K, V>>(src, v, "multimap"); break;
    case 2: Scans<std::unordered_map<K, V>>(src, v, "unordered_map"); break;
    case 3: Scans<mc::LimitedMap<K, V, 12>>(src, v, "LimitedMap"); break;
  }
}
}  // namespace

#if C04_PART == 0
PBT_PROP(scan_sequences, 6000, 100000, "at least two elements") {
  switch (src.Draw(3)) {
    case 0: Sequences<int>(src); break;
    case 1: Sequences<S>(src); break;
    case 2: Sequences<std::pair<int, S>>(src); break;
    case 3: {
      TrackedStats::Clear();
      {
        auto v = Vals(src);
        switch (src.Draw(2)) {
          case 0: Scans<std::vector<Tracked>>(src, v, "vector<Tracked>"); break;
          case 1: Scans<std::list<Tracked>>(src, v, "list<Tracked>"); break;
          case 2: Scans<mc::LimitedVector<Tracked, 12>>(src, v, "LimitedVector<Tracked>"); break;
        }
      }
      PBT_EQ(TrackedStats::Count(), size_t(0), "elements never destroyed");
      break;
    }
  }
}
#endif
#if C04_PART == 1
PBT_PROP(scan_sets, 5000, 80000, "at least two elements") {
  switch (src.Draw(2)) {
    case 0: Sets<int>(src); break;
    case 1: Sets<S>(src); break;
    case 2: Sets<std::pair<int, S>>(src); break;
  }
}
#endif
#if C04_PART == 2
PBT_PROP(scan_maps, 5000, 80000, "at least two elements") {
  switch (src.Draw(1)) {
    case 0: Maps<int, S>(src); break;
    case 1: Maps<S, S>(src); break;
  }
}

// Writing through an AnyScan changes the container; moving out of one empties it.
PBT_PROP(write_through, 3000, 40000, "at least two elements") {
  auto v = Vals(src);
  if (v.size() > 1) src.NonTrivial();
  auto run = [&](auto tag) {
    using C = decltype(tag);
    C c = Fill<C>(v);
    mc::AnyScan<S> scan = mc::MakeAnyScan(c);
    std::vector<S> want;
    size_t i = 0;
    for (S& s : scan) { if (i++ % 2) s += "!"; }
    i = 0;
    for (int k : v) want.push_back(Mk<S>(k) + (i++ % 2 ? "!" : ""));
    PBT_CHECK(Snapshot(c) == want, "writing through AnyScan");
    size_t j = 0;
    for (auto it = scan.begin(); it != scan.end(); ++it, ++j) { if (it.operator->()->size() != want[j].size()) PBT_FAIL("operator-> shows another element"); }
    mc::AnyScan<S> owned = mc::MakeAnyScan(std::move(c));
    c.clear();
    std::vector<S> got;
    for (auto it = owned.begin(); it != owned.end(); ++it) got.push_back(std::move(*it));
    PBT_CHECK(got == want, "moving out of an owned container");
    PBT_EQ(owned.size(), want.size(), "size after moving elements out");
  };
  switch (src.Draw(3)) {
    case 0: run(std::vector<S>()); break;
    case 1: run(std::list<S>()); break;
    case 2: run(std::deque<S>()); break;
    case 3: {
      std::list<std::unique_ptr<int>> l;
      for (int k : v) l.push_back(std::make_unique<int>(k));
      mc::AnyScan<std::unique_ptr<int>> scan = mc::MakeAnyScan(std::move(l));
      size_t i = 0;
      for (auto& p : scan) PBT_CHECK(p && *p == v[i++], "move-only elements");
      PBT_EQ(i, v.size());
      i = 0;
      for (auto it = scan.begin(); it != scan.end(); ++it) { auto p = std::move(*it); PBT_CHECK(p && *p == v[i++], "move-only elements, moved"); }
      for (auto& p : scan) PBT_CHECK(!p, "moved-from elements");
      break;
    }
  }
}

// Conversions by copy.
template<typename To, typename C> void Conv(pbt::Src& src, C&& c, const char* what) {
  std::vector<std::remove_const_t<To>> want;
  for (const auto& e : c) want.push_back(std::remove_const_t<To>(e));
  if (want.size() > 1) src.NonTrivial();
  src.Label(what);
  mc::ConvertingScan<To> scan = mc::MakeConvertingScan(c);
  CheckScan<false>(src, scan, want, {}, what);
  const auto& cc = c;
  mc::ConvertingScan<To> cscan = mc::MakeConvertingScan(cc);
  CheckScan<false>(src, cscan, want, {}, what);
  auto own = std::remove_cvref_t<C>(c);
  if constexpr (!std::is_same_v<To, SV> && !std::is_same_v<To, std::pair<SV, SV>>) {  // Views show what the container held when it moved.
    mc::ConvertingScan<To> mscan = mc::MakeConvertingScan(std::move(own));
    CheckScan<false>(src, mscan, want, {}, what);
  }
}
PBT_PROP(converting, 5000, 60000, "at least two elements") {
  auto v = Vals(src);
  switch (src.Draw(12)) {
    case 0: Conv<SV>(src, Fill<std::vector<S>>(v), "vector<string> as string_view"); break;
    case 1: Conv<SV>(src, Fill<std::set<S>>(v), "set<string> as string_view"); break;
    case 2: { auto k = Fill<std::list<S>>(v); std::vector<SV> sv(k.begin(), k.end()); Conv<S>(src, sv, "vector<string_view> as string"); break; }
    case 3: { auto k = Fill<std::list<S>>(v); std::vector<const char*> cs; for (auto& s : k) cs.push_back(s.c_str()); Conv<S>(src, cs, "vector<const char*> as string"); Conv<SV>(src, cs, "vector<const char*> as string_view"); break; }
    case 4: Conv<long>(src, Fill<std::deque<int>>(v), "deque<int> as long"); break;
    case 5: Conv<double>(src, Fill<std::multiset<short>>(v), "multiset<short> as double"); break;
    case 6: Conv<bool>(src, Fill<std::vector<bool>>(v), "vector<bool>"); break;
    case 7: Conv<int>(src, Fill<std::vector<bool>>(v), "vector<bool> as int"); break;
    case 8: Conv<std::pair<SV, SV>>(src, Fill<std::map<S, S>>(v), "map<string, string> as pair of string_view"); break;
    case 9: Conv<std::pair<long, S>>(src, Fill<std::multimap<int, S>>(v), "multimap<int, string> as pair<long, string>"); break;
    case 10: Conv<int>(src, Fill<S>(v), "string as int"); break;
    case 11: Conv<std::pair<const S, S>>(src, Fill<std::vector<std::pair<S, S>>>(v), "vector<pair> as const keyed pair"); break;
    case 12: Conv<unsigned char>(src, Fill<mc::LimitedSet<int, 20>>(v), "LimitedSet<int> as unsigned char"); break;
  }
}
#endif

#if C04_PART == 3
// ---- ConvertContainer
namespace {
template<typename Out, typename V> void Add(Out& out, V&& v) {
  if constexpr (requires { out.push_back(std::forward<V>(v)); }) out.push_back(typename Out::value_type(std::forward<V>(v)));
  else out.insert(typename Out::value_type(std::forward<V>(v)));
}
template<typename T> bool Equal(const T& a, const T& b) { return a == b; }
// Order is part of the answer for everything but hashed containers.
template<typename Out> void Same(const Out& got, const Out& want, const char* what) {
  PBT_EQ(got.size(), want.size(), what);
  if constexpr (requires { typename Out::hasher; }) PBT_CHECK(got == want, what, ": elements differ");
  else {
    auto w = want.begin();
    size_t i = 0;
    for (auto& e : got) { PBT_CHECK(e == *w, what, ": element ", i, " differs"); ++w; ++i; }
  }
}
template<typename Out, typename In> void Plain(pbt::Src& src, const std::vector<int>& v, const char* what) {
  const In in = Fill<In>(v);
  Out want{};
  size_t n = 0;
  for (const auto& e : in) { Add(want, e); ++n; }
  if (n > 1) src.NonTrivial();
  src.Label(what);
  In lv = in;
  const In saved = in;
  switch (src.Draw(4)) {
    case 0: { Out got = mc::ConvertContainer(in); Same(got, want, what); break; }
    case 1: { Out got = mc::ConvertContainer(lv); Same(got, want, what); break; }
    case 2: {
      auto conv = mc::ConvertContainer(lv);
      Out got = conv;
      Same(got, want, what);
      Out again = conv;
      Same(again, want, "converted again");
      break;
    }
    case 3: { In mv = in; Out got = mc::ConvertContainer(std::move(mv)); if constexpr (!requires { typename In::hasher; }) Same(got, want, what); else PBT_EQ(got.size(), want.size(), what); break; }
    case 4: { auto conv = mc::ConvertContainer(In(in)); Out got = std::move(conv); if constexpr (!requires { typename In::hasher; }) Same(got, want, what); else PBT_EQ(got.size(), want.size(), what); break; }
  }
  PBT_CHECK(lv == saved && in == saved, what, ": changed the source");
}
template<typename Out, typename In, typename F> void WithFunc(pbt::Src& src, const std::vector<int>& v, F f, const char* what) {
  const In in = Fill<In>(v);
  Out want{};
  size_t n = 0;
  for (const auto& e : in) { Add(want, f(e)); ++n; }
  if (n > 1) src.NonTrivial();
  src.Label(what);
  In lv = in;
  const In saved = in;
  switch (src.Draw(4)) {
    case 0: { Out got = mc::ConvertContainer(in, f); Same(got, want, what); break; }
    case 1: { Out got = mc::ConvertContainer(lv, f); Same(got, want, what); break; }
    case 2: { Out got = mc::ConvertContainer(lv, F(f)); Same(got, want, what); break; }
    case 3: {
      // A function that counts: called once per element, in order.
      size_t calls = 0;
      std::vector<std::remove_const_t<typename In::value_type>> seen;
      auto counting = [&](const typename In::value_type& e) { ++calls; seen.push_back(e); return f(e); };
      Out got = mc::ConvertContainer(lv, counting);
      Same(got, want, what);
      PBT_EQ(calls, n, what, " calls of the function");
      PBT_CHECK(seen == Snapshot(lv), what, " arguments of the function");
      break;
    }
    case 4: {
      In mv = in;
      auto by_value = [&](typename In::value_type e) { return f(e); };
      Out got = mc::ConvertContainer(lv, by_value);
      Same(got, want, what);
      if constexpr (!kConstElems<In>) {
        Out got2 = mc::ConvertContainer(std::move(mv), [&](typename In::value_type&& e) { return f(e); });
        Same(got2, want, what);
      }
      break;
    }
  }
  PBT_CHECK(lv == saved && in == saved, what, ": changed the source");
}
struct Half { S operator()(const S& s) const { return s.substr(0, s.size() / 2 + 1); } };
int Mod(int v) { return v % 7; }
}  // namespace

PBT_PROP(convert, 6000, 80000, "at least two elements") {
  auto v = Vals(src);
  switch (src.Draw(16)) {
    case 0: Plain<std::vector<S>, std::vector<S>>(src, v, "vector to vector"); break;
    case 1: Plain<std::set<S>, std::vector<S>>(src, v, "vector to set"); break;
    case 2: Plain<std::multiset<S>, std::list<S>>(src, v, "list to multiset"); break;
    case 3: Plain<std::list<S>, std::deque<S>>(src, v, "deque to list"); break;
    case 4: Plain<std::deque<S>, std::set<S>>(src, v, "set to deque"); break;
    case 5: Plain<std::vector<long>, std::multiset<int>>(src, v, "multiset<int> to vector<long>"); break;
    case 6: Plain<std::unordered_set<S>, std::vector<S>>(src, v, "vector to unordered_set"); break;
    case 7: Plain<std::unordered_multiset<S>, std::vector<S>>(src, v, "vector to unordered_multiset"); break;
    case 8: Plain<std::map<int, S>, std::vector<std::pair<int, S>>>(src, v, "vector<pair> to map"); break;
    case 9: Plain<std::multimap<int, S>, std::vector<std::pair<int, S>>>(src, v, "vector<pair> to multimap"); break;
    case 10: Plain<std::vector<std::pair<int, S>>, std::map<int, S>>(src, v, "map to vector<pair>"); break;
    case 11: Plain<mc::LimitedVector<S, 12>, std::vector<S>>(src, v, "vector to LimitedVector"); break;
    case 12: Plain<mc::LimitedSet<S, 12>, mc::LimitedVector<S, 12>>(src, v, "LimitedVector to LimitedSet"); break;
    case 13: Plain<std::vector<S>, mc::LimitedSet<S, 12>>(src, v, "LimitedSet to vector"); break;
    case 14: Plain<S, std::vector<char>>(src, v, "vector<char> to string"); break;
    case 15: Plain<std::vector<int>, S>(src, v, "string to vector<int>"); break;
    case 16: Plain<std::vector<S>, std::array<S, 4>>(src, v, "array to vector"); break;
  }
}
PBT_PROP(convert_function, 6000, 80000, "at least two elements") {
  auto v = Vals(src);
  auto sq = [](int i) { return i * i - 5; };
  auto text = [](int i) { return Mk<S>(i); };
  auto pair = [](int i) { return std::pair<int, S>(i % 5, Mk<S>(i)); };
  auto second = [](const std::pair<const int, S>& p) { return p.second; };
  switch (src.Draw(9)) {
    case 0: WithFunc<std::vector<int>, std::vector<int>>(src, v, sq, "int to int"); break;
    case 1: WithFunc<std::set<S>, std::vector<int>>(src, v, text, "int to string in set"); break;
    case 2: WithFunc<std::map<int, S>, std::list<int>>(src, v, pair, "int to pair in map"); break;
    case 3: WithFunc<std::multimap<int, S>, std::deque<int>>(src, v, pair, "int to pair in multimap"); break;
    case 4: WithFunc<std::vector<S>, std::map<int, S>>(src, v, second, "map values"); break;
    case 5: WithFunc<std::vector<S>, std::vector<S>>(src, v, Half(), "string to string"); break;
    case 6: WithFunc<std::multiset<S>, std::list<S>>(src, v, Half(), "string to string in multiset"); break;
    case 7: WithFunc<mc::LimitedVector<int, 12>, std::vector<int>>(src, v, &Mod, "function pointer"); break;
    case 8: WithFunc<std::unordered_set<int>, std::set<int>>(src, v, &Mod, "function pointer in unordered_set"); break;
    case 9: WithFunc<std::list<S>, mc::LimitedSet<S, 12>>(src, v, Half(), "LimitedSet with a function"); break;
  }
}
PBT_PROP(convert_move_only, 2000, 20000, "at least two elements") {
  auto v = Vals(src);
  if (v.size() > 1) src.NonTrivial();
  std::list<std::unique_ptr<int>> in;
  for (int k : v) in.push_back(std::make_unique<int>(k));
  std::vector<std::unique_ptr<int>> got;
  std::vector<int> ints;
  switch (src.Draw(2)) {
    case 0: got = std::vector<std::unique_ptr<int>>(mc::ConvertContainer(std::move(in))); break;
    case 1: got = std::vector<std::unique_ptr<int>>(mc::ConvertContainer(std::move(in), [](std::unique_ptr<int>&& p) { return std::move(p); })); break;
    case 2: {
      ints = std::vector<int>(mc::ConvertContainer(in, [](const std::unique_ptr<int>& p) { return *p; }));
      PBT_CHECK(ints == v, "converted move-only elements");
      size_t i = 0;
      for (auto& p : in) PBT_CHECK(p && *p == v[i++], "source of move-only elements");
      return;
    }
  }
  PBT_EQ(got.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(got[i] && *got[i] == v[i], "moved element ", i);
}
PBT_PROP(convert_initializer_list, 2000, 20000, "every case") {
  src.NonTrivial();
  int a = int(src.Draw(20)), b = int(src.Draw(20)), c = int(src.Draw(20));
  std::initializer_list<S> il{Mk<S>(a), Mk<S>(b), Mk<S>(c)};
  std::vector<S> want{Mk<S>(a), Mk<S>(b), Mk<S>(c)};
  PBT_CHECK(std::vector<S>(mc::ConvertContainer(il)) == want, "initializer_list to vector");
  PBT_CHECK(std::list<S>(mc::ConvertContainer({Mk<S>(a), Mk<S>(b), Mk<S>(c)})) == std::list<S>(want.begin(), want.end()), "braces to list");
  PBT_CHECK(std::multiset<S>(mc::ConvertContainer(il)) == std::multiset<S>(want.begin(), want.end()), "initializer_list to multiset");
  auto f = [](const S& s) { return s.size(); };
  PBT_CHECK(std::vector<size_t>(mc::ConvertContainer(il, f)) == (std::vector<size_t>{want[0].size(), want[1].size(), want[2].size()}), "initializer_list with a function");
  PBT_CHECK(std::vector<S>(il) == want, "source changed");
}
// Elements of an owned container are not destroyed twice, nor lost.
PBT_PROP(convert_lifetime, 2000, 20000, "at least two elements") {
  auto v = Vals(src);
  if (v.size() > 1) src.NonTrivial();
  TrackedStats::Clear();
  {
    auto in = Fill<std::vector<Tracked>>(v);
    std::list<Tracked> a = mc::ConvertContainer(in);
    PBT_EQ(TrackedStats::Count(), 2 * v.size(), "living elements");
    size_t i = 0;
    for (auto& t : in) { PBT_CHECK(t == Tracked(v[i]), "source element ", i); ++i; }
    mc::LimitedVector<Tracked, 12> b = mc::ConvertContainer(std::move(in));
    i = 0;
    for (auto& t : b) { PBT_CHECK(t == Tracked(v[i]), "moved element ", i); ++i; }
    PBT_EQ(i, v.size());
    i = 0;
    for (auto& t : a) { PBT_CHECK(t == Tracked(v[i]), "copied element ", i); ++i; }
    PBT_EQ(i, v.size());
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "elements never destroyed");
}
#endif
