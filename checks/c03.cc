// C03: LimitedMap against std::map (see lib/limited_model.h).
#include "limited_model.h"
namespace {
template<typename K, typename V, auto O, typename C = std::less<K>> using Map = mc::LimitedMap<K, V, O, C>;
using mbo::types::CompareLess;
constexpr auto kNo = Flag::kNoOptimizeIndexOf;
constexpr auto kCust = Flag::kCustomIndexOfBeyondUnroll;
constexpr auto kSort = Flag::kRequireSortedInput;
constexpr auto kEmpty = Flag::kEmptyDestructor;
using S = std::string;
template<typename L, typename O> void Run(pbt::Src& src) { Harness<L>::template Ops<O>(src); }
}  // namespace
#define RULE "at least five steps, more than one on a stored key and more than two on a new one"
#if C03_PART == 0
PBT_PROP(tracked, 4000, 80000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Map<TKey, TVal, 5>, Map<TKey, TVal, 4>>(src); break;
    case 1: Run<Map<int, TVal, 16, CompareLess<int>>, Map<int, TVal, 6>>(src); break;
    case 2: Run<Map<TKey, TVal, kOpt<7, kNo>, std::greater<TKey>>, Map<TKey, TVal, 7>>(src); break;
    case 3: Run<Map<TKey, int, 6, std::less<>>, Map<TKey, int, 6, std::less<>>>(src); break;
  }
}
#elif C03_PART == 1
PBT_PROP(tracked_flip, 2000, 40000, RULE) {
  switch (src.Draw(1)) {
    case 0: Run<Map<TKey, TVal, 6, Flip<TKey>>, Map<TKey, TVal, 5>>(src); break;
    case 1: Run<Map<int, TVal, kOpt<20, kSort, kNo>, Flip<int>>, Map<int, TVal, 5>>(src); break;
  }
}
PBT_PROP(tracked_large, 2500, 50000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Map<TKey, TVal, 17>, Map<TKey, TVal, 5>>(src); break;
    case 1: Run<Map<TKey, TVal, kOpt<20, kCust>, CompareLess<TKey>>, Map<TKey, TVal, 17, CompareLess<TKey>>>(src); break;
    case 2: Run<Map<TKey, TVal, kOpt<18, kCust>>, Map<TKey, TVal, 7>>(src); break;
  }
}
#elif C03_PART == 2
PBT_PROP(strings, 3000, 60000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Map<S, S, 6>, Map<S, S, 4>>(src); break;
    case 1: Run<Map<S, TVal, 9, std::less<>>, Map<S, TVal, 4, std::less<>>>(src); break;
    case 2: Run<Map<S, S, kOpt<24, kCust, kSort>, CompareLess<S>>, Map<S, S, 17>>(src); break;
    case 3: Run<Map<S, int, kOpt<19, kSort>, std::less<>>, Map<S, int, kOpt<8, kNo>, std::greater<S>>>(src); break;
  }
}
#elif C03_PART == 3
PBT_PROP(ints, 4000, 80000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Map<int, int, 1>, Map<int, int, 1>>(src); break;
    case 1: Run<Map<int, int, kOpt<16, kSort, kEmpty>>, Map<int, int, 3, std::greater<int>>>(src); break;
    case 2: Run<Map<int, S, kOpt<40, kCust, kSort>>, Map<int, S, 7, CompareLess<int>>>(src); break;
    case 3: Run<Map<int, long, kOpt<12, kNo, kSort>, std::greater<int>>, Map<int, long, 7>>(src); break;
  }
}

PBT_PROP(comparisons, 5000, 60000, "both maps have at least two elements") {
  std::map<int, double> ma, mb;
  for (size_t i = 0, n = src.Draw(4); i < n; ++i) ma.emplace(int(src.Draw(2)), int(src.Draw(2)));
  for (size_t i = 0, n = src.Draw(5); i < n; ++i) mb.emplace(int(src.Draw(2)), int(src.Draw(2)));
  if (ma.size() > 1 && mb.size() > 1) src.NonTrivial();
  std::vector<std::pair<int, double>> va(ma.begin(), ma.end()), vb(mb.begin(), mb.end());
  Map<int, double, 4> a(va.begin(), va.end());
  Map<int, double, 6, CompareLess<int>> b(vb.begin(), vb.end());
  PBT_EQ(a == b, ma == mb);
  PBT_EQ(a != b, ma != mb);
  PBT_EQ(a < b, ma < mb);
  PBT_EQ(a <= b, ma <= mb);
  PBT_EQ(a > b, ma > mb);
  PBT_EQ(a >= b, ma >= mb);
  PBT_CHECK((a <=> b) == (ma <=> mb), "three-way");
}

PBT_PROP(makers, 3000, 30000, "every case") {
  src.NonTrivial();
  int p = int(src.Draw(99)), q = int(src.Draw(99)), r = int(src.Draw(99));
  std::pair<S, S> a(Mk<S>(p), "1"), b(Mk<S>(q), "2"), c(Mk<S>(r), "3");
  std::map<S, S> ms;
  ms.insert(a); ms.insert(b); ms.insert(c);
  std::map<int, int> mi;
  mi.emplace(p, 1); mi.emplace(q, 2); mi.emplace(r, 3);
  auto same = [&](const auto& got, const auto& want, size_t cap, const char* what) {
    PBT_EQ(got.capacity(), cap, what);
    PBT_EQ(got.size(), want.size(), what);
    auto it = got.begin();
    for (auto& [k, v] : want) { PBT_CHECK(it->first == k && it->second == v, what); ++it; }
  };
  auto intact = [&](const char* what) { PBT_CHECK(Is(a.first, p) && Is(b.first, q) && Is(c.first, r) && a.second == "1" && b.second == "2" && c.second == "3", what, " moved from an lvalue"); };
  same(mc::MakeLimitedMap(std::pair(a), std::pair(b), std::pair(c)), ms, 3, "MakeLimitedMap(args)");
  intact("MakeLimitedMap");
  same(mc::MakeLimitedMap(std::make_pair(p, 1), std::make_pair(q, 2), std::make_pair(r, 3)), mi, 3, "MakeLimitedMap(pairs)");
  std::vector<std::pair<S, S>> v{a, b, c};
  same(mc::MakeLimitedMap<5>(v.begin(), v.end()), ms, 5, "MakeLimitedMap<5>(range)");
  PBT_CHECK(v[0] == a && v[1] == b && v[2] == c, "MakeLimitedMap(range) moved from the range");
  same(mc::MakeLimitedMap<4>({a, b, c}), ms, 4, "MakeLimitedMap<4>(list)");
  same(mc::MakeLimitedMap<int, int, 3>(), std::map<int, int>{}, 3, "MakeLimitedMap<int, int, 3>()");
  std::pair<S, S> arr[3] = {a, b, c};
  same(mc::ToLimitedMap(arr), ms, 3, "ToLimitedMap");
  PBT_CHECK(arr[0] == a && arr[1] == b && arr[2] == c, "ToLimitedMap moved from an lvalue");
  same(mc::ToLimitedMap(std::move(arr)), ms, 3, "ToLimitedMap(move)");
  const std::pair<int, int> carr[3] = {{p, 1}, {q, 2}, {r, 3}};
  same(mc::ToLimitedMap(carr), mi, 3, "ToLimitedMap(const)");
  mc::LimitedMap<S, S, 4> direct{a, b, c};
  same(direct, ms, 4, "LimitedMap(pairs...)");
  intact("LimitedMap(pairs...)");
  mc::LimitedMap<long, S, 4> conv(mc::MakeLimitedMap(std::make_pair(p, S("1")), std::make_pair(q, S("2"))));
  std::map<int, S> mc2;
  mc2.emplace(p, "1"); mc2.emplace(q, "2");
  same(conv, mc2, 4, "converting construction");
}

PBT_PROP(preconditions, 8, 80, "every case: the process has to end") {
  src.NonTrivial();
  size_t extra = 1 + src.Draw(2);
  const std::vector<std::pair<int, int>> big{{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {7, 1}};
  const std::vector<std::pair<int, int>> unsorted{{1, 0}, {3, 0}, {2, 0}};
  for (int op = 0; op <= 13; ++op) {
    auto result = pbt::RunChild([&] {
      Map<int, int, 4> s({{10, 1}, {20, 2}, {30, 3}, {40, 4}});
      switch (op) {
        case 0: for (size_t i = 0; i < extra; ++i) s.insert({15 + int(i), 0}); break;
        case 1: s.emplace(50, 1); break;
        case 2: s.insert(big.begin(), big.begin() + ptrdiff_t(extra)); break;
        case 3: { Map<int, int, 4> t(big.begin(), big.begin() + ptrdiff_t(4 + extra)); break; }
        case 4: { Map<int, int, kOpt<4, kSort>> t(big.begin(), big.begin() + ptrdiff_t(4 + extra)); break; }
        case 5: { Map<int, int, kOpt<4, kSort>> t(unsorted.begin(), unsorted.end()); break; }
        case 6: s.erase(s.end()); break;
        case 7: (void)s.at_index(4 + extra - 1); break;
        case 8: (void)std::as_const(s).at_index(4 + extra - 1); break;
        case 9: (void)s.at(15); break;
        case 10: (void)std::as_const(s).at(55); break;
        case 11: s[5 + int(extra)] = 7; break;
        case 12: s.try_emplace(25, 1); break;
        case 13: s.insert_or_assign(25, 1); break;
      }
    });
    bool ended = result.signaled || result.code != 0;
    PBT_CHECK(ended && result.out.find("Sanitizer") == std::string::npos && result.out.find("runtime error") == std::string::npos, "operation ", op, " was not stopped: ", result.out);
  }
}
#endif
