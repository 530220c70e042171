// C02: LimitedSet against std::set (see lib/limited_model.h).
#include "limited_model.h"
namespace {
template<typename K, auto O, typename C = std::less<K>> using Set = mc::LimitedSet<K, O, C>;
using mbo::types::CompareLess;
constexpr auto kNo = Flag::kNoOptimizeIndexOf;
constexpr auto kCust = Flag::kCustomIndexOfBeyondUnroll;
constexpr auto kSort = Flag::kRequireSortedInput;
constexpr auto kEmpty = Flag::kEmptyDestructor;
template<typename L, typename O> void Run(pbt::Src& src) { Harness<L>::template Ops<O>(src); }
}  // namespace
#define RULE "at least five steps, more than one on a stored key and more than two on a new one"
#if C02_PART == 0
PBT_PROP(tracked_small, 4000, 80000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Set<TKey, 5>, Set<TKey, 4>>(src); break;
    case 1: Run<Set<TKey, 16, CompareLess<TKey>>, Set<TKey, 6, CompareLess<TKey>>>(src); break;
    case 2: Run<Set<TKey, kOpt<7, kNo>, std::greater<TKey>>, Set<TKey, 7>>(src); break;
    case 3: Run<Set<TKey, 6, std::less<>>, Set<TKey, 6, std::less<>>>(src); break;
  }
}
PBT_PROP(tracked_flip, 3000, 60000, RULE) {
  switch (src.Draw(1)) {
    case 0: Run<Set<TKey, 6, Flip<TKey>>, Set<TKey, 5>>(src); break;
    case 1: Run<Set<TKey, kOpt<20, kSort, kNo>, Flip<TKey>>, Set<TKey, 5>>(src); break;
  }
}
#elif C02_PART == 1
PBT_PROP(tracked_large, 2500, 50000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Set<TKey, 17>, Set<TKey, 5>>(src); break;
    case 1: Run<Set<TKey, kOpt<20, kCust>, CompareLess<TKey>>, Set<TKey, 17, CompareLess<TKey>>>(src); break;
    case 2: Run<Set<TKey, kOpt<18, kCust>>, Set<TKey, 7>>(src); break;
    case 3: Run<Set<TKey, kOpt<30, kCust, kNo>, std::less<>>, Set<TKey, 6, std::less<>>>(src); break;
  }
}
#elif C02_PART == 2
PBT_PROP(strings, 3000, 60000, RULE) {
  switch (src.Draw(3)) {
    case 0: Run<Set<std::string, 6>, Set<std::string, 4>>(src); break;
    case 1: Run<Set<std::string, 9, std::less<>>, Set<std::string, 4, std::less<>>>(src); break;
    case 2: Run<Set<std::string, kOpt<24, kCust, kSort>, CompareLess<std::string>>, Set<std::string, 17>>(src); break;
    case 3: Run<Set<std::string, kOpt<19, kSort>, std::less<>>, Set<std::string, kOpt<8, kNo>, std::greater<std::string>>>(src); break;
  }
}
#elif C02_PART == 3
PBT_PROP(ints, 4000, 80000, RULE) {
  switch (src.Draw(4)) {
    case 0: Run<Set<int, 1>, Set<int, 1>>(src); break;
    case 1: Run<Set<int, kOpt<16, kSort, kEmpty>>, Set<int, 3, std::greater<int>>>(src); break;
    case 2: Run<Set<int, kOpt<40, kCust, kSort>>, Set<int, 7, CompareLess<int>>>(src); break;
    case 3: Run<Set<int, kOpt<33, kCust>, CompareLess<int>>, Set<int, kOpt<33, kNo>, CompareLess<int>>>(src); break;
    case 4: Run<Set<int, kOpt<12, kNo, kSort>, std::greater<int>>, Set<int, 7>>(src); break;
  }
}

// Element types that are only partially ordered against each other, and other types.
PBT_PROP(comparisons, 6000, 60000, "both sets have at least two elements") {
  std::set<int> ma, mb;
  for (size_t i = 0, n = src.Draw(4); i < n; ++i) ma.insert(int(src.Draw(5)));
  for (size_t i = 0, n = src.Draw(5); i < n; ++i) mb.insert(int(src.Draw(5)));
  if (ma.size() > 1 && mb.size() > 1) src.NonTrivial();
  std::vector<double> da(ma.begin(), ma.end()), db(mb.begin(), mb.end());
  Set<double, 4> a(da.begin(), da.end());
  Set<double, 6> b(db.begin(), db.end());
  Set<int, 6> c(b);
  PBT_EQ(a == b, ma == mb);
  PBT_EQ(a < b, ma < mb);
  PBT_EQ(a <= b, ma <= mb);
  PBT_EQ(a > b, ma > mb);
  PBT_EQ(a >= b, ma >= mb);
  PBT_CHECK((a <=> b) == (ma <=> mb), "three-way");
  PBT_EQ(a == c, ma == mb);
  PBT_EQ(a < c, ma < mb);
  PBT_EQ(c < a, mb < ma);
  // Partial foreign keys: everything that starts with a letter is one equivalence class.
  struct First {
    using is_transparent = void;
    bool operator()(const std::string& x, const std::string& y) const { return x < y; }
    bool operator()(const std::string& x, char y) const { return x.empty() || x[0] < y; }
    bool operator()(char x, const std::string& y) const { return !y.empty() && x < y[0]; }
  };
  std::set<std::string, First> ms;
  Set<std::string, 8, First> s;
  Set<std::string, kOpt<20, kNo>, First> t;
  Set<std::string, kOpt<20, kCust>, First> u;
  for (size_t i = 0, n = src.Draw(8); i < n; ++i) {
    std::string w = src.Str("abc", 3);
    ms.insert(w);
    s.insert(w);
    t.insert(w);
    u.insert(w);
  }
  for (char ch : {'a', 'b', 'c', 'd'}) {
    size_t lo = size_t(std::distance(ms.begin(), ms.lower_bound(ch))), hi = size_t(std::distance(ms.begin(), ms.upper_bound(ch)));
    auto one = [&](auto& x) {
      PBT_EQ(size_t(x.lower_bound(ch) - x.begin()), lo, "partial lower_bound");
      PBT_EQ(size_t(x.upper_bound(ch) - x.begin()), hi, "partial upper_bound");
      PBT_EQ(x.count(ch), hi - lo, "partial count");
      PBT_EQ(x.contains(ch), hi > lo, "partial contains");
      size_t f = size_t(x.find(ch) - x.begin());
      PBT_CHECK(hi > lo ? f >= lo && f < hi : f == x.size(), "partial find");
    };
    one(s);
    one(t);
    one(u);
  }
  char ch = src.PickChar("abcd");
  size_t want = ms.count(ch);
  for (auto it = ms.lower_bound(ch); it != ms.end() && it->at(0) == ch;) it = ms.erase(it);
  PBT_EQ(s.erase(ch), want, "partial erase");
  PBT_EQ(t.erase(ch), want, "partial erase");
  PBT_EQ(u.erase(ch), want, "partial erase");
  PBT_CHECK(std::equal(s.begin(), s.end(), ms.begin(), ms.end()), "partial erase");
  PBT_CHECK(std::equal(t.begin(), t.end(), ms.begin(), ms.end()), "partial erase");
  PBT_CHECK(std::equal(u.begin(), u.end(), ms.begin(), ms.end()), "partial erase");
}

// Every size of every lookup implementation with every key.
PBT_PROP(exhaustive_lookup, 150, 1000, "every case: all keys are looked up at every fill level") {
  src.NonTrivial();
  uint64_t bits = src.U64();
  auto one = [&](auto set) {
    std::set<int> model;
    for (int i = 0; i < int(set.capacity()); ++i) {
      int k = int((bits ^ (uint64_t(i) * 0x9E3779B97F4A7C15ULL)) >> 40) % 50 * 2;
      set.insert(k);
      model.insert(k);
      for (int q = -1; q <= 101; ++q) {
        auto mi = model.find(q);
        size_t want = mi == model.end() ? decltype(set)::npos : size_t(std::distance(model.begin(), mi));
        PBT_EQ(set.index_of(q), want, "index_of ", q, " with ", model.size(), " elements");
        PBT_EQ(set.contains(q), mi != model.end(), "contains ", q);
        PBT_EQ(size_t(set.find(q) - set.begin()), mi == model.end() ? model.size() : want, "find ", q);
      }
    }
  };
  one(Set<int, 16>());
  one(Set<int, 16, CompareLess<int>>());
  one(Set<int, 4>());
  one(Set<int, 17>());
  one(Set<int, kOpt<40, kCust>>());
  one(Set<int, kOpt<40, kCust>, CompareLess<int>>());
  one(Set<int, kOpt<16, kNo>>());
  one(Set<int, kOpt<16, kCust>>());
}

PBT_PROP(makers, 3000, 30000, "every case") {
  src.NonTrivial();
  int p = int(src.Draw(99)), q = int(src.Draw(99)), r = int(src.Draw(99));
  std::string a = Mk<std::string>(p), b = Mk<std::string>(q);
  const std::string c = Mk<std::string>(r);
  std::set<std::string> ms{a, b, c};
  std::set<int> mi{p, q, r};
  auto same = [&](const auto& got, const auto& want, size_t cap, const char* what) {
    PBT_EQ(got.capacity(), cap, what);
    PBT_CHECK(std::equal(got.begin(), got.end(), want.begin(), want.end()), what);
  };
  {
    auto s = mc::MakeLimitedSet(a, b, c);
    static_assert(std::is_same_v<typename decltype(s)::value_type, std::string>);
    same(s, ms, 3, "MakeLimitedSet(args)");
    PBT_CHECK(Is(a, p) && Is(b, q), "MakeLimitedSet moved from an lvalue");
  }
  same(mc::MakeLimitedSet(p, q, r), mi, 3, "MakeLimitedSet(ints)");
  same(mc::MakeLimitedSetOf<std::string>(a, std::string_view(b), c), ms, 3, "MakeLimitedSetOf");
  PBT_CHECK(Is(a, p) && Is(b, q), "MakeLimitedSetOf moved from an lvalue");
  std::vector<int> v{p, q, r};
  same(mc::MakeLimitedSet<5>(v.begin(), v.end()), mi, 5, "MakeLimitedSet<5>(range)");
  same(mc::MakeLimitedSet<4>({p, q, r}), mi, 4, "MakeLimitedSet<4>(list)");
  same(mc::MakeLimitedSet<4>({p, q, r}, std::greater<int>()), std::set<int, std::greater<int>>{p, q, r}, 4, "MakeLimitedSet<4>(list, greater)");
  same(mc::MakeLimitedSet<kOpt<4, kSort>>(mi.size() == 3 ? std::initializer_list<int>{*mi.begin(), *std::next(mi.begin()), *std::next(mi.begin(), 2)} : std::initializer_list<int>{*mi.begin(), *mi.rbegin()}), mi, 4, "MakeLimitedSet<sorted>(list)");
  same(mc::MakeLimitedSet<int, 3>(), std::set<int>{}, 3, "MakeLimitedSet<int, 3>()");
  int arr[3] = {p, q, r};
  same(mc::ToLimitedSet(arr), mi, 3, "ToLimitedSet");
  std::string sarr[3] = {a, b, c};
  same(mc::ToLimitedSet(sarr), ms, 3, "ToLimitedSet(strings)");
  PBT_CHECK(Is(sarr[0], p) && Is(sarr[1], q) && Is(sarr[2], r), "ToLimitedSet moved from an lvalue");
  same(mc::MakeLimitedSet("foo", "bar", "foo"), std::set<std::string_view>{"foo", "bar"}, 3, "MakeLimitedSet(char arrays)");
  same(mc::MakeLimitedSet<std::string>("foo", "bar"), std::set<std::string>{"foo", "bar"}, 2, "MakeLimitedSet<string>(char arrays)");
  mc::LimitedSet d{p, q};
  same(d, std::set<int>{p, q}, 2, "deduction");
}

PBT_PROP(preconditions, 8, 80, "every case: the process has to end") {
  src.NonTrivial();
  size_t extra = 1 + src.Draw(2);
  const std::vector<int> big{1, 2, 3, 4, 5, 6, 7};
  const std::vector<int> unsorted{1, 3, 2};
  for (int op = 0; op <= 8; ++op) {
    auto result = pbt::RunChild([&] {
      Set<int, 4> s({10, 20, 30, 40});
      switch (op) {
        case 0: for (size_t i = 0; i < extra; ++i) s.insert(15 + int(i)); break;
        case 1: s.emplace(50); break;
        case 2: s.insert(big.begin(), big.begin() + ptrdiff_t(extra)); break;
        case 3: { Set<int, 4> t(big.begin(), big.begin() + ptrdiff_t(4 + extra)); break; }
        case 4: { Set<int, kOpt<4, kSort>> t(big.begin(), big.begin() + ptrdiff_t(4 + extra)); break; }
        case 5: { Set<int, kOpt<4, kSort>> t(unsorted.begin(), unsorted.end()); break; }
        case 6: s.erase(s.end()); break;
        case 7: (void)s.at_index(4 + extra - 1); break;
        case 8: (void)std::as_const(s).at_index(4 + extra - 1); break;
      }
    });
    bool ended = result.signaled || result.code != 0;
    PBT_CHECK(ended && result.out.find("Sanitizer") == std::string::npos && result.out.find("runtime error") == std::string::npos, "operation ", op, " was not stopped: ", result.out);
  }
}
#endif
