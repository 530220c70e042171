// C05: violated requirements are reported, and nothing else is. Built twice: with the default build settings (the
// process ends) and with `--//mbo/config:require_throws` (std::runtime_error).
#include <algorithm>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "mbo/config/config.h"
#include "mbo/config/require.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "mbo/json/json.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/stringify.h"
#include "tracked.h"

namespace mc = mbo::container;
namespace mt = mbo::types;
namespace {
constexpr bool kThrows = mbo::config::kRequireThrows;
static_assert(kThrows == (C05_THROWS != 0), "the build setting is applied");
constexpr int kN = kThrows ? 120 : 4;  // with the default settings every operation costs a process

// Performs `op`, which breaks a requirement iff `violated`. Returns whether it was carried out.
template<typename F>
bool Perform(const std::string& what, bool violated, F op) {
  if constexpr (kThrows) {
    try {
      op();
    } catch (const std::runtime_error& e) {
      PBT_CHECK(violated, what, " is allowed but threw: ", e.what());
      PBT_CHECK(!std::string_view(e.what()).empty(), what, " threw without a message");
      return false;
    } catch (...) {
      PBT_FAIL(what, " threw something that is not a std::runtime_error");
    }
    PBT_CHECK(!violated, what, " was not rejected");
    return true;
  } else {
    auto r = pbt::RunChild([&] { op(); });
    const bool ended = r.signaled || r.code != 0;
    PBT_CHECK(r.out.find("Sanitizer") == std::string::npos && r.out.find("runtime error") == std::string::npos, what, ": ", r.out);
    PBT_CHECK(!ended || violated, what, " is allowed but ended the process: ", r.out);
    PBT_CHECK(ended || !violated, what, " was not rejected");
    PBT_CHECK(!ended || !r.out.empty(), what, " ended the process without a message");
    if (!violated) op();
    return !violated;
  }
}
constexpr size_t kCap = 4;
using Ints = std::vector<int>;
template<typename C> Ints Values(const C& c) { Ints r; for (auto& e : c) r.push_back(e.Get()); return r; }
Ints Some(pbt::Src& src, size_t max) { Ints r; for (size_t n = src.Size(0, max); n > 0; --n) r.push_back(int(src.Draw(9))); return r; }
Ints Cat(const Ints& a, size_t at, const Ints& b) { Ints r = a; r.insert(r.begin() + ptrdiff_t(at), b.begin(), b.end()); return r; }
}  // namespace

PBT_PROP(vector, 400 * kN, 6000 * kN, "histories of 1..10 LimitedVector<., 4> operations of which about a third break a requirement; non-trivial: at least one was rejected") {
  using V = mc::LimitedVector<Tracked, kCap>;
  TrackedStats::Clear();
  {
    V v;
    Ints m;
    for (size_t n = src.Size(1, kThrows ? 10 : 3); n > 0; --n) {
      const int op = int(src.Draw(21)), x = int(src.Draw(9));
      const size_t at = src.Draw(m.size()), idx = src.Draw(6);
      const Ints add = Some(src, 6);
      const std::vector<Tracked> addv(add.begin(), add.end());
      const std::list<Tracked> addl(add.begin(), add.end());
      const size_t extra = addv.size() + addl.size();
      const bool full = m.size() >= kCap;
      Ints next = m;
      bool ok = true;
      bool loose = false;  // a rejected operation on several elements may have been carried out in part
      PBT_NOTE("op " << op << " x " << x << " at " << at << " idx " << idx << " add " << pbt::Show(add) << " on " << pbt::Show(m));
      switch (op) {
        case 0: next.push_back(x); ok = Perform("push_back(T&&)", full, [&] { auto& r = v.push_back(Tracked(x)); PBT_CHECK(&r == &v.back()); }); break;
        case 1: next.push_back(x); ok = Perform("push_back(const T&)", full, [&] { Tracked t(x); v.push_back(t); }); break;
        case 2: next.push_back(x); ok = Perform("emplace_back", full, [&] { v.emplace_back(x); }); break;
        case 3: next = Cat(m, at, {x}); ok = Perform("emplace", full, [&] { v.emplace(v.begin() + at, x); }); break;
        case 4: next = Cat(m, at, {x}); ok = Perform("insert(pos, T&&)", full, [&] { v.insert(v.begin() + at, Tracked(x)); }); break;
        case 5: next = Cat(m, at, Ints(idx, x)); ok = Perform("insert(pos, n, value)", m.size() + idx > kCap, [&] { v.insert(v.begin() + at, idx, Tracked(x)); }); break;
        case 6: next = Cat(m, at, add); ok = Perform("insert(pos, vector range)", m.size() + add.size() > kCap, [&] { v.insert(v.begin() + at, addv.begin(), addv.end()); }); break;
        case 7: next = Cat(m, at, add); ok = Perform("insert(pos, list range)", m.size() + add.size() > kCap, [&] { v.insert(v.begin() + at, addl.begin(), addl.end()); }); break;
        case 8: next.resize(idx); loose = true; ok = Perform("resize", idx > kCap, [&] { v.resize(idx); }); break;
        case 9: next.assign(idx, x); loose = true; ok = Perform("assign(n, value)", idx > kCap, [&] { v.assign(idx, Tracked(x)); }); break;
        case 10: next = add; loose = true; ok = Perform("assign(vector range)", add.size() > kCap, [&] { v.assign(addv.begin(), addv.end()); }); break;
        case 11: next = add; loose = true; ok = Perform("assign(list range)", add.size() > kCap, [&] { v.assign(addl.begin(), addl.end()); }); break;
        case 12: {
          const bool five = idx > 3;
          next = five ? Ints{x, 1, 2, 3, 4} : Ints{x, 1};
          ok = Perform("assign(list)", five, [&] { if (five) v.assign({Tracked(x), Tracked(1), Tracked(2), Tracked(3), Tracked(4)}); else v.assign({Tracked(x), Tracked(1)}); });
          break;
        }
        case 13: ok = Perform("reserve", idx > kCap, [&] { v.reserve(idx); }); break;
        case 14: ok = Perform("[]", idx >= m.size(), [&] { PBT_EQ((idx & 1 ? v[idx] : std::as_const(v)[idx]).Get(), m[idx]); }); break;
        case 15: ok = Perform("at", idx >= m.size(), [&] { PBT_EQ((idx & 1 ? v.at(idx) : std::as_const(v).at(idx)).Get(), m[idx]); }); break;
        case 16: if (at < m.size()) next.erase(next.begin() + ptrdiff_t(at)); ok = Perform("erase", at >= m.size(), [&] { v.erase(v.begin() + at); }); break;
        case 17: {
          const size_t to = src.Draw(m.size());
          if (at <= to) next.erase(next.begin() + ptrdiff_t(at), next.begin() + ptrdiff_t(to));
          ok = Perform("erase(range)", at > to, [&] { v.erase(v.begin() + at, v.begin() + to); });
          break;
        }
        case 18: if (!m.empty()) next.pop_back(); ok = Perform("pop_back", m.empty(), [&] { v.pop_back(); }); break;
        case 19: ok = Perform("constructor(vector range)", add.size() > kCap, [&] { V u(addv.begin(), addv.end()); PBT_EQ(Values(u), add); }); break;
        case 20: ok = Perform("constructor(list range)", add.size() > kCap, [&] { auto u = mc::MakeLimitedVector<kCap>(addl.begin(), addl.end()); PBT_EQ(Values(u), add); }); break;
        default: {
          const bool five = idx > 3;
          ok = Perform("constructor(list)", five, [&] {
            if (five) { V u({Tracked(x), Tracked(1), Tracked(2), Tracked(3), Tracked(4)}); (void)u; } else { V u({Tracked(x), Tracked(1)}); PBT_EQ(Values(u), (Ints{x, 1})); }
          });
          break;
        }
      }
      if (!ok) src.NonTrivial();
      if (ok) m = next;
      const Ints got = Values(v);
      if (!ok && loose && kThrows && got != m) {
        PBT_CHECK(got.size() <= kCap && std::equal(got.begin(), got.end(), next.begin()), "a rejected operation ", op, " left ", pbt::Show(got));
        m = got;
      }
      PBT_EQ(got, m, ok ? "after an operation" : "a rejected operation changed the vector");
      PBT_EQ(v.size(), m.size());
      PBT_EQ(TrackedStats::Count(), m.size() + extra, "exactly the elements are alive");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every element is destroyed exactly once");
}

namespace {
template<typename S>
void SetHistory(pbt::Src& src) {
  TrackedStats::Clear();
  {
    S s;
    std::set<int> m;
    for (size_t n = src.Size(1, kThrows ? 10 : 3); n > 0; --n) {
      const int op = int(src.Draw(10)), x = int(src.Draw(7));
      const size_t idx = src.Draw(6), at = src.Draw(m.size());
      const Ints add = Some(src, 6);
      const std::vector<Tracked> addv(add.begin(), add.end());
      const std::list<Tracked> addl(add.begin(), add.end());
      const size_t extra = addv.size() + addl.size();
      const std::set<int> uniq(add.begin(), add.end());
      const bool full = m.size() >= kCap && m.count(x) == 0;
      std::set<int> next = m, all = m;
      all.insert(add.begin(), add.end());
      bool ok = true, loose = false;
      PBT_NOTE("op " << op << " x " << x << " at " << at << " idx " << idx << " add " << pbt::Show(add) << " on " << pbt::Show(Ints(m.begin(), m.end())));
      auto list = [](const auto& r) { return Values(r); };
      const Ints want(uniq.begin(), uniq.end());
      switch (op) {
        case 0: next.insert(x); ok = Perform("insert(const&)", full, [&] { Tracked t(x); PBT_EQ(s.insert(t).second, m.count(x) == 0); }); break;
        case 1: next.insert(x); ok = Perform("insert(&&)", full, [&] { PBT_EQ(s.insert(Tracked(x)).second, m.count(x) == 0); }); break;
        case 2: next.insert(x); ok = Perform("emplace", full, [&] { PBT_EQ(s.emplace(x).first->Get(), x); }); break;
        case 3: next = all; loose = true; ok = Perform("insert(vector range)", all.size() > kCap, [&] { s.insert(addv.begin(), addv.end()); }); break;
        case 4: next = all; loose = true; ok = Perform("insert(list range)", all.size() > kCap, [&] { s.insert(addl.begin(), addl.end()); }); break;
        case 5: ok = Perform("at_index", idx >= m.size(), [&] { PBT_EQ((idx & 1 ? s.at_index(idx) : std::as_const(s).at_index(idx)).Get(), *std::next(m.begin(), ptrdiff_t(idx))); }); break;
        case 6: if (at < m.size()) next.erase(std::next(next.begin(), ptrdiff_t(at))); ok = Perform("erase(pos)", at >= m.size(), [&] { s.erase(s.begin() + ptrdiff_t(at)); }); break;
        case 7: {
          const size_t to = src.Draw(m.size());
          if (at <= to) next.erase(std::next(next.begin(), ptrdiff_t(at)), std::next(next.begin(), ptrdiff_t(to)));
          ok = Perform("erase(range)", at > to, [&] { s.erase(s.begin() + ptrdiff_t(at), s.begin() + ptrdiff_t(to)); });
          break;
        }
        case 8: ok = Perform("constructor(vector range)", uniq.size() > kCap, [&] { S u(addv.begin(), addv.end()); PBT_EQ(list(u), want); }); break;
        case 9: ok = Perform("MakeLimitedSet(list range)", uniq.size() > kCap, [&] { auto u = mc::MakeLimitedSet<kCap>(addl.begin(), addl.end()); PBT_EQ(list(u), want); }); break;
        default: {
          using Sorted = mc::LimitedSet<Tracked, mc::LimitedOptions<kCap, mc::LimitedOptionsFlag::kRequireSortedInput>{}>;
          const bool bad = !std::is_sorted(add.begin(), add.end()) || uniq.size() > kCap;
          ok = Perform("constructor(sorted range)", bad, [&] { Sorted u(addl.begin(), addl.end()); PBT_EQ(list(u), want); });
          break;
        }
      }
      if (!ok) src.NonTrivial();
      if (ok) m = next;
      const Ints got = Values(s);
      if (!ok && loose && kThrows) {
        const std::set<int> now(got.begin(), got.end());
        PBT_CHECK(got.size() <= kCap && std::includes(now.begin(), now.end(), m.begin(), m.end()) && std::includes(all.begin(), all.end(), now.begin(), now.end()), "a rejected operation ", op, " left ", pbt::Show(got));
        m = now;
      }
      PBT_EQ(got, Ints(m.begin(), m.end()), ok ? "after an operation" : "a rejected operation changed the set");
      for (int k = 0; k < 10; ++k) PBT_EQ(s.contains(Tracked(k)), m.count(k) != 0, "contains ", k);
      PBT_EQ(TrackedStats::Count(), m.size() + extra, "exactly the elements are alive");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every element is destroyed exactly once");
}
}  // namespace
PBT_PROP(set, 400 * kN, 6000 * kN, "histories of 1..10 LimitedSet<., 4> operations of which about a third break a requirement; non-trivial: at least one was rejected") {
  using F = mc::LimitedOptionsFlag;
  if (src.Bool()) SetHistory<mc::LimitedSet<Tracked, kCap>>(src);
  else SetHistory<mc::LimitedSet<Tracked, mc::LimitedOptions<kCap, F::kNoOptimizeIndexOf>{}, std::less<Tracked>>>(src);
}

PBT_PROP(map, 400 * kN, 6000 * kN, "histories of 1..10 LimitedMap<string, ., 4> operations of which about a third break a requirement; non-trivial: at least one was rejected") {
  using K = std::string;
  using S = mc::LimitedMap<K, Tracked, kCap, std::less<>>;
  TrackedStats::Clear();
  {
    S s;
    std::map<K, int> m;
    for (size_t n = src.Size(1, kThrows ? 10 : 3); n > 0; --n) {
      const int op = int(src.Draw(18)), x = int(src.Draw(9));
      const size_t idx = src.Draw(6), at = src.Draw(m.size());
      const K key(1 + src.Draw(2), char('a' + src.Draw(3)));
      std::list<std::pair<K, Tracked>> add;
      std::map<K, int> uniq, all = m;
      bool sorted = true;
      for (size_t k = src.Size(0, 6); k > 0; --k) {
        K nk(1, char('a' + src.Draw(6)));
        if (!add.empty() && nk < add.back().first) sorted = false;
        int nv = int(src.Draw(9));
        add.emplace_back(nk, nv); uniq.emplace(nk, nv); all.emplace(nk, nv);
      }
      const std::vector<std::pair<K, Tracked>> addv(add.begin(), add.end());
      const size_t extra = add.size() + addv.size();
      const bool has = m.count(key) != 0, full = m.size() >= kCap && !has;
      std::map<K, int> next = m;
      bool ok = true, loose = false;
      PBT_NOTE("op " << op << " key " << key << " x " << x << " at " << at << " idx " << idx << " adding " << add.size() << " to " << m.size());
      auto same = [](const auto& c, const std::map<K, int>& w) {
        if (c.size() != w.size()) return false;
        auto it = w.begin();
        for (auto& e : c) { if (e.first != it->first || e.second.Get() != it->second) return false; ++it; }
        return true;
      };
      switch (op) {
        case 0: next.emplace(key, x); ok = Perform("insert(const&)", full, [&] { const S::value_type e(key, x); PBT_EQ(s.insert(e).second, !has); }); break;
        case 1: next.emplace(key, x); ok = Perform("insert(&&)", full, [&] { PBT_EQ(s.insert({key, Tracked(x)}).second, !has); }); break;
        case 2: next.emplace(key, x); ok = Perform("emplace", full, [&] { PBT_EQ(s.emplace(key, x).second, !has); }); break;
        case 3: next.emplace(key, x); ok = Perform("try_emplace(const&)", full, [&] { PBT_EQ(s.try_emplace(key, x).second, !has); }); break;
        case 4: next.emplace(key, x); ok = Perform("try_emplace(&&)", full, [&] { PBT_EQ(s.try_emplace(K(key), x).second, !has); }); break;
        case 5: next[key] = x; ok = Perform("insert_or_assign(const&)", full, [&] { PBT_EQ(s.insert_or_assign(key, Tracked(x)).second, !has); }); break;
        case 6: next[key] = x; ok = Perform("insert_or_assign(&&)", full, [&] { PBT_EQ(s.insert_or_assign(K(key), Tracked(x)).second, !has); }); break;
        case 7: next[key] = x; ok = Perform("[const&]", full, [&] { s[key] = Tracked(x); }); break;
        case 8: next[key] = x; ok = Perform("[&&]", full, [&] { s[K(key)] = Tracked(x); }); break;
        case 9: ok = Perform("at(key)", !has, [&] { PBT_EQ((x & 1 ? s.at(key) : std::as_const(s).at(key)).Get(), m.at(key)); }); break;
        case 10: ok = Perform("at(foreign key)", !has, [&] { PBT_EQ((x & 1 ? s.at(std::string_view(key)) : std::as_const(s).at(std::string_view(key))).Get(), m.at(key)); }); break;
        case 11: ok = Perform("at_index", idx >= m.size(), [&] { PBT_EQ((x & 1 ? s.at_index(idx) : std::as_const(s).at_index(idx)).first, std::next(m.begin(), ptrdiff_t(idx))->first); }); break;
        case 12: if (at < m.size()) next.erase(std::next(next.begin(), ptrdiff_t(at))); ok = Perform("erase(pos)", at >= m.size(), [&] { s.erase(s.begin() + ptrdiff_t(at)); }); break;
        case 13: next = all; loose = true; ok = Perform("insert(vector range)", all.size() > kCap, [&] { s.insert(addv.begin(), addv.end()); }); break;
        case 14: next = all; loose = true; ok = Perform("insert(list range)", all.size() > kCap, [&] { s.insert(add.begin(), add.end()); }); break;
        case 15: ok = Perform("constructor(vector range)", uniq.size() > kCap, [&] { S u(addv.begin(), addv.end()); PBT_CHECK(same(u, uniq)); }); break;
        case 16: ok = Perform("MakeLimitedMap(list range)", uniq.size() > kCap, [&] { auto u = mc::MakeLimitedMap<kCap>(add.begin(), add.end()); PBT_CHECK(same(u, uniq)); }); break;
        case 17: {
          const size_t to = src.Draw(m.size());
          if (at <= to) next.erase(std::next(next.begin(), ptrdiff_t(at)), std::next(next.begin(), ptrdiff_t(to)));
          ok = Perform("erase(range)", at > to, [&] { s.erase(s.begin() + ptrdiff_t(at), s.begin() + ptrdiff_t(to)); });
          break;
        }
        default: {
          using Sorted = mc::LimitedMap<K, Tracked, mc::LimitedOptions<kCap, mc::LimitedOptionsFlag::kRequireSortedInput>{}>;
          ok = Perform("constructor(sorted range)", !sorted || uniq.size() > kCap, [&] { Sorted u(add.begin(), add.end()); PBT_CHECK(same(u, uniq)); });
          break;
        }
      }
      if (!ok) src.NonTrivial();
      if (ok) m = next;
      if (!ok && loose && kThrows) {
        std::map<K, int> now;
        for (auto& e : s) now.emplace(e.first, e.second.Get());
        for (auto& e : m) PBT_CHECK(now.count(e.first) && now[e.first] == e.second, "a rejected operation lost or changed ", e.first);
        for (auto& e : now) PBT_CHECK(all.count(e.first) && all[e.first] == e.second, "a rejected operation invented ", e.first);
        PBT_CHECK(now.size() <= kCap && now.size() == s.size(), "size");
        m = now;
      }
      PBT_CHECK(same(s, m), ok ? "after an operation" : "a rejected operation changed the map");
      for (const char* k : {"a", "b", "aa", "d", "ddd", "g"}) PBT_EQ(s.contains(std::string_view(k)), m.count(k) != 0, "contains ", k);
      PBT_EQ(TrackedStats::Count(), m.size() + extra, "exactly the elements are alive");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every element is destroyed exactly once");
}

PBT_PROP(holders, 200 * kN, 2000 * kN, "histories of OptionalRef and OptionalDataOrRef set/reset/access operations; non-trivial: at least one access was rejected") {
  TrackedStats::Clear();
  {
    Tracked target(70), other(80);
    mt::OptionalRef<Tracked> r;
    mt::OptionalDataOrRef<Tracked> d;
    const Tracked* rp = nullptr;
    int dv = -1;  // -1: nothing
    const Tracked* dp = nullptr;
    for (size_t n = src.Size(1, kThrows ? 10 : 4); n > 0; --n) {
      const int op = int(src.Draw(17)), x = int(src.Draw(9));
      PBT_NOTE("op " << op << " x " << x);
      bool ok = true;
      auto is = [&](const Tracked& t) { PBT_CHECK(dp ? &t == dp : t.Get() == dv, "yields ", t.Get()); };
      auto isr = [&](const Tracked& t) { PBT_CHECK(&t == rp, "yields another object"); };
      switch (op) {
        case 0: r.reset(); rp = nullptr; break;
        case 1: r.set_ref(target); rp = &target; break;
        case 2: r.set_ref(other); rp = &other; break;
        case 3: d.reset(); dv = -1; dp = nullptr; break;
        case 4: d.set_ref(target); dp = &target; break;
        case 5: d.emplace(x); dv = x; dp = nullptr; break;
        case 6: ok = Perform("OptionalRef::value", !rp, [&] { isr(r.value()); }); break;
        case 7: ok = Perform("OptionalRef::value const", !rp, [&] { isr(std::as_const(r).value()); }); break;
        case 8: ok = Perform("*OptionalRef", !rp, [&] { isr(*r); }); break;
        case 9: ok = Perform("*const OptionalRef", !rp, [&] { isr(*std::as_const(r)); }); break;
        case 10: ok = Perform("OptionalRef->", !rp, [&] { isr(*r.operator->()); }); break;
        case 11: ok = Perform("const OptionalRef->", !rp, [&] { isr(*std::as_const(r).operator->()); }); break;
        case 12: ok = Perform("OptionalDataOrRef::value", !dp && dv < 0, [&] { is(d.value()); }); break;
        case 13: ok = Perform("OptionalDataOrRef::value const", !dp && dv < 0, [&] { is(std::as_const(d).value()); }); break;
        case 14: ok = Perform("*OptionalDataOrRef", !dp && dv < 0, [&] { is(*d); }); break;
        case 15: ok = Perform("*const OptionalDataOrRef", !dp && dv < 0, [&] { is(*std::as_const(d)); }); break;
        case 16: ok = Perform("OptionalDataOrRef->", !dp && dv < 0, [&] { is(*d.operator->()); }); break;
        default: ok = Perform("const OptionalDataOrRef->", !dp && dv < 0, [&] { is(*std::as_const(d).operator->()); }); break;
      }
      if (!ok) src.NonTrivial();
      PBT_EQ(r.has_value(), rp != nullptr); PBT_EQ(d.has_value(), dp || dv >= 0);
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every value is destroyed exactly once");
}

PBT_PROP(json, 400 * kN, 6000 * kN, "histories of Json operations that need a certain kind of value, an index or a property; non-trivial: at least one was rejected") {
  using mbo::json::Json;
  enum { kNull, kArray, kObject, kString, kInt } kind = kNull;
  Json j;
  Ints arr;
  std::map<std::string, int> obj;
  auto fresh = [&](int k) {
    j.Reset(); arr.clear(); obj.clear();
    switch (k) {
      case 0: kind = kNull; break;
      case 1: j.MakeArray(); kind = kArray; break;
      case 2: j.MakeObject(); kind = kObject; break;
      case 3: j = "text"; kind = kString; break;
      default: j = 25; kind = kInt; break;
    }
  };
  fresh(int(src.Draw(4)));
  for (size_t n = src.Size(1, kThrows ? 10 : 3); n > 0; --n) {
    const int op = int(src.Draw(22)), x = int(src.Draw(9));
    const size_t idx = src.Draw(4);
    const std::string key(1, char('a' + src.Draw(2)));
    const bool arrays = kind == kArray || kind == kNull, objects = kind == kObject || kind == kNull;
    PBT_NOTE("op " << op << " x " << x << " idx " << idx << " key " << key << " kind " << kind);
    const Json& c = j;
    bool ok = true;
    auto toArray = [&] { if (kind == kNull) kind = kArray; };
    auto toObject = [&] { if (kind == kNull) kind = kObject; };
    auto eq = [](const Json& a, int b) { return a == Json(b); };
    switch (op) {
      case 0: fresh(x % 5); break;
      case 1: if ((ok = Perform("push_back", !arrays, [&] { j.push_back(x); }))) { toArray(); arr.push_back(x); } break;
      case 2: if ((ok = Perform("emplace_back", !arrays, [&] { j.emplace_back(x); }))) { toArray(); arr.push_back(x); } break;
      case 3: if (kind == kArray && arr.empty()) break; if ((ok = Perform("pop_back", kind != kArray, [&] { j.pop_back(); }))) arr.pop_back(); break;
      case 4:
        ok = Perform("[index]", !arrays || idx >= arr.size(), [&] { PBT_CHECK(eq(j[idx], arr[idx])); });
        if (kThrows && kind == kNull && j.IsArray()) kind = kArray;  // what kind of value a rejected access leaves is open
        break;
      case 5: ok = Perform("const [index]", kind != kArray || idx >= arr.size(), [&] { PBT_CHECK(eq(c[idx], arr[idx])); }); break;
      case 6: ok = Perform("const at(index)", kind != kArray || idx >= arr.size(), [&] { PBT_CHECK(eq(c.at(idx), arr[idx])); }); break;
      case 7: if ((ok = Perform("[property]", !objects, [&] { j[key] = x; }))) { toObject(); obj[key] = x; } break;
      case 8: ok = Perform("const [property]", kind != kObject || !obj.count(key), [&] { PBT_CHECK(eq(c[key], obj.at(key))); }); break;
      case 9: ok = Perform("const at(property)", kind != kObject || !obj.count(key), [&] { PBT_CHECK(eq(c.at(key), obj.at(key))); }); break;
      case 10: if ((ok = Perform("emplace(property)", !objects, [&] { j.emplace(key, x); }))) { toObject(); obj.emplace(key, x); } break;
      case 11: if ((ok = Perform("resize", kind != kArray, [&] { j.resize(idx, x); }))) arr.resize(idx, x); break;
      case 12: ok = Perform("begin", kind != kArray, [&] { PBT_CHECK(size_t(j.end() - j.begin()) == arr.size()); }); break;
      case 13: ok = Perform("const begin", kind != kArray, [&] { PBT_CHECK(size_t(c.end() - c.begin()) == arr.size()); }); break;
      case 14: ok = Perform("rbegin", kind != kArray, [&] { PBT_CHECK(size_t(j.rend() - j.rbegin()) == arr.size()); }); break;
      case 15: ok = Perform("values", kind != kArray && kind != kObject, [&] { size_t k = 0; for (auto& v : j.values()) { (void)v; ++k; } PBT_EQ(k, arr.size() + obj.size()); }); break;
      case 16: ok = Perform("const values", kind != kArray && kind != kObject, [&] { size_t k = 0; for (auto& v : c.values()) { (void)v; ++k; } PBT_EQ(k, arr.size() + obj.size()); }); break;
      case 17: ok = Perform("array_values", kind != kArray, [&] { size_t k = 0; for (auto& v : x & 1 ? j.array_values() : j.array_values()) { PBT_CHECK(eq(v, arr[k])); ++k; } PBT_EQ(k, arr.size()); }); break;
      case 18: ok = Perform("property_names", kind != kObject, [&] { size_t k = 0; for (auto& v : c.property_names()) { PBT_CHECK(obj.count(v)); ++k; } PBT_EQ(k, obj.size()); }); break;
      case 19: ok = Perform("property_pairs", kind != kObject, [&] { size_t k = 0; for (auto v : c.property_pairs()) { PBT_CHECK(eq(v.second, obj.at(v.first))); ++k; } PBT_EQ(k, obj.size()); }); break;
      case 20: ok = Perform("property_values", kind != kObject, [&] { size_t k = 0; for (auto& v : c.property_values()) { (void)v; ++k; } PBT_EQ(k, obj.size()); }); break;
      case 21: if ((ok = Perform("MakeArray", !arrays, [&] { j.MakeArray(); }))) kind = kArray; break;
      default: if ((ok = Perform("MakeObject", !objects, [&] { j.MakeObject(); }))) kind = kObject; break;
    }
    if (!ok) src.NonTrivial();
    PBT_EQ(int(c.IsNull()), int(kind == kNull)); PBT_EQ(int(c.IsArray()), int(kind == kArray)); PBT_EQ(int(c.IsObject()), int(kind == kObject));
    PBT_EQ(int(c.IsString()), int(kind == kString)); PBT_EQ(int(c.IsNumber()), int(kind == kInt));
    if (kind == kString) PBT_CHECK(c == Json("text")); 
    if (kind == kInt) PBT_CHECK(eq(c, 25));
    if (kind == kArray || kind == kObject) PBT_EQ(c.size(), arr.size() + obj.size());
    for (size_t i = 0; i < arr.size(); ++i) PBT_CHECK(eq(c[i], arr[i]), "element ", i);
    for (auto& [k, v] : obj) PBT_CHECK(c.contains(k) && eq(c[k], v), "property ", k);
  }
}

PBT_PROP(require, 300 * kN, 3000 * kN, "MBO_CONFIG_REQUIRE on conditions with side effects, as a single statement, in a loop and between if and else; Stringify with incomplete options; non-trivial: the condition is false") {
  const bool good = src.Bool();
  const int where = int(src.Draw(3)), k = int(src.Draw(5));
  if (!good) src.NonTrivial();
  PBT_NOTE("good " << good << " where " << where << " k " << k);
  int evaluated = 0, after = 0, other = 0;
  auto cond = [&](bool b) { ++evaluated; return b; };
  bool ok = true;
  switch (where) {
    case 0: ok = Perform("a statement", !good, [&] { evaluated = 0; MBO_CONFIG_REQUIRE(cond(good), "the message"); ++after; PBT_EQ(evaluated, 1); }); break;
    case 1: ok = Perform("in a loop", !good, [&] {
      evaluated = 0;
      for (int i = 0; i <= k; ++i) MBO_CONFIG_REQUIRE(cond(good || i < k), "the message");
      PBT_EQ(evaluated, k + 1); ++after;
    }); break;
    case 2: ok = Perform("between if and else", !good && k > 2, [&] {
      evaluated = 0; other = 0;
      if (k > 2) MBO_CONFIG_REQUIRE(cond(good), "the message");  // NOLINT
      else ++other;
      PBT_EQ(evaluated, k > 2 ? 1 : 0); PBT_EQ(other, k > 2 ? 0 : 1); ++after;
    }); break;
    default: {
      const mt::StringifyOptions full = mt::StringifyOptions::WithAllData({});
      const mt::StringifyOptions part{};
      const mt::StringifyRootOptions root{};
      ok = Perform("Stringify options", !good, [&] { mt::Stringify s(good ? full : part, root); (void)s; ++after; });
      break;
    }
  }
  PBT_EQ(after > 0, ok, "the code after a violated requirement ran");
  if (kThrows && !ok && where == 0) PBT_EQ(evaluated, 1);
}
