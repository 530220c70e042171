// Shared by C02 (LimitedSet) and C03 (LimitedMap): a std::map based model of an
// ordered container of bounded capacity and a harness that drives both.
#ifndef VERIF_LIMITED_MODEL_H_
#define VERIF_LIMITED_MODEL_H_
#include <array>
#include <compare>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "tracked.h"
namespace mc = mbo::container;
using Flag = mc::LimitedOptionsFlag;
template<std::size_t N, Flag... F> inline constexpr auto kOpt = mc::LimitedOptions<N, F...>{};

using TKey = TrackedT<0>;
using TVal = TrackedT<1>;
template<typename T> struct IsTrackedT : std::false_type {};
template<int k> struct IsTrackedT<TrackedT<k>> : std::true_type {};

// Order preserving and injective from int to T.
template<typename T> T Mk(int v) {
  if constexpr (std::is_same_v<T, std::string>) {
    std::string n = std::to_string(v);
    return std::string(4 - n.size(), '0') + n + std::string(size_t(v * 7 % 40), 'x');
  } else {
    return T(v);
  }
}
template<typename T> bool Is(const T& t, int v) { return t == Mk<T>(v); }

// A comparator with state: the order depends on how it was built.
template<typename T> struct Flip {
  bool rev = false;
  bool operator()(const T& a, const T& b) const noexcept { return rev ? b < a : a < b; }
};
template<typename T> struct IsFlip : std::false_type {};
template<typename T> struct IsFlip<Flip<T>> : std::true_type {};
template<typename C> inline constexpr bool kFlip = IsFlip<C>::value;
template<typename T> struct IsGreater : std::false_type {};
template<typename T> struct IsGreater<std::greater<T>> : std::true_type {};
template<typename C> C MakeCmp(bool rev) {
  if constexpr (kFlip<C>) return C{rev};
  else return C{};
}
struct MCmp {
  bool rev = false;
  bool operator()(int a, int b) const { return rev ? b < a : a < b; }
};
using Model = std::map<int, int, MCmp>;

template<typename L> struct Info;
template<typename K, auto O, typename C> struct Info<mc::LimitedSet<K, O, C>> {
  static constexpr bool kMap = false;
  using Key = K;
  using Mapped = int;
  using Cmp = C;
  static constexpr auto kOptions = mc::MakeLimitedOptions<O>();
  template<auto P, typename D> using Rebind = mc::LimitedSet<K, P, D>;
};
template<typename K, typename V, auto O, typename C> struct Info<mc::LimitedMap<K, V, O, C>> {
  static constexpr bool kMap = true;
  using Key = K;
  using Mapped = V;
  using Cmp = C;
  static constexpr auto kOptions = mc::MakeLimitedOptions<O>();
  template<auto P, typename D> using Rebind = mc::LimitedMap<K, V, P, D>;
};

template<typename L> struct Harness {
  using I = Info<L>;
  using Key = typename I::Key;
  using Mapped = typename I::Mapped;
  using Cmp = typename I::Cmp;
  static constexpr bool kMap = I::kMap;
  static constexpr size_t kN = I::kOptions.kCapacity;
  static constexpr bool kSorted = I::kOptions.Has(Flag::kRequireSortedInput);
  using It = typename L::iterator;
  using CIt = typename L::const_iterator;
  using Elem = std::conditional_t<kMap, std::pair<Key, Mapped>, Key>;

  static Elem MkElem(int k, int v) {
    if constexpr (kMap) return Elem(Mk<Key>(k), Mk<Mapped>(v));
    else return Mk<Key>(k);
  }
  static const Key& K(const auto& e) {
    if constexpr (kMap) return e.first;
    else return e;
  }
  static bool ElemIs(const auto& e, const std::pair<const int, int>& m) {
    if constexpr (kMap) return Is(e.first, m.first) && Is(e.second, m.second);
    else return Is(e, m.first);
  }
  static std::string Show(const Model& m) {
    std::string r = "{";
    for (auto& [k, v] : m) { r += " " + std::to_string(k); if (kMap) r += ":" + std::to_string(v); }
    return r + " }";
  }
  static size_t Alive(const Model& m) { return m.size() * (size_t(IsTrackedT<Key>::value) + size_t(kMap && IsTrackedT<Mapped>::value)); }

  template<typename LL> static void Contents(LL& l, const Model& m, const char* what) {
    const L& c = l;
    PBT_EQ(c.size(), m.size(), what, " of ", Show(m));
    PBT_EQ(c.empty(), m.empty(), what);
    PBT_EQ(c.capacity(), kN);
    PBT_EQ(c.max_size(), kN);
    size_t i = 0;
    auto mi = m.begin();
    for (const auto& e : c) {
      PBT_CHECK(mi != m.end(), what, ": too many elements");
      PBT_CHECK(ElemIs(e, *mi), what, ": element ", i, " of ", Show(m));
      PBT_CHECK(&e == &c.at_index(i) && &e == &*(c.begin() + i) && &e == &c.begin()[i] && &e == c.data() + i, what, ": access paths differ at ", i);
      ++i;
      ++mi;
    }
    PBT_EQ(i, m.size(), what, " iteration");
    PBT_EQ(size_t(c.cend() - c.cbegin()), m.size(), what);
    for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; PBT_CHECK(&*it == &c.at_index(i), what, " reverse iteration"); }
    PBT_EQ(i, size_t(0), what, " reverse iteration");
    if constexpr (!std::is_const_v<LL>) {
      for (auto& e : l) { PBT_CHECK(&e == &l.at_index(i) && &e == &*(l.begin() + i), what, " mutable iteration"); ++i; }
      PBT_EQ(i, m.size(), what, " mutable iteration");
      for (auto it = l.rbegin(); it != l.rend(); ++it) { --i; PBT_CHECK(&*it == &c.at_index(i), what, " mutable reverse iteration"); }
    }
  }

  template<typename LL, typename Q> static void Find(LL& l, const Model& m, int k, const Q& q, const char* what) {
    bool has = m.count(k) != 0;
    auto at = size_t(std::distance(m.begin(), m.lower_bound(k)));
    auto up = size_t(std::distance(m.begin(), m.upper_bound(k)));
    auto idx = [&](auto it) { return size_t(it - l.begin()); };
    PBT_EQ(l.contains(q), has, what, " contains ", k, " in ", Show(m));
    PBT_EQ(l.count(q), size_t(has), what, " count ", k, " in ", Show(m));
    PBT_EQ(idx(l.find(q)), has ? at : m.size(), what, " find ", k, " in ", Show(m));
    PBT_CHECK((l.find(q) == l.end()) == !has, what, " find ", k);
    PBT_EQ(idx(l.lower_bound(q)), at, what, " lower_bound ", k, " in ", Show(m));
    PBT_EQ(idx(l.upper_bound(q)), up, what, " upper_bound ", k, " in ", Show(m));
    auto [first, last] = l.equal_range(q);
    PBT_EQ(idx(first), at, what, " equal_range ", k, " in ", Show(m));
    PBT_EQ(idx(last), up, what, " equal_range ", k, " in ", Show(m));
    PBT_EQ(l.index_of(q), has ? at : L::npos, what, " index_of ", k, " in ", Show(m));
    if constexpr (kMap) {
      if (has) {
        PBT_CHECK(Is(l.at(q), m.at(k)), what, " at ", k, " in ", Show(m));
        PBT_CHECK(&l.at(q) == &l.find(q)->second, what, " at gives another object");
      }
    }
  }
  template<typename LL> static void Lookups(LL& l, const Model& m, int k) {
    const Key key = Mk<Key>(k);
    Find(l, m, k, key, "key");
    if constexpr (L::kTransparent) {
      if constexpr (std::is_same_v<Key, std::string>) {
        std::string exact = Mk<Key>(k) + "tail";
        std::string_view part(exact.data(), exact.size() - 4);  // not zero terminated
        Find(l, m, k, part, "string_view");
      } else if constexpr (IsTrackedT<Key>::value) {
        Find(l, m, k, k, "int for Tracked");
      } else {
        Find(l, m, k, long(k), "long");
        Find(l, m, k, short(k), "short");
      }
    }
  }
  static void ContainsMany(pbt::Src& src, const L& l, const Model& m, int range) {
    std::vector<Key> keys;
    bool all = true, any = false;
    size_t n = src.Draw(4);
    std::vector<int> ks;
    for (size_t i = 0; i < n; ++i) {
      int k = !m.empty() && src.Chance(2, 3) ? std::next(m.begin(), src.Draw(m.size() - 1))->first : int(src.Draw(range));
      ks.push_back(k);
      keys.push_back(Mk<Key>(k));
      bool has = m.count(k) != 0;
      all = all && has;
      any = any || has;
    }
    PBT_EQ(l.contains_all(keys), all, "contains_all ", pbt::Show(ks), " in ", Show(m));
    PBT_EQ(l.contains_any(keys), any, "contains_any ", pbt::Show(ks), " in ", Show(m));
    if constexpr (L::kTransparent && std::is_same_v<Key, std::string>) {
      std::vector<std::string_view> views(keys.begin(), keys.end());
      PBT_EQ(l.contains_all(views), all, "contains_all(views)");
      PBT_EQ(l.contains_any(views), any, "contains_any(views)");
    }
    if (n == 2) {
      PBT_EQ(l.contains_all({keys[0], keys[1]}), all, "contains_all{}");
      PBT_EQ(l.contains_any({keys[0], keys[1]}), any, "contains_any{}");
    }
  }

  static std::unique_ptr<L> New(bool rev) {
    if constexpr (kFlip<Cmp>) return std::make_unique<L>(MakeCmp<Cmp>(rev));
    else return std::make_unique<L>();
  }
  static int Sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
  template<typename A, typename B> static void Compare(const A& a, const B& b, const Model& ma, const Model& mb) {
    std::vector<std::pair<int, int>> va(ma.begin(), ma.end()), vb(mb.begin(), mb.end());
    if (!kMap) { for (auto& p : va) p.second = 0; for (auto& p : vb) p.second = 0; }
    int want = Sgn(va <=> vb);
    PBT_EQ(Sgn(a <=> b), want, "three-way ", Show(ma), " ", Show(mb));
    PBT_EQ(a == b, want == 0, "==");
    PBT_EQ(a != b, want != 0, "!=");
    PBT_EQ(a < b, want < 0, "<");
    PBT_EQ(a > b, want > 0, ">");
    PBT_EQ(a <= b, want <= 0, "<=");
    PBT_EQ(a >= b, want >= 0, ">=");
  }

  // Inserts at a hint of what is new: true if the model took it.
  static bool Put(Model& m, int k, int v) { return m.emplace(k, v).second; }

  // OtherL: another capacity and/or comparator, whose capacity is not larger.
  template<typename OtherL> static void Ops(pbt::Src& src) {
    constexpr int kS = 3;
    using OI = Info<OtherL>;
    constexpr size_t kM = OI::kOptions.kCapacity;
    constexpr bool kGreater = IsGreater<Cmp>::value;
    constexpr bool kOtherGreater = IsGreater<typename OI::Cmp>::value;
    TrackedStats::Clear();
    {
      std::unique_ptr<L> l[kS];
      std::vector<Model> m;
      for (auto& p : l) {
        bool rev = kFlip<Cmp> && src.Bool();
        p = New(rev);
        m.push_back(Model(MCmp{kGreater || rev}));
      }
      OtherL o;
      Model mo(MCmp{kOtherGreater});
      int range = int(src.Chance(1, 3) ? kN * 3 : kN + 2);
      int steps = int(src.Size(0, 45));
      int hits = 0, misses = 0;
      auto fresh = [&] { return int(src.Draw(range)); };
      // Mostly a key that is not there yet, or one that is.
      auto key = [&](const Model& mm) {
        if (!mm.empty() && src.Chance(1, 3)) { ++hits; return std::next(mm.begin(), src.Draw(mm.size() - 1))->first; }
        ++misses;
        return fresh();
      };
      if (src.Chance(1, 3)) {  // start with a full one
        while (m[0].size() < kN) { int k = fresh(); int v = fresh(); l[0]->emplace(MkElem(k, v)); Put(m[0], k, v); }
      }
      for (int step = 0; step < steps; ++step) {
        int a = int(src.Draw(kS - 1)), b = int(src.Draw(kS - 1));
        L& x = *l[a];
        Model& mx = m[a];
        auto room = [&](int k) { return mx.size() < kN || mx.count(k) != 0; };
        auto check = [&](std::pair<It, bool> r, int k, bool inserted, const char* what) {
          PBT_EQ(r.second, inserted, what, ": inserted ", k, " in ", Show(mx));
          PBT_CHECK(size_t(r.first - x.begin()) == size_t(std::distance(mx.begin(), mx.find(k))), what, ": iterator");
        };
        switch (src.Draw(25)) {
          case 0:
          case 1:
          case 2: {
            int k = key(mx), v = fresh();
            if (!room(k)) break;
            bool ins = Put(mx, k, v);
            switch (src.Draw(2)) {
              case 0: { const typename L::value_type e = MkElem(k, v); check(x.insert(e), k, ins, "insert(const&)"); PBT_CHECK(ElemIs(e, {k, v}), "insert changed its argument"); break; }
              case 1: check(x.insert(typename L::value_type(MkElem(k, v))), k, ins, "insert(&&)"); break;
              case 2:
                if constexpr (kMap) check(x.emplace(Mk<Key>(k), Mk<Mapped>(v)), k, ins, "emplace(k, v)");
                else check(x.emplace(MkElem(k, v)), k, ins, "emplace");
                break;
            }
            break;
          }
          case 3: {  // own element again
            if (mx.empty()) break;
            size_t i = src.Draw(mx.size() - 1);
            int k = std::next(mx.begin(), i)->first;
            check(src.Bool() ? x.insert(std::as_const(x).at_index(i)) : x.emplace(x.at_index(i)), k, false, "insert own");
            break;
          }
          case 4: {
            std::vector<std::pair<int, int>> kv;
            Model t = mx;
            for (size_t i = 0, n = src.Draw(4); i < n; ++i) {
              int k = key(mx), v = fresh();
              if (t.size() >= kN && !t.count(k)) continue;
              kv.push_back({k, v});
              t.emplace(k, v);
            }
            std::vector<Elem> e;
            for (auto [k, v] : kv) e.push_back(MkElem(k, v));
            if (src.Bool()) x.insert(e.begin(), e.end());
            else { std::deque<Elem> d(e.begin(), e.end()); x.insert(d.cbegin(), d.cend()); }
            for (size_t i = 0; i < e.size(); ++i) PBT_CHECK(ElemIs(e[i], kv[i]), "insert changed its source range");
            mx = t;
            break;
          }
          case 5:
          case 6: {
            if (mx.empty()) break;
            size_t i = src.Draw(mx.size() - 1);
            It it = src.Bool() ? x.erase(x.begin() + i) : x.erase(x.cbegin() + i);
            mx.erase(std::next(mx.begin(), i));
            PBT_EQ(size_t(it - x.begin()), i, "erase iterator");
            src.Label("erase");
            break;
          }
          case 7: {
            size_t i = src.Draw(mx.size()), j = i + src.Draw(mx.size() - i);
            It it = src.Bool() ? x.erase(x.begin() + i, x.begin() + j) : x.erase(x.cbegin() + i, x.cbegin() + j);
            mx.erase(std::next(mx.begin(), i), std::next(mx.begin(), j));
            PBT_EQ(size_t(it - x.begin()), i, "erase range iterator");
            if (i < j && i < mx.size()) src.Label("erase range inside");
            break;
          }
          case 8:
          case 9: {
            int k = key(mx);
            size_t want = mx.erase(k), got = 0;
            switch (src.Draw(2)) {
              case 0: got = x.erase(Mk<Key>(k)); break;
              case 1: { Key lv = Mk<Key>(k); got = x.erase(lv); PBT_CHECK(Is(lv, k), "erase changed its argument"); break; }
              case 2:
                if constexpr (std::is_same_v<Key, std::string>) {
                  std::string keep = Mk<Key>(k);
                  if constexpr (L::kTransparent) got = x.erase(std::string_view(keep));
                  else got = x.erase(keep.c_str());
                }
                else got = x.erase(k);
                break;
            }
            PBT_EQ(got, want, "erase ", k);
            break;
          }
          case 10: {  // erase by a stored key
            if (mx.empty()) break;
            size_t i = src.Draw(mx.size() - 1);
            mx.erase(std::next(mx.begin(), i));
            PBT_EQ(x.erase(K(std::as_const(x).at_index(i))), size_t(1), "erase by a stored key");
            src.Label("erase own");
            break;
          }
          case 11:
            if (src.Chance(1, 3)) { x.clear(); mx.clear(); }
            break;
          case 12:
            x = std::as_const(*l[b]);
            mx = m[b];
            if (a != b) src.Label("copy assign");
            break;
          case 13:
            if (a == b) break;
            x = std::move(*l[b]);
            mx = m[b];
            m[b].clear();
            src.Label("move assign");
            break;
          case 14: {
            if (a == b) break;
            if (src.Bool()) { l[a] = std::make_unique<L>(std::as_const(*l[b])); mx = m[b]; }
            else { l[a] = std::make_unique<L>(std::move(*l[b])); mx = m[b]; m[b].clear(); }
            src.Label("construct");
            break;
          }
          case 15: {
            x.swap(*l[b]);
            if (a != b) { std::swap(mx, m[b]); if (mx.size() != m[b].size()) src.Label("swap"); }
            break;
          }
          case 16: {  // from another capacity and comparator: keeps the own order
            if constexpr (!std::is_same_v<L, OtherL>) {
              const std::vector<std::pair<int, int>> other(mo.begin(), mo.end());
              switch (src.Draw(3)) {
                case 0: x = std::as_const(o); mx.clear(); break;
                case 1: l[a] = std::make_unique<L>(std::as_const(o)); mx = Model(MCmp{kGreater}); break;
                case 2: l[a] = std::make_unique<L>(std::move(o)); mx = Model(MCmp{kGreater}); mo.clear(); for (auto& e : o) mo.emplace(KeyInt(e, range), ValInt(e, range)); break;
                case 3:
                  if constexpr (kMap) { x = std::move(o); mx.clear(); mo.clear(); for (auto& e : o) mo.emplace(KeyInt(e, range), ValInt(e, range)); }
                  else { x = o; mx.clear(); }
                  break;
              }
              for (auto [k, v] : other) mx.emplace(k, v);
              src.Label("other type");
            }
            break;
          }
          case 17: {
            int k = key(mo), v = fresh();
            if (mo.size() < kM || mo.count(k)) { o.emplace(MkElem(k, v)); Put(mo, k, v); }
            else { o.clear(); mo.clear(); }
            break;
          }
          case 18: {  // range construction
            std::vector<std::pair<int, int>> kv;
            bool rev = kFlip<Cmp> && src.Bool();
            Model t(MCmp{kGreater || rev});
            for (size_t i = 0, n = src.Draw(kN + 2); i < n; ++i) {
              int k = fresh(), v = fresh();
              if (t.size() >= kN && !t.count(k)) continue;
              kv.push_back({k, v});
              t.emplace(k, v);
            }
            if constexpr (kSorted) {
              std::stable_sort(kv.begin(), kv.end(), [&](auto& p, auto& q) { return MCmp{kGreater || rev}(p.first, q.first); });
              t.clear();
              for (auto [k, v] : kv) t.emplace(k, v);
              if (t.size() < kv.size()) src.Label("sorted input with duplicates");
            }
            std::vector<Elem> e;
            for (auto [k, v] : kv) e.push_back(MkElem(k, v));
            if constexpr (kFlip<Cmp>) l[a] = std::make_unique<L>(e.begin(), e.end(), MakeCmp<Cmp>(rev));
            else if (src.Bool()) l[a] = std::make_unique<L>(e.begin(), e.end());
            else l[a] = std::make_unique<L>(e.data(), e.data() + e.size());
            for (size_t i = 0; i < e.size(); ++i) PBT_CHECK(ElemIs(e[i], kv[i]), "construction changed its source range");
            mx = t;
            src.Label("range");
            break;
          }
          case 19: {
            if constexpr (kN >= 3) {
              int k[3] = {fresh(), fresh(), fresh()};
              int v[3] = {fresh(), fresh(), fresh()};
              bool rev = kFlip<Cmp> && src.Bool();
              if (kSorted) { if (kGreater || rev) std::sort(k, k + 3, std::greater<int>()); else std::sort(k, k + 3); }
              using VT = typename L::value_type;
              if constexpr (kFlip<Cmp>) l[a] = std::make_unique<L>(std::initializer_list<VT>{VT(MkElem(k[0], v[0])), VT(MkElem(k[1], v[1])), VT(MkElem(k[2], v[2]))}, MakeCmp<Cmp>(rev));
              else l[a] = std::make_unique<L>(std::initializer_list<VT>{VT(MkElem(k[0], v[0])), VT(MkElem(k[1], v[1])), VT(MkElem(k[2], v[2]))});
              mx = Model(MCmp{kGreater || rev});
              for (int i = 0; i < 3; ++i) mx.emplace(k[i], v[i]);
            }
            break;
          }
          default:
            if constexpr (kMap) MapOp(src, x, mx, key(mx), fresh(), check);
            break;
        }
        if (src.Chance(1, 8)) PBT_NOTE("step ", step, " container ", a, ": ", Show(m[a]));
        size_t total = mo.size() * (Alive(Model{{1, 1}}));
        for (int i = 0; i < kS; ++i) { Contents(*l[i], m[i], "contents"); total += Alive(m[i]); }
        Contents(std::as_const(*l[a]), m[a], "const contents");
        Harness<OtherL>::Contents(o, mo, "other");
        if constexpr (IsTrackedT<Key>::value || (kMap && IsTrackedT<Mapped>::value)) PBT_EQ(TrackedStats::Count(), total, "living elements after step ", step);
        for (int i = 0; i < 3; ++i) {
          int k = fresh();
          Lookups(*l[a], m[a], k);
          Lookups(std::as_const(*l[a]), m[a], k);
        }
        if (!m[a].empty()) { int k = std::next(m[a].begin(), src.Draw(m[a].size() - 1))->first; Lookups(*l[a], m[a], k); Lookups(std::as_const(*l[a]), m[a], k); }
        ContainsMany(src, *l[a], m[a], range);
        Compare(*l[0], *l[1], m[0], m[1]);
        Compare(*l[a], o, m[a], mo);
        int p = fresh(), q = fresh();
        const Key kp = Mk<Key>(p), kq = Mk<Key>(q);
        PBT_EQ(l[a]->key_comp()(kp, kq), m[a].key_comp()(p, q), "key_comp");
        if constexpr (kMap) {
          const typename L::value_type ep(kp, Mk<Mapped>(0)), eq(kq, Mk<Mapped>(0));
          PBT_EQ(l[a]->value_comp()(ep, eq), m[a].key_comp()(p, q), "value_comp");
        } else {
          PBT_EQ(l[a]->value_comp()(kp, kq), m[a].key_comp()(p, q), "value_comp");
        }
      }
      if (steps >= 5 && hits > 1 && misses > 2) src.NonTrivial();
    }
    PBT_EQ(TrackedStats::Count(), size_t(0), "elements never destroyed");
  }

  // The ints an element stands for (only used after a move, whose source may hold anything that is valid).
  static int KeyInt(const auto& e, int range) { for (int i = 0; i <= range; ++i) if (Is(K(e), i)) return i; return -1; }
  static int ValInt(const auto& e, int range) {
    if constexpr (kMap) { for (int i = 0; i <= range * 2; ++i) if (Is(e.second, i)) return i; return -1; }
    else return KeyInt(e, range);
  }

  template<typename Check> static void MapOp(pbt::Src& src, L& x, Model& mx, int k, int v, Check& check) {
    bool had = mx.count(k) != 0;
    if (!had && mx.size() >= kN) return;
    int op = int(src.Draw(8));
    // Sometimes the value is one that the container holds itself.
    const bool own = !mx.empty() && src.Chance(1, 4);
    size_t oi = own ? src.Draw(mx.size() - 1) : 0;
    if (own) v = std::next(mx.begin(), oi)->second;
    const Mapped val = Mk<Mapped>(v);
    const Mapped& ref = own ? std::as_const(x).at_index(oi).second : val;
    const Key key = Mk<Key>(k);
    switch (op) {
      case 0: mx.emplace(k, v); check(x.try_emplace(key, ref), k, !had, "try_emplace(const&)"); PBT_CHECK(Is(key, k), "try_emplace changed its key"); break;
      case 1: mx.emplace(k, v); check(x.try_emplace(Mk<Key>(k), ref), k, !had, "try_emplace(&&)"); break;
      case 2: mx.insert_or_assign(k, v); check(x.insert_or_assign(key, ref), k, !had, "insert_or_assign(const&)"); break;
      case 3: mx.insert_or_assign(k, v); check(x.insert_or_assign(Mk<Key>(k), ref), k, !had, "insert_or_assign(&&)"); break;
      case 4: mx.insert_or_assign(k, v); check(x.insert_or_assign(key, Mk<Mapped>(v)), k, !had, "insert_or_assign(move)"); break;
      case 5: mx[k] = v; x[key] = val; PBT_CHECK(Is(key, k), "operator[] changed its key"); break;
      case 6: mx[k] = v; x[Mk<Key>(k)] = val; break;
      case 7: {  // read through operator[]
        Mapped& r = src.Bool() ? x[key] : x[Mk<Key>(k)];
        if (had) PBT_CHECK(Is(r, mx[k]), "operator[] on an existing key changed the value");
        else {
          if constexpr (std::is_same_v<Mapped, std::string>) PBT_CHECK(r.empty(), "operator[] on a new key"); else PBT_CHECK(Is(r, 0), "operator[] on a new key");
          r = Mk<Mapped>(0);
          mx[k] = 0;
        }
        break;
      }
      case 8:
        if (had) {
          mx[k] = v;
          if (src.Bool()) x.at(key) = val;
          else x.find(key)->second = val;
        }
        break;
    }
    if (had) src.Label("map op on an existing key");
    if (own && !had) src.Label("map op with an own value");
  }
};
#endif
