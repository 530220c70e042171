// C01: LimitedVector against std::vector, with lifetime-audited elements.
#include <cmath>
#include <compare>
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "mbo/container/limited_vector.h"
#include "tracked.h"
namespace mc = mbo::container;

namespace {
template<typename T> constexpr bool kTracked = std::is_same_v<std::remove_const_t<T>, Tracked>;
template<typename T> T Mk(int v) {
  if constexpr (std::is_same_v<std::remove_const_t<T>, std::string>) return std::string(size_t(v % 50), 'x') + std::to_string(v);
  else return T(v);
}
template<typename T> bool Is(const T& t, int v) { return t == Mk<std::remove_const_t<T>>(v); }

template<typename V> void Same(const V& v, const std::vector<int>& m, const char* what) {
  using T = std::remove_const_t<typename V::value_type>;
  PBT_EQ(v.size(), m.size(), what);
  PBT_EQ(v.empty(), m.empty(), what);
  for (size_t i = 0; i < m.size(); ++i) {
    PBT_CHECK(Is(v[i], m[i]), what, ": [", i, "] is not ", m[i], " of ", pbt::Show(m));
    PBT_CHECK(&v[i] == &v.at(i) && &v[i] == v.data() + i && &v[i] == &*(v.begin() + i), what, ": access paths differ at ", i);
  }
  PBT_EQ(size_t(v.end() - v.begin()), m.size(), what);
  PBT_EQ(size_t(v.cend() - v.cbegin()), m.size(), what);
  size_t i = 0;
  for (const T& t : v) { PBT_CHECK(i < m.size() && &t == &v[i], what, " iteration"); ++i; }
  PBT_EQ(i, m.size(), what);
  for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; PBT_CHECK(&*it == &v[i], what, " reverse iteration"); }
  for (auto it = v.crbegin(); it != v.crend(); ++it) { PBT_CHECK(&*it == &v[m.size() - 1 - i], what, " const reverse iteration"); ++i; }
  PBT_EQ(i, m.size(), what);
  if (!m.empty()) {
    PBT_CHECK(&v.front() == &v[0], what, " front");
    PBT_CHECK(&v.back() == &v[m.size() - 1], what, " back");
  }
}
template<typename V> void SameMutable(V& v, const std::vector<int>& m, const char* what) {
  Same(v, m, what);
  size_t i = 0;
  for (auto& t : v) { PBT_CHECK(&t == &v.at(i) && &t == &v[i], what, " mutable iteration"); ++i; }
  PBT_EQ(i, m.size(), what);
  for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; PBT_CHECK(&*it == &v[i], what, " mutable reverse iteration"); }
  if (!m.empty()) PBT_CHECK(&v.front() == &v[0] && &v.back() == &v[m.size() - 1], what, " mutable front/back");
}

int Sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename A, typename B> void Compare(const A& a, const B& b, const std::vector<int>& ma, const std::vector<int>& mb) {
  int want = Sgn(ma <=> mb);
  using NT = std::remove_const_t<typename A::value_type>;
  if constexpr (std::is_same_v<NT, std::string>) {
    std::vector<NT> sa, sb;
    for (int i : ma) sa.push_back(Mk<NT>(i));
    for (int i : mb) sb.push_back(Mk<NT>(i));
    want = Sgn(sa <=> sb);
  }
  PBT_EQ(Sgn(a <=> b), want, "three-way");
  PBT_EQ(a == b, want == 0, "==");
  PBT_EQ(a != b, want != 0, "!=");
  PBT_EQ(a < b, want < 0, "<");
  PBT_EQ(a > b, want > 0, ">");
  PBT_EQ(a <= b, want <= 0, "<=");
  PBT_EQ(a >= b, want >= 0, ">=");
}

// kCap: capacity (or options) of the vectors under test; kOther <= capacity.
template<typename T, auto kCap, auto kOther>
void Ops(pbt::Src& src) {
  using V = mc::LimitedVector<T, kCap>;
  using W = mc::LimitedVector<std::remove_const_t<T>, kOther>;
  using NT = std::remove_const_t<T>;
  constexpr size_t kN = mc::MakeLimitedOptions<kCap>().kCapacity;
  constexpr size_t kM = mc::MakeLimitedOptions<kOther>().kCapacity;
  static_assert(kM <= kN);
  constexpr int kS = 3;
  TrackedStats::Clear();
  {
    std::unique_ptr<V> v[kS];
    std::vector<int> m[kS];
    for (auto& p : v) { p = std::make_unique<V>(); PBT_EQ(p->capacity(), kN); PBT_EQ(p->max_size(), kN); }
    W w;
    std::vector<int> mw;
    int steps = int(src.Size(0, 40));
    int next = 1;
    size_t shifted = 0;
    auto fresh = [&] { return src.Chance(1, 4) ? int(src.Draw(5)) : next++; };
    for (int step = 0; step < steps; ++step) {
      int a = int(src.Draw(kS - 1)), b = int(src.Draw(kS - 1));
      V& x = *v[a];
      std::vector<int>& mx = m[a];
      size_t room = kN - mx.size();
      size_t pos = src.Draw(mx.size());
      if (pos < mx.size()) ++shifted;
      auto ret = [&](auto it, size_t want, const char* what) {
        static_assert(std::is_same_v<decltype(it), typename V::iterator>);
        PBT_EQ(size_t(it - x.begin()), want, what);
      };
      switch (src.Draw(27)) {
        case 0: {
          if (room == 0) break;
          int n = fresh();
          const NT val = Mk<NT>(n);
          auto& r = x.push_back(val);
          mx.push_back(n);
          PBT_CHECK(&r == &x[mx.size() - 1], "push_back reference");
          PBT_CHECK(Is(val, n), "push_back changed its argument");
          break;
        }
        case 1: {
          if (room == 0) break;
          int n = fresh();
          auto& r = x.push_back(Mk<NT>(n));
          mx.push_back(n);
          PBT_CHECK(&r == &x[mx.size() - 1], "push_back reference");
          break;
        }
        case 2: {
          if (room == 0) break;
          if constexpr (kTracked<T>) {
            int p = int(src.Draw(9)), q = int(src.Draw(9));
            auto& r = x.emplace_back(p, q);
            mx.push_back(p * 100 + q);
            PBT_CHECK(&r == &x[mx.size() - 1], "emplace_back reference");
          } else {
            int n = fresh();
            x.emplace_back(Mk<NT>(n));
            mx.push_back(n);
          }
          break;
        }
        case 3: {  // an own element again
          if (room == 0 || mx.empty()) break;
          size_t i = src.Draw(mx.size() - 1);
          int n = mx[i];
          if (src.Bool()) x.push_back(std::as_const(x)[i]);
          else x.emplace_back(x[i]);
          mx.push_back(n);
          break;
        }
        case 4:
          if (mx.empty()) break;
          x.pop_back();
          mx.pop_back();
          break;
        case 5: {
          if (room == 0) break;
          int n = fresh();
          switch (src.Draw(3)) {
            case 0: ret(x.emplace(x.begin() + pos, Mk<NT>(n)), pos, "emplace"); break;
            case 1: ret(x.insert(x.cbegin() + pos, Mk<NT>(n)), pos, "insert(T&&)"); break;
            case 2: { const NT val = Mk<NT>(n); ret(x.insert(x.begin() + pos, val), pos, "insert(const T&)"); PBT_CHECK(Is(val, n), "insert changed its argument"); break; }
            case 3: { NT val = Mk<NT>(n); ret(x.insert(x.begin() + pos, val), pos, "insert(T&)"); PBT_CHECK(Is(val, n), "insert moved from an lvalue"); break; }
          }
          mx.insert(mx.begin() + pos, n);
          src.Label("insert");
          break;
        }
        case 6: {  // insert an element of the vector itself
          if (room == 0 || mx.empty()) break;
          size_t i = src.Draw(mx.size() - 1);
          int n = mx[i];
          switch (src.Draw(2)) {
            case 0: ret(x.emplace(x.begin() + pos, std::as_const(x)[i]), pos, "emplace own"); break;
            case 1: ret(x.insert(x.begin() + pos, std::as_const(x)[i]), pos, "insert own"); break;
            case 2: ret(x.insert(x.begin() + pos, x[i]), pos, "insert own lvalue"); break;
          }
          mx.insert(mx.begin() + pos, n);
          src.Label("insert own");
          break;
        }
        case 7: {
          size_t cnt = src.Draw(room);
          int n = fresh();
          if (!mx.empty() && src.Bool()) {
            size_t i = src.Draw(mx.size() - 1);
            n = mx[i];
            ret(x.insert(x.begin() + pos, cnt, std::as_const(x)[i]), pos, "insert own n");
          } else {
            const NT val = Mk<NT>(n);
            ret(x.insert(x.begin() + pos, cnt, val), pos, "insert n");
          }
          mx.insert(mx.begin() + pos, cnt, n);
          break;
        }
        case 8: {  // ranges
          size_t cnt = src.Draw(room);
          std::vector<int> n;
          for (size_t i = 0; i < cnt; ++i) n.push_back(fresh());
          std::vector<NT> vals;
          for (int i : n) vals.push_back(Mk<NT>(i));
          switch (src.Draw(3)) {
            case 0: ret(x.insert(x.begin() + pos, vals.begin(), vals.end()), pos, "insert range"); break;
            case 1: ret(x.insert(x.begin() + pos, vals.data(), vals.data() + cnt), pos, "insert pointer range"); break;
            case 2: { std::deque<NT> d(vals.begin(), vals.end()); ret(x.insert(x.begin() + pos, d.cbegin(), d.cend()), pos, "insert deque range"); break; }
            case 3:
              if (cnt == 2) ret(x.insert(x.begin() + pos, {vals[0], vals[1]}), pos, "insert list");
              else if (cnt == 3) ret(x.insert(x.begin() + pos, {vals[0], vals[1], vals[2]}), pos, "insert list");
              else ret(x.insert(x.begin() + pos, vals.crbegin(), vals.crend()), pos, "insert reverse range"), std::reverse(n.begin(), n.end());
              break;
          }
          for (size_t i = 0; i < cnt; ++i) PBT_CHECK(Is(vals[i], Mk<NT>(0) == vals[i] ? 0 : vals[i] == Mk<NT>(n[i]) ? n[i] : n[cnt - 1 - i]), "insert changed its source range");
          mx.insert(mx.begin() + pos, n.begin(), n.end());
          if (cnt > 1 && pos < mx.size() - cnt) src.Label("insert range inside");
          break;
        }
        case 9:
        case 10: {
          if (mx.empty()) break;
          size_t i = src.Draw(mx.size() - 1);
          ret(src.Bool() ? x.erase(x.begin() + i) : x.erase(x.cbegin() + i), i, "erase");
          mx.erase(mx.begin() + i);
          src.Label("erase");
          break;
        }
        case 11: {
          size_t i = src.Draw(mx.size()), j = i + src.Draw(mx.size() - i);
          ret(x.erase(x.begin() + i, x.begin() + j), i, "erase range");
          if (i < j && j < mx.size()) src.Label("erase range inside");
          mx.erase(mx.begin() + i, mx.begin() + j);
          break;
        }
        case 12: x.clear(); mx.clear(); break;
        case 13: {
          size_t n = src.Draw(kN);
          if constexpr (std::is_default_constructible_v<NT>) {
            x.resize(n);
            // A value-initialised T: 0 or "".
            size_t old = mx.size();
            mx.resize(n);
            if constexpr (std::is_same_v<NT, std::string>) {
              for (size_t i = old; i < n; ++i) { PBT_CHECK(x[i].empty(), "resize adds empty strings"); const_cast<NT&>(x[i]) = Mk<NT>(0); }
            }
          }
          break;
        }
        case 14: {
          size_t n = src.Draw(kN);
          int val = fresh();
          const NT t = Mk<NT>(val);
          x.assign(n, t);
          mx.assign(n, val);
          break;
        }
        case 15: {
          std::vector<int> n;
          for (size_t i = 0, c = src.Draw(kN); i < c; ++i) n.push_back(fresh());
          std::vector<NT> vals;
          for (int i : n) vals.push_back(Mk<NT>(i));
          const std::vector<NT>& cvals = vals;
          if (src.Bool()) x.assign(vals.begin(), vals.end());
          else x.assign(cvals.begin(), cvals.end());
          for (size_t i = 0; i < n.size(); ++i) PBT_CHECK(Is(vals[i], n[i]), "assign changed its source range");
          mx = n;
          src.Label("assign range");
          break;
        }
        case 16: {
          if constexpr (kN >= 2) {
            int p = fresh(), q = fresh();
            if (src.Bool()) x.assign({Mk<NT>(p), Mk<NT>(q)});
            else x = {Mk<NT>(p), Mk<NT>(q)};
            mx = {p, q};
          }
          break;
        }
        case 17:
          x = std::as_const(*v[b]);
          mx = m[b];
          if (a != b) src.Label("copy assign");
          break;
        case 18:
          if (a == b) break;
          x = std::move(*v[b]);
          mx = m[b];
          m[b].clear();
          src.Label("move assign");
          break;
        case 19: {  // rebuild by copy or move construction
          if (a == b) break;
          if (src.Bool()) { v[a] = std::make_unique<V>(std::as_const(*v[b])); mx = m[b]; }
          else { v[a] = std::make_unique<V>(std::move(*v[b])); mx = m[b]; m[b].clear(); }
          src.Label("construct");
          break;
        }
        case 20:
          if constexpr (!std::is_const_v<T>) {
            if (mx.size() > kM) break;
            x.swap(w);
            mx.swap(mw);
            src.Label("swap other capacity");
          }
          break;
        case 21:
          if constexpr (!std::is_const_v<T>) {
            x.swap(*v[b]);
            mx.swap(m[b]);
            if (a != b && mx.size() != m[b].size()) src.Label("swap");
          }
          break;
        case 22:  // from another capacity
          if constexpr (!std::is_same_v<V, W>) {
            switch (src.Draw(3)) {
              case 0: x = std::as_const(w); mx = mw; break;
              case 1: v[a] = std::make_unique<V>(std::as_const(w)); mx = mw; break;
              case 2: x = std::move(w); mx = mw; mw.clear(); break;
              case 3: v[a] = std::make_unique<V>(std::move(w)); mx = mw; mw.clear(); break;
            }
            src.Label("other capacity");
          }
          break;
        case 23:  // fill the other one
          if (mw.size() < kM) { int n = fresh(); w.push_back(Mk<NT>(n)); mw.push_back(n); }
          else { w.erase(w.begin()); mw.erase(mw.begin()); }
          break;
        case 24: {  // from another element type
          std::vector<int> n;
          for (size_t i = 0, c = src.Draw(kM); i < c; ++i) n.push_back(fresh());
          if constexpr (std::is_same_v<NT, std::string>) {
            std::vector<std::string> keep;
            for (int i : n) keep.push_back(Mk<NT>(i));
            mc::LimitedVector<std::string_view, kOther> o;
            for (auto& s : keep) o.push_back(s);
            v[a] = std::make_unique<V>(o);
          } else {
            mc::LimitedVector<int, kOther> o;
            for (int i : n) o.push_back(i);
            if constexpr (!std::is_same_v<V, decltype(o)>) {
              if (src.Bool()) v[a] = std::make_unique<V>(o);
              else x = o;
              PBT_EQ(o.size(), n.size(), "copying from another type changed it");
            } else x = o;
          }
          mx = n;
          break;
        }
        case 25: {
          std::vector<int> n;
          for (size_t i = 0, c = src.Draw(kN); i < c; ++i) n.push_back(fresh());
          std::vector<NT> vals;
          for (int i : n) vals.push_back(Mk<NT>(i));
          if (src.Bool()) v[a] = std::make_unique<V>(vals.begin(), vals.end());
          else v[a] = std::make_unique<V>(vals.data(), vals.data() + vals.size());
          for (size_t i = 0; i < n.size(); ++i) PBT_CHECK(Is(vals[i], n[i]), "range construction changed its source");
          mx = n;
          break;
        }
        case 26:
          if constexpr (!std::is_const_v<T>) {  // write through
            if (mx.empty()) break;
            size_t i = src.Draw(mx.size() - 1);
            int n = fresh();
            switch (src.Draw(4)) {
              case 0: x[i] = Mk<NT>(n); break;
              case 1: x.at(i) = Mk<NT>(n); break;
              case 2: *(x.begin() + i) = Mk<NT>(n); break;
              case 3: i = 0; x.front() = Mk<NT>(n); break;
              case 4: i = mx.size() - 1; x.back() = Mk<NT>(n); break;
            }
            mx[i] = n;
          }
          break;
        case 27: x.reserve(src.Draw(kN)); x.shrink_to_fit(); break;
      }
      if (src.Chance(1, 8)) { PBT_NOTE("step ", step, " vector ", a, ": ", pbt::Show(m[a])); }
      size_t total = mw.size();
      for (int i = 0; i < kS; ++i) { SameMutable(*v[i], m[i], "vector"); total += m[i].size(); }
      SameMutable(w, mw, "other vector");
      if constexpr (kTracked<T>) PBT_EQ(TrackedStats::Count(), total, "living elements after step ", step);
      if constexpr (!std::is_const_v<T>) {
        Compare(*v[0], *v[1], m[0], m[1]);
        if constexpr (!std::is_same_v<V, W>) Compare(*v[a], w, m[a], mw);
      }
    }
    if (steps >= 5 && shifted > 2) src.NonTrivial();
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "elements never destroyed");
}
constexpr auto kOpt8 = mc::LimitedOptions<8, mc::LimitedOptionsFlag::kDefault>{};
}  // namespace

#define RULE "at least five steps, with insertions or removals before the end"
#if C01_PART == 0
PBT_PROP(tracked, 12000, 200000, RULE) {
  switch (src.Draw(3)) {
    case 0: Ops<Tracked, 5, 3>(src); break;
    case 1: Ops<Tracked, kOpt8, 8>(src); break;
    case 2: Ops<Tracked, 2, 2>(src); break;
    case 3: Ops<Tracked, 16, 7>(src); break;
  }
}
#elif C01_PART == 1
PBT_PROP(strings, 5000, 80000, RULE) {
  switch (src.Draw(1)) {
    case 0: Ops<std::string, 6, 4>(src); break;
    case 1: Ops<std::string, 12, 12>(src); break;
  }
}
PBT_PROP(const_elements, 3000, 40000, RULE) { Ops<const Tracked, 6, 4>(src); }
#elif C01_PART == 2
PBT_PROP(ints, 6000, 80000, RULE) {
  switch (src.Draw(2)) {
    case 0: Ops<int, 7, 5>(src); break;
    case 1: Ops<int, 1, 1>(src); break;
    case 2: Ops<long, (mc::LimitedOptions<9, mc::LimitedOptionsFlag::kEmptyDestructor>{}), 9>(src); break;
  }
}

// Comparisons of different element types and capacities, and of partially ordered elements.
PBT_PROP(comparisons, 8000, 100000, "both vectors have at least two elements and share the first one") {
  auto gen = [&](size_t cap) { std::vector<int> r; for (size_t i = 0, n = src.Draw(cap); i < n; ++i) r.push_back(int(src.Draw(3)) - 1); return r; };
  auto ma = gen(4), mb = gen(6);
  mc::LimitedVector<int, 4> a(ma.begin(), ma.end());
  mc::LimitedVector<int, 6> b(mb.begin(), mb.end());
  mc::LimitedVector<long, 7> l(mb.begin(), mb.end());
  Compare(a, b, ma, mb);
  Compare(a, l, ma, mb);
  Compare(l, a, mb, ma);
  if (ma.size() > 1 && mb.size() > 1 && ma[0] == mb[0]) src.NonTrivial();
  auto d = [](int v) { return v < 0 ? std::nan("") : double(v); };
  std::vector<double> da, db;
  for (int v : ma) da.push_back(d(v));
  for (int v : mb) db.push_back(d(v));
  mc::LimitedVector<double, 4> xa(da.begin(), da.end());
  mc::LimitedVector<double, 6> xb(db.begin(), db.end());
  PBT_EQ(xa == xb, da == db, "double ==");
  PBT_EQ(xa != xb, da != db, "double !=");
  PBT_EQ(xa < xb, da < db, "double <");
  PBT_EQ(xa > xb, da > db, "double >");
  PBT_EQ(xa <= xb, da <= db, "double <=");
  PBT_EQ(xa >= xb, da >= db, "double >=");
  PBT_CHECK((xa <=> xb) == (da <=> db), "double <=>");
  std::vector<std::string> sa, sb;
  for (int v : ma) sa.push_back(std::string(size_t(v + 1), 'a'));
  for (int v : mb) sb.push_back(std::string(size_t(v + 1), 'a'));
  mc::LimitedVector<std::string, 4> ya(sa.begin(), sa.end());
  mc::LimitedVector<std::string_view, 6> yb(sb.begin(), sb.end());
  PBT_EQ(ya == yb, sa == sb, "string ==");
  PBT_EQ(ya < yb, sa < sb, "string <");
  PBT_EQ(ya >= yb, sa >= sb, "string >=");
}

// The construction helpers build what they are given and leave lvalue sources alone.
PBT_PROP(makers, 6000, 60000, "every case") {
  src.NonTrivial();
  TrackedStats::Clear();
  {
    int p = int(src.Draw(99)), q = int(src.Draw(99)), r = int(src.Draw(99));
    std::string a = Mk<std::string>(p), b = Mk<std::string>(q);
    const std::string c = Mk<std::string>(r);
    {
      auto v = mc::MakeLimitedVector(a, b, c, Mk<std::string>(p));
      static_assert(std::is_same_v<decltype(v)::value_type, std::string>);
      PBT_EQ(v.capacity(), size_t(4));
      Same(v, {p, q, r, p}, "MakeLimitedVector(args)");
      PBT_CHECK(Is(a, p) && Is(b, q) && Is(c, r), "MakeLimitedVector moved from an lvalue");
      auto e = mc::MakeLimitedVector(std::move(a), b);
      Same(e, {p, q}, "MakeLimitedVector(move)");
      a = Mk<std::string>(p);
    }
    {
      Tracked x(p), y(q);
      auto v = mc::MakeLimitedVector(x, y, Tracked(r));
      Same(v, {p, q, r}, "MakeLimitedVector(Tracked)");
      PBT_CHECK(Is(x, p) && Is(y, q), "MakeLimitedVector moved from an lvalue");
      Tracked arr[3] = {Tracked(p), Tracked(q), Tracked(r)};
      auto t = mc::ToLimitedVector(arr);
      Same(t, {p, q, r}, "ToLimitedVector");
      PBT_CHECK(Is(arr[0], p) && Is(arr[1], q) && Is(arr[2], r), "ToLimitedVector moved from an lvalue");
      const auto& carr = arr;
      auto tc = mc::ToLimitedVector(carr);
      static_assert(std::is_same_v<decltype(tc)::value_type, Tracked>);
      Same(tc, {p, q, r}, "ToLimitedVector(const)");
      auto u = mc::ToLimitedVector(std::move(arr));
      Same(u, {p, q, r}, "ToLimitedVector(move)");
      auto f = mc::MakeLimitedVector<4>(x);
      Same(f, {p, p, p, p}, "MakeLimitedVector<4>(value)");
      auto l = mc::MakeLimitedVector<5>({Tracked(p), Tracked(q)});
      PBT_EQ(l.capacity(), size_t(5));
      Same(l, {p, q}, "MakeLimitedVector<5>(list)");
    }
    {
      std::vector<int> n;
      for (size_t i = 0, k = src.Draw(6); i < k; ++i) n.push_back(int(src.Draw(99)));
      auto v = mc::MakeLimitedVector<6>(n.begin(), n.end());
      PBT_EQ(v.capacity(), size_t(6));
      Same(v, n, "MakeLimitedVector<6>(range)");
      auto e = mc::MakeLimitedVector<int, 3>();
      Same(e, {}, "MakeLimitedVector<int, 3>()");
      auto m = mc::MakeLimitedVector(p, long(q), short(r));
      static_assert(std::is_same_v<decltype(m)::value_type, long>);
      Same(m, {p, q, r}, "MakeLimitedVector(int, long, short)");
      auto d = mc::MakeLimitedVector(p, double(q));
      PBT_CHECK(d[0] == p && d[1] == q && d.size() == 2, "MakeLimitedVector(int, double)");
      auto s = mc::MakeLimitedVector("foo", "ba", "");
      static_assert(std::is_same_v<decltype(s)::value_type, std::string_view>);
      PBT_CHECK(s.size() == 3 && s[0] == "foo" && s[1] == "ba" && s[2].empty(), "MakeLimitedVector(char arrays)");
      auto z = mc::MakeLimitedVector<std::string>("foo", "ba");
      static_assert(std::is_same_v<decltype(z)::value_type, std::string>);
      PBT_CHECK(z.size() == 2 && z[0] == "foo" && z[1] == "ba", "MakeLimitedVector<string>(char arrays)");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "elements never destroyed");
}

// Going beyond the capacity or outside the vector ends the process instead of
// writing out of bounds.
PBT_PROP(preconditions, 12, 100, "every case: the process has to end") {
  src.NonTrivial();
  size_t fill = src.Draw(4), extra = 1 + src.Draw(3);
  const size_t huge = ~size_t{0} - src.Draw(3);
  std::vector<int> big(4 - fill + extra, 7);
  for (int op = 0; op <= 15; ++op) {
  auto result = pbt::RunChild([&] {
    mc::LimitedVector<int, 4> v;
    mc::LimitedVector<int, 4> u({1, 2, 3});
    for (size_t i = 0; i < fill; ++i) v.push_back(int(i));
    switch (op) {
      case 0: for (size_t i = fill; i < 5; ++i) v.push_back(1); break;
      case 1: for (size_t i = fill; i < 5; ++i) v.emplace_back(1); break;
      case 2: { const int one = 1; for (size_t i = fill; i < 5; ++i) v.push_back(one); break; }
      case 3: for (size_t i = fill; i < 5; ++i) v.insert(v.begin(), 1); break;
      case 4: for (size_t i = fill; i < 5; ++i) v.emplace(v.begin(), 1); break;
      case 5: v.insert(v.begin(), 4 - fill + extra, 1); break;
      case 6: v.insert(v.begin(), big.begin(), big.end()); break;
      case 7: v.resize(4 + extra); break;
      case 8: v.assign(4 + extra, 1); break;
      case 9: { std::vector<int> b(4 + extra, 1); v.assign(b.begin(), b.end()); break; }
      case 10: v.reserve(4 + extra); break;
      case 11: for (size_t i = 0; i <= fill; ++i) v.pop_back(); break;
      case 12: (void)v[fill + extra - 1]; break;
      case 13: (void)std::as_const(v).at(fill + extra - 1); break;
      case 14: v.erase(v.begin() + fill); break;
      case 15: v.insert(v.begin(), huge, 1); break;
    }
  });
  bool ended = result.signaled || result.code != 0;
  PBT_CHECK(ended && result.out.find("Sanitizer") == std::string::npos && result.out.find("runtime error") == std::string::npos, "operation ", op, " on a vector of ", fill, " with capacity 4 was not stopped: ", result.out);
  }
}
#endif
