// T04: reference and value holders against a model of what they were last given.
#include <cmath>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <vector>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mbo/types/no_destruct.h"
#include "mbo/types/opaque.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"
#include "tracked.h"
MBO_TYPES_OPAQUE_HOOKS(Tracked)
namespace std {
MBO_TYPES_OPAQUE_HOOKS(std::string)
MBO_TYPES_OPAQUE_HOOKS(std::vector<Tracked>)
MBO_TYPES_OPAQUE_HOOKS(std::deque<Tracked>)
MBO_TYPES_OPAQUE_HOOKS(std::list<Tracked>)
}  // namespace std
namespace mt = mbo::types;

namespace {
int Sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename T> T Mk(int v) { if constexpr (std::is_same_v<T, std::string>) return std::string(size_t(v % 40), 'x') + std::to_string(v); else return T(v); }
template<typename T> bool Is(const T& t, int v) { return t == Mk<T>(v); }
template<typename T> constexpr bool kTracked = std::is_same_v<T, Tracked>;

// What a holder should contain: nothing, target number `ref`, or its own value.
struct Model {
  enum Kind { kNone, kRef, kData } kind = kNone;
  int ref = -1;
  int val = 0;
};
int ModelValue(const Model& m, const std::vector<int>& targets) { return m.kind == Model::kRef ? targets[m.ref] : m.val; }
int ModelCmp(const Model& a, const Model& b, const std::vector<int>& t) {
  bool ha = a.kind != Model::kNone, hb = b.kind != Model::kNone;
  if (!ha || !hb) return int(ha) - int(hb);
  int x = ModelValue(a, t), y = ModelValue(b, t);
  return (x > y) - (x < y);
}

// T of the value, RefT of the reference: OptionalDataOrRef<T> or ...<T, const T>.
template<typename T, typename RefT>
void DataOrRef(pbt::Src& src) {
  using O = mt::OptionalDataOrRef<T, RefT>;
  constexpr bool kMut = !std::is_const_v<RefT>;
  constexpr int kT = 3, kS = 3;
  TrackedStats::Clear();
  {
    std::vector<int> tv;
    std::vector<std::unique_ptr<T>> targets;
    for (int i = 0; i < kT; ++i) { tv.push_back(int(src.Draw(9))); targets.push_back(std::make_unique<T>(Mk<T>(tv[i]))); }
    std::optional<O> slot[kS];
    Model m[kS];
    bool moved[kS] = {};
    for (auto& s : slot) s.emplace();
    size_t kinds = 0;
    const size_t steps = src.Size(1, 14);
    for (size_t step = 0; step < steps; ++step) {
      const size_t i = src.Draw(kS - 1), j = src.Draw(kS - 1);
      const int t = int(src.Draw(kT - 1)), v = int(src.Draw(9));
      size_t op = src.Draw(19);
      // A moved-from holder is only assigned, reset or re-created.
      if (moved[i]) { PBT_NOTE("reset moved-from " << i); slot[i]->reset(); m[i] = {}; moved[i] = false; }
      if (moved[j]) { slot[j]->reset(); m[j] = {}; moved[j] = false; }
      PBT_NOTE("op " << op << " slot " << i << " other " << j << " target " << t << " value " << v);
      O& o = *slot[i];
      switch (op) {
        case 0: o.reset(); m[i] = {}; break;
        case 1: PBT_CHECK(&(o = std::nullopt) == &o, "assignment of nullopt returns the object"); m[i] = {}; break;
        case 2: PBT_CHECK(&o.set_ref(*targets[t]) == &o, "set_ref returns the object"); m[i] = {Model::kRef, t, 0}; break;
        case 3: slot[i].reset(); slot[i].emplace(*targets[t]); m[i] = {Model::kRef, t, 0}; break;
        case 4: slot[i].reset(); slot[i].emplace(Mk<T>(v)); m[i] = {Model::kData, -1, v}; break;
        case 5: o = Mk<T>(v); m[i] = {Model::kData, -1, v}; break;
        case 6: o.emplace(Mk<T>(v)); m[i] = {Model::kData, -1, v}; break;
        case 7:
          if constexpr (kTracked<T>) { o.emplace(3, v); m[i] = {Model::kData, -1, 300 + v}; }
          else { o.emplace(size_t(v), 'q'); m[i] = {Model::kData, -1, -1}; PBT_EQ(*o, std::string(size_t(v), 'q')); o.emplace(Mk<T>(v)); m[i].val = v; }
          break;
        case 8: case 9:  // assign an lvalue: through the reference, to the value, or a new value
          if constexpr (kMut) {
            T x = Mk<T>(v);
            if (op == 8) o = static_cast<const T&>(x); else o = x;
            PBT_CHECK(Is(x, v), "assignment from an lvalue left it changed");
            if (m[i].kind == Model::kRef) tv[m[i].ref] = v; else m[i] = {Model::kData, -1, v};
          }
          break;
        case 10: {
          T& d = o.as_data(Mk<T>(v));
          if (m[i].kind == Model::kNone) m[i] = {Model::kData, -1, v};
          if (m[i].kind == Model::kRef) m[i] = {Model::kData, -1, tv[m[i].ref]};
          PBT_CHECK(&d == &std::as_const(o).value(), "as_data returns the held value");
          if (src.Bool()) { d = Mk<T>(v + 20); m[i].val = v + 20; }
          break;
        }
        case 11: { O c(static_cast<const O&>(*slot[j])); slot[i].reset(); slot[i].emplace(static_cast<const O&>(c)); m[i] = m[j]; break; }
        case 12: PBT_CHECK(&(o = static_cast<const O&>(*slot[j])) == &o, "copy assignment returns the object"); m[i] = m[j]; break;
        case 13: case 14: {
          if (i == j) { O& self = o; o = std::move(self); break; }  // self-move keeps the value
          Model mj = m[j];
          if (op == 13) o = std::move(*slot[j]); else { slot[i].reset(); slot[i].emplace(std::move(*slot[j])); }
          m[i] = mj;
          moved[j] = true;
          break;
        }
        case 15: *targets[t] = Mk<T>(v); tv[t] = v; break;
        case 16:
          if constexpr (kMut) if (m[i].kind != Model::kNone) { *o = Mk<T>(v); (m[i].kind == Model::kRef ? tv[m[i].ref] : m[i].val) = v; }
          break;
        case 17:
          if constexpr (!kMut) {  // a const lvalue of another type has to become a value
            slot[i].reset();
            if constexpr (kTracked<T>) { const int k = v; slot[i].emplace(k); m[i] = {Model::kData, -1, v}; }
            else { const char lit[] = "xx2"; slot[i].emplace(lit); m[i] = {Model::kData, -1, 2}; }
          } else if constexpr (!kTracked<T>) {
            if (m[i].kind != Model::kRef) { o = "xx2"; m[i] = {Model::kData, -1, 2}; }
          } else {
            o = v;  // an lvalue of a different type
            if (m[i].kind == Model::kRef) tv[m[i].ref] = v; else m[i] = {Model::kData, -1, v};
          }
          break;
        case 18: slot[i].reset(); slot[i].emplace(std::nullopt); m[i] = {}; break;
        default: { T& x = *targets[t]; m[i] = {Model::kRef, t, 0}; slot[i].reset(); slot[i].emplace(static_cast<RefT&>(x)); break; }
      }
      kinds |= 1U << m[i].kind;
      // Compare everything with the model.
      size_t owned = 0;
      bool any_moved = false;
      for (int k = 0; k < kT; ++k) PBT_CHECK(Is(*targets[k], tv[k]), "referenced object " << k << " should hold " << tv[k] << " but holds " << *targets[k]);
      for (size_t a = 0; a < kS; ++a) {
        if (moved[a]) { any_moved = true; continue; }
        O& x = *slot[a];
        const O& c = x;
        PBT_EQ(c.HoldsNullopt(), m[a].kind == Model::kNone, "HoldsNullopt of " << a);
        PBT_EQ(c.HoldsReference(), m[a].kind == Model::kRef, "HoldsReference of " << a);
        PBT_EQ(c.HoldsData(), m[a].kind == Model::kData, "HoldsData of " << a);
        PBT_EQ(c.has_value(), m[a].kind != Model::kNone, "has_value of " << a);
        PBT_EQ(static_cast<bool>(c), m[a].kind != Model::kNone, "operator bool of " << a);
        PBT_EQ(c == std::nullopt, m[a].kind == Model::kNone, "== nullopt");
        PBT_EQ(c > std::nullopt, m[a].kind != Model::kNone, "> nullopt");
        PBT_CHECK(!(c < std::nullopt), "nothing is less than nullopt");
        T other = Mk<T>(int(a) + 3);
        PBT_CHECK(&c.get(other) == (c.has_value() ? &c.value() : &other), "get(default)");
        if (m[a].kind == Model::kNone) {
          PBT_EQ(absl::StrCat(c), "std::nullopt");
          PBT_CHECK(!(c == other) && c < other, "nullopt against a value");
          continue;
        }
        const int want = ModelValue(m[a], tv);
        const T& ref = c.value();
        PBT_CHECK(Is(ref, want), "slot " << a << " should yield " << want << " but yields " << ref);
        PBT_CHECK(&*x == &ref && &*c == &ref && x.operator->() == &ref && c.operator->() == &ref && &x.value() == &ref, "access paths");
        if (m[a].kind == Model::kRef) PBT_CHECK(&ref == targets[m[a].ref].get(), "refers to the given object");
        else { ++owned; for (auto& tg : targets) PBT_CHECK(&ref != tg.get(), "own value is a copy"); }
        PBT_EQ(absl::StrCat(c), absl::StrCat(Mk<T>(want)), "stringified");
        PBT_EQ(absl::HashOf(c), absl::HashOf(O(Mk<T>(want))), "hash depends only on the held value");
        T same = Mk<T>(want);
        PBT_EQ(c == other, want == int(a) + 3, "== value");
        PBT_EQ(c < other, same < other, "< value");
        PBT_EQ(Sgn(c <=> other), Sgn(same <=> other), "<=> value");
      }
      for (size_t a = 0; a < kS; ++a) for (size_t b = 0; b < kS; ++b) {
        if (moved[a] || moved[b]) continue;
        if constexpr (kTracked<T>) {
          int w = ModelCmp(m[a], m[b], tv);
          PBT_EQ(*slot[a] == *slot[b], w == 0, "== of " << a << ", " << b);
          PBT_EQ(*slot[a] < *slot[b], w < 0, "< of " << a << ", " << b);
          PBT_EQ(Sgn(*slot[a] <=> *slot[b]), w, "<=> of " << a << ", " << b);
        }
        if (m[a].kind == Model::kNone && m[b].kind == Model::kNone) PBT_EQ(absl::HashOf(*slot[a]), absl::HashOf(*slot[b]), "hash of nullopt");
      }
      if constexpr (kTracked<T>) if (!any_moved) PBT_EQ(TrackedStats::Count(), size_t(kT) + owned, "objects alive: targets and held values");
    }
    if (kinds == 7) src.NonTrivial();
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every constructed value is destroyed exactly once");
}
}  // namespace

#define HIST "non-trivial: the history passes through empty, reference and owned value"
PBT_PROP(data_or_ref, 60000, 1500000, "histories of up to 14 set_ref/emplace/assign/as_data/reset/copy/move operations on 3 OptionalDataOrRef<Tracked> with 3 referents; " HIST) { DataOrRef<Tracked, Tracked>(src); }
PBT_PROP(data_or_const_ref, 40000, 800000, "the same histories on OptionalDataOrConstRef<Tracked>; " HIST) { DataOrRef<Tracked, const Tracked>(src); }
PBT_PROP(data_or_ref_string, 30000, 600000, "the same histories on OptionalDataOrRef<std::string>; " HIST) { DataOrRef<std::string, std::string>(src); }
PBT_PROP(data_or_const_ref_string, 30000, 600000, "the same histories on OptionalDataOrConstRef<std::string> (conversions must become values); " HIST) { DataOrRef<std::string, const std::string>(src); }

namespace {
template<typename T, typename V>
void RefHistory(pbt::Src& src) {
  // V: value type; T: V or const V
  using O = mt::OptionalRef<T>;
  constexpr bool kMut = !std::is_const_v<T>;
  std::vector<V> targets;
  std::vector<int> tv;
  for (int i = 0; i < 3; ++i) { tv.push_back(int(src.Draw(5))); targets.push_back(Mk<V>(tv[i])); }
  std::optional<O> slot[2];
  int ref[2] = {-1, -1};
  for (auto& s : slot) s.emplace();
  bool none = false, set = false;
  for (size_t step = src.Size(1, 10); step > 0; --step) {
    size_t i = src.Draw(1), j = src.Draw(1);
    int t = int(src.Draw(2)), v = int(src.Draw(5));
    size_t op = src.Draw(8);
    PBT_NOTE("op " << op << " slot " << i << " target " << t << " value " << v);
    O& o = *slot[i];
    switch (op) {
      case 0: PBT_CHECK(&o.reset() == &o); ref[i] = -1; break;
      case 1: PBT_CHECK(&o.set_ref(targets[t]) == &o); ref[i] = t; break;
      case 2: slot[i].emplace(targets[t]); ref[i] = t; break;
      case 3: slot[i].emplace(std::nullopt); ref[i] = -1; break;
      case 4: { O c(*slot[j]); int r = ref[j]; slot[i].emplace(c); ref[i] = r; break; }
      case 5: if constexpr (kMut) if (ref[i] >= 0) { V x = Mk<V>(v); o = x; PBT_CHECK(Is(x, v)); tv[ref[i]] = v; } break;
      case 6: if constexpr (kMut) if (ref[i] >= 0) { o = Mk<V>(v); tv[ref[i]] = v; } break;
      case 7: if constexpr (kMut) if (ref[i] >= 0) { *o = Mk<V>(v); tv[ref[i]] = v; } break;
      default: targets[t] = Mk<V>(v); tv[t] = v; break;
    }
    (ref[i] < 0 ? none : set) = true;
    for (int k = 0; k < 3; ++k) PBT_CHECK(Is(targets[k], tv[k]), "referenced object " << k);
    for (size_t a = 0; a < 2; ++a) {
      O& x = *slot[a];
      const O& c = x;
      PBT_EQ(c.has_value(), ref[a] >= 0);
      PBT_EQ(static_cast<bool>(c), ref[a] >= 0);
      PBT_EQ(c == std::nullopt, ref[a] < 0);
      PBT_EQ(c > std::nullopt, ref[a] >= 0);
      PBT_CHECK(!(c < std::nullopt));
      V other = Mk<V>(2);
      if (ref[a] < 0) { PBT_EQ(absl::StrCat(c), "std::nullopt"); PBT_CHECK(!(c == other) && c < other); continue; }
      T* p = &targets[ref[a]];
      PBT_CHECK(&c.value() == p && &x.value() == p && &*c == p && &*x == p && c.operator->() == p && x.operator->() == p, "refers to the object last set");
      PBT_EQ(absl::StrCat(c), absl::StrCat(*p));
      PBT_EQ(c == other, *p == other);
      PBT_EQ(c < other, *p < other);
      PBT_EQ(Sgn(c <=> other), Sgn(*p <=> other));
    }
    int w = (ref[0] >= 0) - (ref[1] >= 0);
    if (ref[0] >= 0 && ref[1] >= 0) w = Sgn(targets[ref[0]] <=> targets[ref[1]]);
    PBT_EQ(*slot[0] == *slot[1], w == 0);
    PBT_EQ(*slot[0] < *slot[1], w < 0);
    PBT_EQ(*slot[1] < *slot[0], w > 0);
    PBT_EQ(Sgn(*slot[0] <=> *slot[1]), w);
    if (w == 0) PBT_EQ(absl::HashOf(*slot[0]), absl::HashOf(*slot[1]), "equal references hash equally");
    else PBT_CHECK(absl::HashOf(*slot[0]) != absl::HashOf(*slot[1]), "different values hash differently");
  }
  if (none && set) src.NonTrivial();
}
}  // namespace
PBT_PROP(optional_ref, 60000, 1200000, "histories of set_ref/reset/assign-through/copy on OptionalRef<T>, T int, string, const int, double, Tracked; non-trivial: passes through empty and set") {
  switch (src.Draw(4)) {
    case 0: RefHistory<int, int>(src); break;
    case 1: RefHistory<std::string, std::string>(src); break;
    case 2: RefHistory<const int, int>(src); break;
    case 3: RefHistory<double, double>(src); break;
    default: TrackedStats::Clear(); RefHistory<const Tracked, Tracked>(src); PBT_EQ(TrackedStats::Count(), size_t(0)); break;
  }
}

namespace {
template<typename T, typename V>
void WrapHistory(pbt::Src& src) {
  using R = mt::RefWrap<T>;
  std::vector<V> targets;
  for (int i = 0; i < 3; ++i) targets.push_back(Mk<V>(int(src.Draw(3))));
  R a(targets[0]), b(targets[1]);
  int ra = 0, rb = 1;
  std::vector<V> shadow = targets;
  for (size_t step = src.Size(1, 8); step > 0; --step) {
    int t = int(src.Draw(2)), v = int(src.Draw(3));
    switch (src.Draw(5)) {
      case 0: a = targets[t]; ra = t; break;  // rebinds
      case 1: b = a; rb = ra; break;
      case 2: { R c(b); a = std::move(c); ra = rb; break; }
      case 3: targets[t] = Mk<V>(v); shadow[t] = targets[t]; break;
      case 4: if constexpr (!std::is_const_v<T>) { *a = Mk<V>(v); shadow[ra] = Mk<V>(v); } break;
      default: if constexpr (!std::is_const_v<T>) { T& x = b; x = Mk<V>(v); shadow[rb] = Mk<V>(v); } break;
    }
    PBT_CHECK(targets == shadow, "only the named target changes");
    const R &ca = a, &cb = b;
    PBT_CHECK(&a.get() == &targets[ra] && &ca.get() == &targets[ra] && &*a == &targets[ra] && &*ca == &targets[ra] && a.operator->() == &targets[ra] && ca.operator->() == &targets[ra] && &static_cast<const T&>(ca) == &targets[ra], "refers to the object last bound");
    PBT_CHECK(&*cb == &targets[rb], "other wrapper refers to its object");
    int w = Sgn(shadow[ra] <=> shadow[rb]);
    PBT_EQ(Sgn(ca <=> cb), w, "<=>");
    PBT_EQ(ca < cb, w < 0); PBT_EQ(ca > cb, w > 0); PBT_EQ(ca <= cb, w <= 0); PBT_EQ(ca >= cb, w >= 0);
    V val = Mk<V>(v);
    w = Sgn(shadow[ra] <=> val);
    PBT_EQ(Sgn(ca <=> val), w, "<=> value"); PBT_EQ(ca < val, w < 0); PBT_EQ(val < ca, w > 0);
    PBT_EQ(absl::HashOf(ca) == absl::HashOf(cb), shadow[ra] == shadow[rb], "hash is that of the value");
    PBT_EQ(absl::StrCat(ca), absl::StrCat(shadow[ra]));
    if (w != 0 && ra != rb) src.NonTrivial();
  }
}
}  // namespace
PBT_PROP(ref_wrap, 50000, 1000000, "histories of rebinding, copying and writing through two RefWrap over 3 targets; non-trivial: different targets and a differing value seen") {
  switch (src.Draw(3)) {
    case 0: WrapHistory<int, int>(src); break;
    case 1: WrapHistory<std::string, std::string>(src); break;
    case 2: WrapHistory<const int, int>(src); break;
    default: WrapHistory<const std::string, std::string>(src); break;
  }
}

namespace {
struct MoveOnly {
  explicit MoveOnly(int v) : t(v) {}
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) = delete;
  const Tracked& value() const { return t; }
  Tracked t;
};
}  // namespace
PBT_PROP(required, 60000, 1200000, "histories of emplace/assign/copy/move on Required<Tracked>, Required<std::string> and a move-construct-only type; non-trivial: at least 3 operations") {
  TrackedStats::Clear();
  {
    mt::Required<Tracked> a(std::in_place, 1), b;
    mt::Required<std::string> s("s"), u(std::string("u"));
    mt::Required<MoveOnly> mo(0);
    int va = 1, vb = 0, vm = 0;
    std::string vs = "s", vu = "u";
    size_t n = src.Size(1, 10);
    if (n >= 3) src.NonTrivial();
    for (; n > 0; --n) {
      int v = int(src.Draw(5));
      size_t op = src.Draw(12);
      PBT_NOTE("op " << op << " value " << v);
      switch (op) {
        case 0: a.emplace(v); va = v; break;
        case 1: a.emplace(2, v); va = 200 + v; break;
        case 2: { Tracked t(v); a.emplace(t); PBT_EQ(t.Get(), v); va = v; break; }
        case 3: a = b; va = vb; break;
        case 4: { mt::Required<Tracked> c(std::as_const(a)); b = std::move(c); vb = va; break; }
        case 5: *a = Tracked(v); va = v; break;
        case 6: b.get().Set(v); vb = v; break;
        case 7: mo.emplace(v); vm = v; break;
        case 8: mo.emplace(MoveOnly(v + 10)); vm = v + 10; break;
        case 9: s.emplace(Mk<std::string>(v)); vs = Mk<std::string>(v); break;
        case 10: s.emplace(size_t(v), 'c'); vs = std::string(size_t(v), 'c'); break;
        case 11: u = s; vu = vs; break;
        default: { mt::Required<std::string> c(s); std::swap(c, u); PBT_CHECK(*c == vu); vu = vs; break; }
      }
      const auto &ca = a, &cb = b;
      PBT_CHECK(ca->Get() == va && (*a).Get() == va && a.get().Get() == va && ca.get().Get() == va && static_cast<const Tracked&>(ca).Get() == va && &*ca == &*a, "a should hold " << va << " but holds " << *ca);
      PBT_CHECK(cb->Get() == vb, "b should hold " << vb << " but holds " << *cb);
      PBT_EQ(mo->value().Get(), vm);
      PBT_CHECK(*s == vs && *u == vu, *s << "/" << vs << " " << *u << "/" << vu);
      mt::Required<int> ia(va), ib(vb);
      PBT_EQ(Sgn(ia <=> ib), Sgn(va <=> vb), "<=>");
      PBT_EQ(ia < ib, va < vb); PBT_EQ(ia >= ib, va >= vb);
      PBT_EQ(Sgn(ia <=> vb), Sgn(va <=> vb), "<=> value"); PBT_EQ(va < ib, va < vb); PBT_EQ(ia == vb, va == vb);
      PBT_EQ(Sgn(s <=> u), Sgn(vs <=> vu), "<=> of strings");
      PBT_EQ(Sgn(s <=> std::string("c")), Sgn(vs <=> std::string("c")), "<=> value");
      PBT_EQ(s < vu, vs < vu);
      PBT_EQ(absl::HashOf(ca) == absl::HashOf(cb), va == vb, "hash is that of the value");
      PBT_EQ(absl::HashOf(s) == absl::HashOf(u), vs == vu, "hash is that of the value");
      PBT_EQ(absl::StrCat(ca), "T" + std::to_string(va));
      PBT_EQ(TrackedStats::Count(), size_t(3), "exactly the held values are alive");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every constructed value is destroyed exactly once");
}

PBT_PROP(opaque_value, 50000, 1000000, "histories of assign/copy/move on OpaqueValue<Tracked> and OpaqueValue<std::string>; non-trivial: at least 3 operations") {
  TrackedStats::Clear();
  {
    using OV = mt::OpaqueValue<Tracked>;
    std::optional<OV> a, b;
    a.emplace(); b.emplace(3, 4);
    int va = 0, vb = 304;
    mt::OpaqueValue<std::string> s("abc"), t(size_t(3), 'z');
    std::string vs = "abc", vt = "zzz";
    size_t n = src.Size(1, 10);
    if (n >= 3) src.NonTrivial();
    for (; n > 0; --n) {
      int v = int(src.Draw(5));
      switch (src.Draw(9)) {
        case 0: a.emplace(v); va = v; break;
        case 1: *a = std::as_const(*b); va = vb; break;
        case 2: { OV c = std::as_const(*a); b.reset(); b.emplace(std::move(c)); vb = va; break; }
        case 3: **a = Tracked(v); va = v; break;
        case 4: (*b)->Set(v); vb = v; break;
        case 5: { OV& self = *a; *a = std::as_const(self); break; }
        case 6: { OV c(v); *b = std::move(c); vb = v; break; }
        case 7: s = std::as_const(t); vs = vt; break;
        case 8: *t = Mk<std::string>(v); vt = *t; break;
        default: std::swap(*a, *b); std::swap(va, vb); break;
      }
      const OV &ca = *a, &cb = *b;
      PBT_CHECK((*ca).Get() == va && ca->Get() == va && &*ca == &**a && ca.operator->() == &*ca, "a should hold " << va << " but holds " << *ca);
      PBT_CHECK(cb->Get() == vb, "b should hold " << vb << " but holds " << *cb);
      PBT_CHECK(&*ca != &*cb, "values are not shared");
      PBT_EQ(Sgn(ca <=> cb), Sgn(va <=> vb)); PBT_EQ(ca < cb, va < vb);
      PBT_EQ(Sgn(ca <=> Tracked(v)), Sgn(va <=> v), "<=> value");
      PBT_EQ(absl::HashOf(ca) == absl::HashOf(cb), va == vb, "hash is that of the value");
      PBT_CHECK(*s == vs && *t == vt, "strings");
      PBT_EQ(Sgn(s <=> t), Sgn(vs <=> vt));
      PBT_EQ(std::hash<mt::OpaqueValue<std::string>>{}(s) == std::hash<mt::OpaqueValue<std::string>>{}(t), vs == vt, "std::hash is that of the value");
      PBT_EQ(TrackedStats::Count(), size_t(2), "exactly the held values are alive");
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every constructed value is destroyed exactly once");
}

namespace {
template<typename C>
void ProxyHistory(pbt::Src& src) {
  using P = mt::OpaqueContainer<C>;
  constexpr bool kFront = requires(C c) { c.push_front(Tracked(1)); };
  constexpr bool kIndex = requires(C c) { c[0]; };
  TrackedStats::Clear();
  {
    P p, q;
    std::vector<int> m, mq;
    size_t n = src.Size(1, 14);
    for (; n > 0; --n) {
      int v = int(src.Draw(9));
      size_t op = src.Draw(15);
      PBT_NOTE("op " << op << " value " << v);
      switch (op) {
        case 0: p.push_back(Tracked(v)); m.push_back(v); break;
        case 1: { const Tracked t(v); p.push_back(t); PBT_EQ(t.Get(), v); m.push_back(v); break; }
        case 2: { auto& r = p.emplace_back(1, v); PBT_EQ(r.Get(), 100 + v); PBT_CHECK(&r == &p.back(), "emplace_back returns the element"); m.push_back(100 + v); break; }
        case 3: if (!m.empty()) { p.pop_back(); m.pop_back(); } break;
        case 4: p.clear(); m.clear(); break;
        case 5: p.resize(size_t(v)); m.resize(size_t(v)); break;
        case 6: if constexpr (kFront) { p.push_front(Tracked(v)); m.insert(m.begin(), v); } break;
        case 7: if constexpr (kFront) { const Tracked t(v); p.push_front(t); PBT_EQ(t.Get(), v); m.insert(m.begin(), v); } break;
        case 8: if constexpr (kFront) { auto& r = p.emplace_front(2, v); PBT_CHECK(&r == &p.front()); m.insert(m.begin(), 200 + v); } break;
        case 9: if constexpr (kFront) if (!m.empty()) { p.pop_front(); m.erase(m.begin()); } break;
        case 10: if (!m.empty()) { p.front() = Tracked(v); m.front() = v; } break;
        case 11: if (!m.empty()) { p.back().Set(v); m.back() = v; } break;
        case 12: if constexpr (kIndex) if (!m.empty()) { size_t i = size_t(v) % m.size(); (v & 1 ? p[i] : p.at(i)) = Tracked(v); m[i] = v; } break;
        case 13: q = std::as_const(p); mq = m; break;
        case 14: std::swap(p, q); std::swap(m, mq); break;
        default: { P c = p; c.push_back(Tracked(v)); q = std::move(c); mq = m; mq.push_back(v); break; }
      }
      const P& c = p;
      PBT_EQ(c.size(), m.size()); PBT_EQ(c.empty(), m.empty());
      std::vector<int> got, rgot, mrgot;
      for (auto it = c.begin(); it != c.end(); ++it) got.push_back(it->Get());
      PBT_EQ(got, m, "forward");
      for (auto& e : p) rgot.push_back(e.Get());
      PBT_EQ(rgot, m, "mutable forward");
      rgot.clear();
      for (auto it = c.rbegin(); it != c.rend(); ++it) rgot.push_back(it->Get());
      for (auto it = p.rbegin(); it != p.rend(); ++it) mrgot.push_back(it->Get());
      PBT_EQ(rgot, std::vector<int>(m.rbegin(), m.rend()), "backward"); PBT_EQ(mrgot, rgot, "mutable backward");
      got.clear();
      for (auto it = p.cbegin(); it != p.cend(); ++it) got.push_back(it->Get());
      PBT_EQ(got, m, "const forward");
      got.clear();
      for (auto it = p.crbegin(); it != p.crend(); ++it) got.push_back(it->Get());
      PBT_EQ(got, rgot, "const backward");
      if (!m.empty()) {
        PBT_CHECK(c.front().Get() == m.front() && c.back().Get() == m.back(), "front/back");
        if constexpr (kIndex) for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c[i].Get() == m[i] && c.at(i).Get() == m[i] && &p[i] == &c.at(i) && &p.at(i) == &c[i], "index " << i);
      }
      if constexpr (requires { p.capacity(); }) { size_t want = m.size() + size_t(v); p.reserve(want); PBT_CHECK(c.capacity() >= want, "reserve"); }
      PBT_EQ(q.size(), mq.size(), "the other container");
      size_t i = 0;
      for (auto& e : q) { PBT_EQ(e.Get(), mq[i], "the other container, element " << i); ++i; }
      PBT_EQ(absl::HashOf(c) == absl::HashOf(q), m == mq, "hash is that of the elements");
      PBT_EQ(TrackedStats::Count(), m.size() + mq.size(), "exactly the elements are alive");
      if (m.size() >= 2) src.NonTrivial();
    }
  }
  PBT_EQ(TrackedStats::Count(), size_t(0), "every constructed value is destroyed exactly once");
}
template<typename C> struct Held { using element_type = C; C data; C& Data() { return data; } const C& Data() const { return data; } };
}  // namespace
PBT_PROP(opaque_container, 30000, 600000, "histories of vector/deque/list operations through OpaqueContainer against std::vector<int>; non-trivial: reaches 2 elements") {
  switch (src.Draw(2)) { case 0: ProxyHistory<std::vector<Tracked>>(src); break; case 1: ProxyHistory<std::deque<Tracked>>(src); break; default: ProxyHistory<std::list<Tracked>>(src); }
}
PBT_PROP(container_proxy, 20000, 200000, "ContainerProxy over an accessor pair: every mutation through the proxy is seen in the wrapped container and vice versa; non-trivial: reaches 2 elements") {
  using C = std::deque<int>;
  using H = Held<C>;
  mt::ContainerProxy<H, C, &H::Data, &H::Data> p;
  C m;
  for (size_t n = src.Size(1, 10); n > 0; --n) {
    int v = int(src.Draw(9));
    switch (src.Draw(7)) {
      case 0: p.push_back(v); m.push_back(v); break;
      case 1: p.push_front(v); m.push_front(v); break;
      case 2: if (!m.empty()) { p.pop_back(); m.pop_back(); } break;
      case 3: if (!m.empty()) { p.pop_front(); m.pop_front(); } break;
      case 4: p.data.push_back(v); m.push_back(v); break;
      case 5: if (!m.empty()) { p[size_t(v) % m.size()] = v; m[size_t(v) % m.size()] = v; } break;
      case 6: p.clear(); m.clear(); break;
      default: p.resize(size_t(v)); m.resize(size_t(v)); break;
    }
    PBT_EQ(p.data, m, "the wrapped container");
    PBT_EQ(C(p.begin(), p.end()), m, "through the proxy");
    PBT_EQ(p.size(), m.size()); PBT_EQ(p.empty(), m.empty());
    if (m.size() >= 2) src.NonTrivial();
  }
}

PBT_PROP(no_destruct, 20000, 300000, "NoDestruct of an audited value, a string or a vector, built in one of five ways, then written and read through Get, * and ->; non-trivial: at least one write") {
  TrackedStats::Clear();
  const int a = int(src.Draw(9)), b = int(src.Draw(9));
  size_t alive = 0;
  {
    const int how = int(src.Draw(3));
    alignas(mt::NoDestruct<Tracked>) unsigned char raw[sizeof(mt::NoDestruct<Tracked>)];
    using N = mt::NoDestruct<Tracked>;
    N* n = nullptr;
    int want = 0;
    Tracked given(a);
    switch (how) {
      case 0: n = new (raw) N(); break;
      case 1: n = new (raw) N(a); want = a; break;
      case 2: n = new (raw) N(a, b); want = a * 100 + b; break;
      default: n = src.Bool() ? new (raw) N(given) : new (raw) N(Tracked(a)); want = a; break;
    }
    const N& c = *n;
    for (size_t k = src.Size(0, 6);; --k) {
      PBT_CHECK(n->Get() == want && c->Get() == want && (**n).Get() == want && c.Get().Get() == want && n->operator->()->Get() == want, "holds " << n->Get().Get() << " instead of " << want);
      PBT_CHECK(&n->Get() == &**n && &c.Get() == &*c && &c.Get() == &n->Get() && n->operator->() == &n->Get() && c.operator->() == &c.Get(), "all accessors name one object");
      PBT_EQ(TrackedStats::Count(), size_t(2), "exactly one value is alive in the holder");
      if (k == 0) break;
      src.NonTrivial();
      int v = int(src.Draw(99));
      switch (src.Draw(2)) { case 0: n->Get() = Tracked(v); break; case 1: (*n)->Set(v); break; default: **n = v; }
      want = v;
    }
    mt::NoDestruct<Tracked> other(want), differs(want + 1);
    PBT_EQ(absl::HashOf(c), absl::HashOf(other), "equal values hash alike");
    PBT_CHECK(absl::HashOf(c) != absl::HashOf(differs), "different values hash alike");
    PBT_EQ(absl::StrCat(c), "T" + std::to_string(want), "stringifies as the held value");
    n->~N();
    alive = TrackedStats::Count();
    PBT_EQ(given.Get(), a, "the argument is not consumed");
  }
  PBT_EQ(alive, size_t(4), "the holder was destroyed, its value was not");
  PBT_EQ(TrackedStats::Count(), size_t(3), "held values are never destroyed");
  TrackedStats::Clear();
  {
    const std::string text(size_t(a * 7), char('a' + b));
    std::string source = text;
    mt::NoDestruct<std::string> s1(text), s2(std::move(source)), s3(text.size(), char('a' + b));
    const mt::NoDestruct<std::vector<int>> v{a, b, a};
    mt::NoDestruct<std::vector<int>> w(std::vector<int>(size_t(a), b));
    PBT_CHECK(*s1 == text && *s2 == text && *s3 == text && s1->size() == text.size(), "string");
    PBT_EQ(*v, (std::vector<int>{a, b, a}), "list"); PBT_EQ(*w, std::vector<int>(size_t(a), b), "vector");
    PBT_EQ(absl::StrCat(s1), text); PBT_EQ(absl::HashOf(s1), absl::HashOf(s3));
    s1->append("!");
    PBT_CHECK(*s1 == text + "!" && *s2 == text, "only the written holder changes");
    for (auto* p : {&s1, &s2, &s3}) std::destroy_at(&p->Get());
    std::destroy_at(&v.Get()); std::destroy_at(&w.Get());
  }
}
