// T01: comparison helpers against exact arithmetic.
#include <algorithm>
#include <bit>
#include <cfloat>
#include <cmath>
#include <compare>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <tuple>
#include <variant>

#include "mbo/types/compare.h"
#include "pbt.h"
namespace mt = mbo::types;

namespace {
using F128 = __float128;
// The types under test (all arithmetic types of the platform).
#define TYPES bool, char, signed char, unsigned char, char8_t, char16_t, char32_t, wchar_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double
using Value = std::variant<TYPES>;

template<typename T> constexpr bool kFloat = std::is_floating_point_v<T>;
template<typename T> bool IsNan(T v) { if constexpr (kFloat<T>) return v != v; else return false; }
// -1, 0, 1: mathematical order, NaN above everything and equal to itself.
template<typename A, typename B>
int Exact(A a, B b) {
  if (IsNan(a) || IsNan(b)) return int(IsNan(a)) - int(IsNan(b));
  F128 x = F128(a), y = F128(b);  // exact for every type (113 bit mantissa)
  return x < y ? -1 : x > y ? 1 : 0;
}
// What the helpers document: a bool against an integer compares truth values.
template<typename A, typename B>
int Model(A a, B b) {
  if constexpr (!std::is_same_v<A, B> && !kFloat<A> && !kFloat<B> && (std::is_same_v<A, bool> || std::is_same_v<B, bool>)) return int(a != 0) - int(b != 0);
  else return Exact(a, b);
}
int Sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template<typename T>
T Gen(pbt::Src& src) {
  if constexpr (std::is_same_v<T, bool>) return src.Bool();
  else if constexpr (!kFloat<T>) {
    using U = std::make_unsigned_t<T>;
    using L = std::numeric_limits<T>;
    switch (src.Draw(4)) {
      case 0: return T(src.Int(std::is_signed_v<T> ? -3 : 0, 3));
      case 1: return T(U(L::max()) - U(src.Draw(2)));
      case 2: return T(U(L::min()) + U(src.Draw(2)));
      default: return T(U(src.U64()));
    }
  } else {
    using L = std::numeric_limits<T>;
    switch (src.Draw(8)) {
      case 0: return T(src.Int(-3, 3));
      case 1: return T(src.Int(-7, 7)) / T(2);
      case 2: { T z = src.Bool() ? T(0) : L::denorm_min() * T(1 + src.Draw(2)); return src.Bool() ? -z : z; }
      case 3: return src.Bool() ? -L::infinity() : L::infinity();
      case 4: { T n = src.Bool() ? L::signaling_NaN() : L::quiet_NaN(); return std::copysign(n, src.Bool() ? T(-1) : T(1)); }
      case 5: return src.Bool() ? L::lowest() : L::max();
      case 6: {  // next to a power of two at the integer limits
        static const int kExp[] = {7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64};
        T p = std::ldexp(T(1), kExp[src.Draw(10)]);
        size_t k = src.Draw(2);
        if (k == 1) p = std::nextafter(p, T(0));
        if (k == 2) p = std::nextafter(p, L::infinity());
        return src.Bool() ? -p : p;
      }
      case 7: return T(src.I64());
      default: return std::ldexp(T(src.I64()), int(src.Int(-1100, 1000)));
    }
  }
}
template<size_t I = 0>
Value GenValue(pbt::Src& src, size_t i) {
  if constexpr (I + 1 < std::variant_size_v<Value>) { if (i != I) return GenValue<I + 1>(src, i); }
  using T = std::variant_alternative_t<I, Value>;
  return Value(std::in_place_index<I>, Gen<T>(src));
}
Value AnyValue(pbt::Src& src) { return GenValue(src, src.Draw(std::variant_size_v<Value> - 1)); }
std::string Show(const Value& v) {
  return std::visit([&]<typename T>(T x) {
    std::ostringstream os;
    os.precision(25);
    if constexpr (kFloat<T>) os << x; else if constexpr (std::is_signed_v<T>) os << static_cast<long long>(x); else os << static_cast<unsigned long long>(x);
    return "type#" + std::to_string(v.index()) + ":" + os.str();
  }, v);
}
// A value of another type that is equal to `v`, or next to it, where representable.
Value Near(pbt::Src& src, const Value& v) {
  size_t i = src.Draw(std::variant_size_v<Value> - 1);
  int delta = int(src.Int(-1, 1));
  Value out = GenValue(src, i);
  std::visit([&]<typename T>(T& o) {
    std::visit([&]<typename S>(S s) {
      if (IsNan(s)) { if constexpr (kFloat<T>) o = std::numeric_limits<T>::quiet_NaN(); return; }
      if constexpr (kFloat<T>) { o = T(s); if (delta && std::isfinite(o)) o = std::nextafter(o, T(delta) * std::numeric_limits<T>::infinity()); return; }
      else if constexpr (std::is_same_v<T, bool>) { o = s != 0; return; }
      else {
        using L = std::numeric_limits<T>;
        F128 want = F128(s) + delta;
        if (want >= F128(L::min()) && want <= F128(L::max())) o = T(want);
      }
    }, v);
  }, out);
  return out;
}
int Call(const Value& a, const Value& b) {
  return std::visit([](auto x, auto y) { return Sign(mt::CompareScalar(x, y)); }, a, b);
}
int Want(const Value& a, const Value& b) {
  return std::visit([](auto x, auto y) { return Model(x, y); }, a, b);
}
bool IsBool(const Value& v) { return v.index() == 0; }
}  // namespace

PBT_PROP(scalar, 600000, 12000000, "two values of any two of the 19 arithmetic types, the second often equal or adjacent to the first; against exact 113-bit arithmetic; non-trivial: different types") {
  Value a = AnyValue(src), b = src.Bool() ? Near(src, a) : AnyValue(src);
  if (a.index() != b.index()) src.NonTrivial();
  PBT_NOTE(Show(a) << " vs " << Show(b));
  int w = Want(a, b);
  src.Label(w == 0 ? "equal" : "different");
  PBT_EQ(Call(a, b), w, "CompareScalar(" << Show(a) << ", " << Show(b) << ")");
  PBT_EQ(Call(b, a), -w, "CompareScalar with exchanged arguments (" << Show(b) << ", " << Show(a) << ")");
  PBT_EQ(Call(a, a), 0, "CompareScalar(x, x) " << Show(a));
  std::visit([&]<typename A, typename B>(A x, B y) {
    PBT_EQ(Sign(mt::CompareArithmetic(x, y)), w, "CompareArithmetic " << Show(a) << ", " << Show(b));
    if constexpr (!kFloat<A> && !kFloat<B>) PBT_EQ(Sign(mt::CompareIntegral(x, y)), w, "CompareIntegral " << Show(a) << ", " << Show(b));
    if constexpr (kFloat<A> && std::is_same_v<A, B>) PBT_EQ(Sign(mt::CompareFloat(x, y)), w, "CompareFloat " << Show(a) << ", " << Show(b));
  }, a, b);
}

PBT_PROP(transitive, 300000, 6000000, "three values of any numeric types (bool excluded: it compares truth values with integers), adjacent ones; non-trivial: at least two different types") {
  Value v[3];
  do v[0] = GenValue(src, 1 + src.Draw(std::variant_size_v<Value> - 2)); while (false);
  for (int i = 1; i < 3; ++i) {
    v[i] = src.Chance(2, 3) ? Near(src, v[src.Draw(i - 1)]) : AnyValue(src);
    if (IsBool(v[i])) v[i] = GenValue(src, 10);
  }
  if (v[0].index() != v[1].index() || v[1].index() != v[2].index()) src.NonTrivial();
  PBT_NOTE(Show(v[0]) << ", " << Show(v[1]) << ", " << Show(v[2]));
  for (int p = 0; p < 6; ++p) {
    static const int kP[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const Value &a = v[kP[p][0]], &b = v[kP[p][1]], &c = v[kP[p][2]];
    int ab = Call(a, b), bc = Call(b, c), ac = Call(a, c);
    if (ab <= 0 && bc <= 0) PBT_CHECK(ac <= 0 && (ac < 0) == (ab < 0 || bc < 0), "order is not transitive: " << Show(a) << ", " << Show(b) << ", " << Show(c) << ": " << ab << bc << ac);
  }
}

template<typename T>
static void SortFloats(pbt::Src& src) {
  std::vector<T> v;
  for (size_t i = src.SkewSize(40); i > 0; --i) v.push_back(Gen<T>(src));
  std::vector<T> w = v;
  std::stable_sort(v.begin(), v.end(), [](T a, T b) { return mt::CompareFloat(a, b) < 0; });
  std::stable_sort(w.begin(), w.end(), [](T a, T b) { return Exact(a, b) < 0; });
  bool nan = std::any_of(w.begin(), w.end(), [](T x) { return x != x; });
  if (nan && w.size() > 1) src.NonTrivial();
  for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(std::memcmp(&v[i], &w[i], sizeof(T) == 16 ? 10 : sizeof(T)) == 0, "sorted position " << i);
}
PBT_PROP(sort_floats, 30000, 600000, "vectors of float/double/long double sorted by CompareFloat against the exact order; non-trivial: contains a NaN and another value") {
  switch (src.Draw(2)) { case 0: SortFloats<double>(src); break; case 1: SortFloats<float>(src); break; default: SortFloats<long double>(src); }
}

namespace {
enum class E8 : uint8_t { a = 0 };
enum S16 : short { s0 = 0 };
struct Weak {  // equal modulo 10
  int v;
  std::weak_ordering operator<=>(const Weak& o) const { return v % 10 <=> o.v % 10; }
  bool operator==(const Weak& o) const { return v % 10 == o.v % 10; }
};
}  // namespace
PBT_PROP(other_scalars, 100000, 1000000, "pointers of equal or qualification-different type and enumerators; non-trivial: different values") {
  static int arr[16];
  int *p = arr + src.Draw(15), *q = arr + src.Draw(15);
  int w = p < q ? -1 : p > q ? 1 : 0;
  if (w) src.NonTrivial();
  PBT_EQ(Sign(mt::CompareScalar(p, q)), w, "pointers");
  PBT_EQ(Sign(mt::CompareScalar<const int*, int*>(p, q)), w, "const int* and int*");
  PBT_EQ(Sign(mt::CompareScalar<int*, const int*>(p, q)), w, "int* and const int*");
  auto a = E8(src.Draw(255)), b = E8(src.Draw(255));
  PBT_EQ(Sign(mt::CompareScalar(a, b)), int(a > b) - int(a < b), "enum class");
  auto c = S16(src.Int(-32768, 32767)), d = S16(src.Int(-32768, 32767));
  PBT_EQ(Sign(mt::CompareScalar(c, d)), int(c > d) - int(c < d), "enum");
  // Ordering conversions.
  Weak x{int(src.Draw(30))}, y{int(src.Draw(30))};
  auto wo = x <=> y;
  auto so = mt::WeakToStrong(wo);
  PBT_CHECK((so < 0) == (wo < 0) && (so > 0) == (wo > 0) && (so == 0) == (wo == 0), "WeakToStrong");
  auto st = a <=> b;
  PBT_CHECK(mt::WeakToStrong(st) == st, "WeakToStrong of a strong ordering");
}

template<typename T, typename U>
static void Less(const T& a, const U& b, int w, const char* what) {
  constexpr mt::CompareLess<T> less;
  PBT_EQ(less(a, b), w < 0, what << ": less(a, b)");
  PBT_EQ(less(b, a), w > 0, what << ": less(b, a)");
  PBT_EQ(int((less.Compare(a, b) > 0)) - int((less.Compare(a, b) < 0)), w, what << ": Compare(a, b)");
  PBT_EQ(int((less.Compare(b, a) > 0)) - int((less.Compare(b, a) < 0)), -w, what << ": Compare(b, a)");
}
PBT_PROP(compare_less, 150000, 2000000, "CompareLess over integers, strings, tuples and a weakly ordered type, same type and heterogeneous; against std::less; non-trivial: different values") {
  int64_t a = src.Bool() ? src.Int(-2, 2) : src.I64(), b = src.Bool() ? a + int(src.Int(-1, 1)) * (a != INT64_MAX && a != INT64_MIN) : src.I64();
  auto sgn = [](auto& x, auto& y) { return int(y < x) - int(x < y); };
  if (a != b) src.NonTrivial();
  Less<int64_t, int64_t>(a, b, sgn(a, b), "int64");
  int32_t n = int32_t(b);
  int64_t nb = n;
  Less<int64_t, int32_t>(a, n, sgn(a, nb), "int64 and int32");
  Less<int32_t, int64_t>(n, a, sgn(nb, a), "int32 and int64");
  uint8_t u = uint8_t(b);
  int64_t ub = u;
  Less<int64_t, uint8_t>(a, u, sgn(a, ub), "int64 and uint8");
  std::string s = src.Str(std::string_view("a\xff\0b", 4), 4), t = src.Chance(1, 4) ? s + src.Str("ab", 1) : src.Str(std::string_view("a\xff\0b", 4), 4);
  int w = s.compare(t);
  w = (w > 0) - (w < 0);
  Less<std::string, std::string>(s, t, w, "string");
  Less<std::string, std::string_view>(s, t, w, "string and string_view");
  Less<std::string_view, std::string>(s, t, w, "string_view and string");
  if (t.find('\0') == t.npos) Less<std::string, const char*>(s, t.c_str(), w, "string and char*");
  auto p = std::make_tuple(a % 3, s), q = std::make_tuple(b % 3, t);
  Less<std::tuple<int64_t, std::string>, std::tuple<int64_t, std::string>>(p, q, sgn(p, q), "tuple");
  Weak x{int(src.Draw(30))}, y{int(src.Draw(30))};
  int xm = x.v % 10, ym = y.v % 10;
  Less<Weak, Weak>(x, y, sgn(xm, ym), "weakly ordered");
  double f = src.Bool() ? double(a) : -0.0, g = double(b);
  Less<double, double>(f, g, sgn(f, g), "double");
  // As the comparator of containers.
  std::set<std::string, mt::CompareLess<std::string>> set = {s, t};
  PBT_CHECK(set.size() == (s == t ? 1U : 2U) && set.find(std::string_view(t)) != set.end() && *set.begin() == std::min(s, t), "set with CompareLess");
}
