// J01: JSON values keep their data and serialise to equivalent JSON.
//
// Random operation histories run on a pool of Json values next to a plain reference model; after each step the
// values are compared with the model through every accessor. Comparisons are checked against mathematical
// equality and the laws of a total preorder; serialised text is read back by a strict JSON reader below.
#include <bit>
#include <cmath>
#include <compare>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "mbo/json/json.h"
#include "pbt.h"

using mbo::json::Json;

namespace {

struct M {
  enum Kind { kNull, kArray, kBool, kNumber, kObject, kString } kind = kNull;
  std::vector<M> arr;
  bool b = false;
  std::variant<std::int64_t, std::uint64_t, double> num;
  std::map<std::string, M> obj;
  std::string str;
};

M Num(std::int64_t v) { M m; m.kind = M::kNumber; m.num = v; return m; }
M Num(std::uint64_t v) { M m; m.kind = M::kNumber; m.num = v; return m; }
M Num(double v) { M m; m.kind = M::kNumber; m.num = v; return m; }
M Boolean(bool b) { M m; m.kind = M::kBool; m.b = b; return m; }
M Text(std::string s) { M m; m.kind = M::kString; m.str = std::move(s); return m; }

static_assert(std::numeric_limits<long double>::digits >= 64, "exact for all three number types");
long double Value(const M& m) { return std::visit([](auto v) { return static_cast<long double>(v); }, m.num); }

template<typename T> int Sign(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }

// Order of two model values; objects that differ have no specified order: 2.
int Order(const M& a, const M& b) {
  if (a.kind != b.kind) return a.kind < b.kind ? -1 : 1;
  switch (a.kind) {
    case M::kNull: return 0;
    case M::kBool: return Sign(a.b, b.b);
    case M::kNumber: return Sign(Value(a), Value(b));
    case M::kString: return Sign(a.str, b.str);
    case M::kArray:
      for (std::size_t i = 0; i < a.arr.size() && i < b.arr.size(); ++i) {
        if (const int o = Order(a.arr[i], b.arr[i]); o != 0) return o;
      }
      return Sign(a.arr.size(), b.arr.size());
    case M::kObject: {
      if (a.obj.size() != b.obj.size()) return 2;
      auto x = a.obj.begin();
      auto y = b.obj.begin();
      for (; x != a.obj.end(); ++x, ++y) {
        if (x->first != y->first || Order(x->second, y->second) != 0) return 2;
      }
      return 0;
    }
  }
  return 2;
}

std::string Show(const M& m) {
  std::ostringstream o;
  switch (m.kind) {
    case M::kNull: return "null";
    case M::kBool: return m.b ? "true" : "false";
    case M::kString: return pbt::Quote(m.str);
    case M::kNumber: {
      o.precision(17);
      std::visit([&](auto v) { o << v << (std::is_same_v<decltype(v), double> ? "d" : std::is_same_v<decltype(v), std::uint64_t> ? "u" : ""); }, m.num);
      return o.str();
    }
    case M::kArray:
      for (const M& x : m.arr) o << (&x == m.arr.data() ? "" : ",") << Show(x);
      return "[" + o.str() + "]";
    case M::kObject:
      for (const auto& [k, x] : m.obj) o << pbt::Quote(k) << ":" << Show(x) << ",";
      return "{" + o.str() + "}";
  }
  return "?";
}

// Reads a Json value with all its accessors.
void Check(const Json& j, const M& m, const std::string& at);
void CheckContainer(const Json& j, const M& m, const std::string& at) {
  if (m.kind == M::kArray) {
    PBT_EQ(j.size(), m.arr.size(), at);
    PBT_EQ(j.empty(), m.arr.empty(), at);
    PBT_EQ(static_cast<std::size_t>(j.end() - j.begin()), m.arr.size(), at);
    std::size_t i = 0;
    for (const Json& x : j) {
      PBT_CHECK(&x == &j[i] && &x == &j.at(i), at << " element " << i);
      Check(x, m.arr[i], at + "[" + std::to_string(i) + "]");
      ++i;
    }
    i = 0;
    for (const Json& x : j.values()) { PBT_CHECK(&x == &j[i], at << " values " << i); ++i; }
    PBT_EQ(i, m.arr.size(), at);
    PBT_EQ(j.values().size(), i, at);
    i = 0;
    for (const Json& x : j.array_values()) { PBT_CHECK(&x == &j[i], at << " array_values " << i); ++i; }
    PBT_EQ(i, m.arr.size(), at);
    i = m.arr.size();
    for (auto it = j.rbegin(); it != j.rend(); ++it) { --i; PBT_CHECK(&*it == &j[i], at << " reverse " << i); }
    PBT_EQ(i, 0, at);
    PBT_CHECK(!j.contains("a"), at);
  } else if (m.kind == M::kObject) {
    PBT_EQ(j.size(), m.obj.size(), at);
    PBT_EQ(j.empty(), m.obj.empty(), at);
    for (const auto& [k, x] : m.obj) {
      PBT_CHECK(j.contains(k), at << " contains " << pbt::Quote(k));
      PBT_CHECK(&j[k] == &j.at(k), at);
      Check(j[k], x, at + "." + k);
    }
    PBT_CHECK(!j.contains("missing!"), at);
    std::set<std::string> names;
    for (const auto& n : j.property_names()) { PBT_CHECK(m.obj.contains(n), at << " name " << pbt::Quote(n)); PBT_CHECK(names.insert(n).second, at); }
    PBT_EQ(names.size(), m.obj.size(), at << " names");
    std::set<const Json*> seen;
    for (const auto& [n, x] : j.property_pairs()) { PBT_CHECK(j.contains(n) && &x == &j[n], at << " pair " << pbt::Quote(n)); PBT_CHECK(seen.insert(&x).second, at); }
    PBT_EQ(seen.size(), m.obj.size(), at << " pairs");
    std::set<const Json*> values;
    for (const Json& x : j.property_values()) values.insert(&x);
    PBT_CHECK(values == seen, at << " property_values");
    values.clear();
    for (const Json& x : j.values()) values.insert(&x);
    PBT_CHECK(values == seen, at << " values");
    PBT_EQ(j.values().size(), m.obj.size(), at);
  } else {
    PBT_EQ(j.size(), 0, at);
    PBT_CHECK(j.empty(), at);
    PBT_CHECK(!j.contains("a"), at);
  }
}
void Check(const Json& j, const M& m, const std::string& at) {
  static constexpr Json::Kind kKinds[] = {Json::Kind::kNull, Json::Kind::kArray, Json::Kind::kBool, Json::Kind::kNumber, Json::Kind::kObject, Json::Kind::kString};
  PBT_EQ(static_cast<int>(j.GetKind()), static_cast<int>(kKinds[m.kind]), at << " kind, expected " << Show(m));
  PBT_EQ(j.IsNull(), m.kind == M::kNull, at);
  PBT_EQ(static_cast<bool>(j), m.kind != M::kNull, at);
  PBT_EQ(j.IsArray(), m.kind == M::kArray, at);
  PBT_EQ(j.IsBool(), m.kind == M::kBool, at);
  PBT_EQ(j.IsTrue(), m.kind == M::kBool && m.b, at);
  PBT_EQ(j.IsFalse(), m.kind == M::kBool && !m.b, at);
  PBT_EQ(j.IsObject(), m.kind == M::kObject, at);
  PBT_EQ(j.IsString(), m.kind == M::kString, at);
  PBT_EQ(j.IsNumber(), m.kind == M::kNumber, at);
  PBT_EQ(j.IsSignedInt(), m.kind == M::kNumber && m.num.index() == 0, at << ", expected " << Show(m));
  PBT_EQ(j.IsUnsignedInt(), m.kind == M::kNumber && m.num.index() == 1, at << ", expected " << Show(m));
  PBT_EQ(j.IsFloat(), m.kind == M::kNumber && m.num.index() == 2, at << ", expected " << Show(m));
  PBT_EQ(j.IsInteger(), m.kind == M::kNumber && m.num.index() != 2, at);
  switch (m.kind) {
    case M::kNull: PBT_CHECK(j == std::nullopt, at); break;
    case M::kBool: PBT_CHECK(j == m.b && !(j == !m.b), at); break;
    case M::kString:
      PBT_CHECK(j == m.str && j == std::string_view(m.str) && !(j == m.str + "x"), at << " should be " << pbt::Quote(m.str));
      if (m.str.find('\0') == m.str.npos) PBT_CHECK(j == m.str.c_str(), at << " should be " << pbt::Quote(m.str));
      break;
    case M::kNumber:
      std::visit([&](auto v) {
        PBT_CHECK(j == v, at << " should be " << Show(m));
        PBT_CHECK((j <=> v) == std::strong_ordering::equal && !(j < v), at << " should be " << Show(m));
      }, m.num);
      break;
    default: break;
  }
  CheckContainer(j, m, at);
}

// A strict JSON reader.
class Reader {
 public:
  explicit Reader(std::string_view s) : s_(s) {}
  std::optional<M> Document() {
    Space();
    M m;
    if (!Value(m)) return std::nullopt;
    Space();
    if (at_ != s_.size()) return std::nullopt;
    return m;
  }
  std::size_t at() const { return at_; }

 private:
  void Space() { while (at_ < s_.size() && std::string_view(" \t\r\n").find(s_[at_]) != std::string_view::npos) ++at_; }
  bool Eat(std::string_view w) {
    if (!s_.substr(at_).starts_with(w)) return false;
    at_ += w.size();
    return true;
  }
  bool Value(M& m) {
    if (at_ >= s_.size()) return false;
    switch (s_[at_]) {
      case 'n': m.kind = M::kNull; return Eat("null");
      case 't': m = Boolean(true); return Eat("true");
      case 'f': m = Boolean(false); return Eat("false");
      case '"': m.kind = M::kString; return String(m.str);
      case '[': {
        m.kind = M::kArray;
        ++at_;
        Space();
        if (Eat("]")) return true;
        for (;;) {
          Space();
          m.arr.emplace_back();
          if (!Value(m.arr.back())) return false;
          Space();
          if (Eat("]")) return true;
          if (!Eat(",")) return false;
        }
      }
      case '{': {
        m.kind = M::kObject;
        ++at_;
        Space();
        if (Eat("}")) return true;
        for (;;) {
          Space();
          std::string key;
          M v;
          if (!String(key)) return false;
          Space();
          if (!Eat(":")) return false;
          Space();
          if (!Value(v)) return false;
          if (!m.obj.emplace(key, v).second) return false;
          Space();
          if (Eat("}")) return true;
          if (!Eat(",")) return false;
        }
      }
      default: return Number(m);
    }
  }
  bool Digits() {
    const std::size_t start = at_;
    while (at_ < s_.size() && s_[at_] >= '0' && s_[at_] <= '9') ++at_;
    return at_ > start;
  }
  bool Number(M& m) {
    const std::size_t start = at_;
    bool integer = true;
    const bool neg = Eat("-");
    if (!Eat("0") && !Digits()) return false;
    if (Eat(".")) { integer = false; if (!Digits()) return false; }
    if (Eat("e") || Eat("E")) { integer = false; if (!Eat("+")) Eat("-"); if (!Digits()) return false; }
    const std::string t(s_.substr(start, at_ - start));
    m.kind = M::kNumber;
    errno = 0;
    if (integer && neg) { m.num = static_cast<std::int64_t>(std::strtoll(t.c_str(), nullptr, 10)); if (errno == 0) return true; }
    if (integer && !neg) { m.num = static_cast<std::uint64_t>(std::strtoull(t.c_str(), nullptr, 10)); if (errno == 0) return true; }
    m.num = std::strtod(t.c_str(), nullptr);
    return true;
  }
  bool Hex4(unsigned& v) {
    v = 0;
    for (int i = 0; i < 4; ++i, ++at_) {
      if (at_ >= s_.size() || !std::isxdigit(static_cast<unsigned char>(s_[at_]))) return false;
      v = v * 16 + static_cast<unsigned>(std::isdigit(static_cast<unsigned char>(s_[at_])) ? s_[at_] - '0' : (s_[at_] | 32) - 'a' + 10);
    }
    return true;
  }
  static void Utf8(std::string& r, unsigned c) {
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else { r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 63)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  }
  bool String(std::string& r) {
    if (!Eat("\"")) return false;
    for (;;) {
      if (at_ >= s_.size()) return false;
      const char c = s_[at_++];
      if (c == '"') return true;
      if (static_cast<unsigned char>(c) < 0x20) return false;
      if (c != '\\') { r += c; continue; }
      if (at_ >= s_.size()) return false;
      switch (s_[at_++]) {
        case '"': r += '"'; break;
        case '\\': r += '\\'; break;
        case '/': r += '/'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'n': r += '\n'; break;
        case 'r': r += '\r'; break;
        case 't': r += '\t'; break;
        case 'u': {
          unsigned v = 0;
          if (!Hex4(v)) return false;
          if (v >= 0xD800 && v < 0xDC00) {
            unsigned w = 0;
            if (!Eat("\\u") || !Hex4(w) || w < 0xDC00 || w > 0xDFFF) return false;
            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
          } else if (v >= 0xDC00 && v < 0xE000) {
            return false;
          }
          Utf8(r, v);
          break;
        }
        default: return false;
      }
    }
  }
  std::string_view s_;
  std::size_t at_ = 0;
};

const std::vector<std::string>& Keys() {
  static const std::vector<std::string> k = {"a", "b", "c", "key", "", "x y", "q\"uote", "back\\slash", "nl\n", "\xc3\xa9", "A", "aa", "1", "\x01"};
  return k;
}
std::string GenStr(pbt::Src& src) {
  switch (src.Draw(4)) {
    case 0: return src.Pick(Keys());
    case 1: return src.Str("ab\"\\/\n\t\r\b\f", 6);
    case 2: return src.Str("a\x01\x1f\x7f ", 5) + src.PickStr({"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x80", "\xe2\x80\xa8", "\xef\xbf\xbd"}).data();
    case 3: return src.Chance(1, 3) ? std::string("a\0b", 3) : std::string("<&>'`${}");
    default: return src.Str("abc", 3);
  }
}
double GenDouble(pbt::Src& src) {
  switch (src.Draw(5)) {
    case 0: return static_cast<double>(src.Int(-10, 10)) / 4;
    case 1: return static_cast<double>(src.I64());
    case 2: { const double d = std::bit_cast<double>(src.U64()); return std::isfinite(d) ? d : 1.5; }
    case 3: return std::vector<double>{0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 9007199254740993.0, 9223372036854775808.0, 18446744073709551616.0, 1e21, 123456789.125, 1e-7, 100000.0, 1e6, 1e15, 1e16}[src.Draw(14)];
    case 4: return static_cast<double>(src.Int(-1000000, 1000000)) * 0.01;
    default: return static_cast<double>(src.U64());
  }
}
std::int64_t GenInt(pbt::Src& src) {
  switch (src.Draw(3)) {
    case 0: return src.I64();
    case 1: return std::vector<std::int64_t>{INT64_MIN, INT64_MAX, INT64_MAX - 1, 9007199254740993, -9007199254740993, 0, -1, 1LL << 53}[src.Draw(7)];
    default: return src.Int(-5, 5);
  }
}
std::uint64_t GenUint(pbt::Src& src) {
  switch (src.Draw(3)) {
    case 0: return src.U64();
    case 1: return std::vector<std::uint64_t>{UINT64_MAX, UINT64_MAX - 1, 1ULL << 63, (1ULL << 63) - 1, 9007199254740993, 0}[src.Draw(5)];
    default: return src.Draw(5);
  }
}
M GenScalar(pbt::Src& src) {
  switch (src.Draw(5)) {
    case 0: return Num(GenInt(src));
    case 1: return Num(GenUint(src));
    case 2: return Num(GenDouble(src));
    case 3: return Boolean(src.Bool());
    case 4: return M{};
    default: return Text(GenStr(src));
  }
}
M GenTree(pbt::Src& src, int depth) {
  if (depth == 0 || src.Chance(1, 2)) return GenScalar(src);
  M m;
  const std::size_t n = src.SkewSize(5);
  if (src.Bool()) {
    m.kind = M::kArray;
    for (std::size_t i = 0; i < n; ++i) m.arr.push_back(GenTree(src, depth - 1));
  } else {
    m.kind = M::kObject;
    for (std::size_t i = 0; i < n; ++i) m.obj[src.Chance(1, 3) ? GenStr(src) : src.Pick(Keys())] = GenTree(src, depth - 1);
  }
  return m;
}

// Sets `j` (any kind) to the scalar `m` in one of the ways a caller can.
void Assign(pbt::Src& src, Json& j, const M& m) {
  switch (m.kind) {
    case M::kNull:
      switch (src.Draw(2)) {
        case 0: j = std::nullopt; break;
        case 1: j.Reset(); break;
        default: j = Json(std::nullopt); break;
      }
      break;
    case M::kBool:
      if (src.Bool()) j = m.b;  // A constant lvalue.
      else if (src.Bool()) { bool b = m.b; j = b; }
      else j = m.b ? true : false;
      break;
    case M::kNumber:
      std::visit([&](auto v) {
        using T = decltype(v);
        const T c = v;
        switch (src.Draw(4)) {
          case 0: j = T(v); break;
          case 1: j = v; break;
          case 2: j = c; break;
          case 3: j = Json(v); break;
          default: j = Json(T(v)); break;
        }
        if constexpr (std::is_same_v<T, std::int64_t>) {
          if (v == static_cast<std::int8_t>(v) && src.Chance(1, 3)) j = static_cast<std::int8_t>(v);
          else if (v == static_cast<std::int16_t>(v) && src.Chance(1, 3)) j = static_cast<std::int16_t>(v);
          else if (v == static_cast<int>(v) && src.Chance(1, 3)) { int i = static_cast<int>(v); if (src.Bool()) j = i; else j = static_cast<int>(v); }
        } else if constexpr (std::is_same_v<T, std::uint64_t>) {
          if (v == static_cast<std::uint8_t>(v) && src.Chance(1, 3)) j = static_cast<std::uint8_t>(v);
          else if (v == static_cast<unsigned>(v) && src.Chance(1, 3)) { const unsigned u = static_cast<unsigned>(v); j = u; }
        } else {
          if (std::abs(v) < 1e30 && v == static_cast<double>(static_cast<float>(v)) && src.Chance(1, 3)) { float f = static_cast<float>(v); j = f; }
        }
      }, m.num);
      break;
    case M::kString: {
      std::string s = m.str;
      const std::string cs = m.str;
      switch (src.Draw(5)) {
        case 0: j = s; PBT_EQ(s, m.str, "the source changed"); break;
        case 1: j = std::string_view(s); break;
        case 2: j = std::move(s); break;
        case 3: if (s.find('\0') == s.npos) j = s.c_str(); else j = cs; break;
        case 4: j = Json(cs); break;
        default: j.Reset(); j.MakeString(cs); break;
      }
      break;
    }
    default: break;
  }
}

// Builds a Json from the model, in any order of properties and in several ways.
void Build(pbt::Src& src, Json& j, const M& m) {
  if (m.kind == M::kArray) {
    j.Reset();
    j.MakeArray();
    for (const M& x : m.arr) {
      Json e;
      Build(src, e, x);
      switch (src.Draw(3)) {
        case 0: j.push_back(e); break;
        case 1: j.push_back(std::move(e)); break;
        case 2: { Json& r = j.emplace_back(std::as_const(e)); PBT_CHECK(&r == &j[j.size() - 1]); break; }
        default: Build(src, j.emplace_back(std::nullopt), x); break;
      }
    }
  } else if (m.kind == M::kObject) {
    j.Reset();
    j.MakeObject();
    std::vector<const std::pair<const std::string, M>*> todo;
    for (const auto& p : m.obj) todo.push_back(&p);
    while (!todo.empty()) {
      const std::size_t at = src.Draw(todo.size() - 1);
      const auto* p = todo[at];
      todo.erase(todo.begin() + static_cast<std::ptrdiff_t>(at));
      switch (src.Draw(3)) {
        case 0: Build(src, j[p->first], p->second); break;
        case 1: { Json e; Build(src, e, p->second); Json& r = j.emplace(p->first, e); PBT_CHECK(&r == &j[p->first]); break; }
        case 2: { Json e; Build(src, e, p->second); j.at(p->first) = std::move(e); break; }
        default: { Json e; Build(src, e, p->second); j[p->first] = e; break; }
      }
    }
    if (src.Chance(1, 4)) {  // Something that comes and goes changes the table, not the value.
      for (int i = 0; i < 9; ++i) j["tmp" + std::to_string(i)] = i;
      for (int i = 0; i < 9; ++i) PBT_EQ(j.erase("tmp" + std::to_string(i)), 1);
    }
  } else {
    Assign(src, j, m);
  }
}

std::size_t Nodes(const M& m) {
  std::size_t n = 1;
  for (const M& x : m.arr) n += Nodes(x);
  for (const auto& [k, x] : m.obj) n += Nodes(x);
  return n;
}

// A random node of a value, with the same node of the model.
std::pair<Json*, M*> Walk(pbt::Src& src, Json* j, M* m) {
  while (src.Chance(2, 3)) {
    if (m->kind == M::kArray && !m->arr.empty()) {
      const std::size_t i = src.Draw(m->arr.size() - 1);
      j = &(*j)[i];
      m = &m->arr[i];
    } else if (m->kind == M::kObject && !m->obj.empty()) {
      auto it = std::next(m->obj.begin(), static_cast<std::ptrdiff_t>(src.Draw(m->obj.size() - 1)));
      j = &(*j)[it->first];
      m = &it->second;
    } else {
      break;
    }
  }
  return {j, m};
}

std::string_view ModeName(int i) { return i == 0 ? "compact" : i == 1 ? "line" : "pretty"; }

bool SameText(const M& a, const M& b) {  // Data equality where numbers count as the written number.
  if (a.kind != b.kind) return false;
  switch (a.kind) {
    case M::kNumber: return Value(a) == Value(b);
    case M::kArray:
      if (a.arr.size() != b.arr.size()) return false;
      for (std::size_t i = 0; i < a.arr.size(); ++i) if (!SameText(a.arr[i], b.arr[i])) return false;
      return true;
    case M::kObject: {
      if (a.obj.size() != b.obj.size()) return false;
      for (const auto& [k, v] : a.obj) { auto it = b.obj.find(k); if (it == b.obj.end() || !SameText(v, it->second)) return false; }
      return true;
    }
    default: return Order(a, b) == 0;
  }
}

void CheckSerialize(const Json& j, const M& m) {
  if (m.kind != M::kObject) return;
  for (int mode = 0; mode < 3; ++mode) {
    const auto md = mode == 0 ? Json::SerializeMode::kCompact : mode == 1 ? Json::SerializeMode::kLine : Json::SerializeMode::kPretty;
    const std::string text = j.Serialize(md);
    Reader r(text);
    const std::optional<M> back = r.Document();
    PBT_CHECK(back.has_value(), ModeName(mode) << " is not JSON at " << r.at() << ": " << pbt::Quote(text));
    PBT_CHECK(SameText(*back, m), ModeName(mode) << " denotes " << Show(*back) << "\nexpected " << Show(m) << "\ntext " << pbt::Quote(text));
    std::ostringstream os;
    os << std::hex;
    j.Stream(os, md);
    PBT_CHECK(text.ends_with("\n") || mode == 1 || !text.ends_with("\n"), text);
    std::ostringstream plain;
    j.Stream(plain, md);
    PBT_EQ(plain.str(), text, "Stream and Serialize");
    if (mode == 1) PBT_CHECK(text.find('\n') >= text.size() - 1, "more than one line: " << pbt::Quote(text));
  }
}

}  // namespace

PBT_PROP(history, 20000, 400000, "at least three values in one tree and one container operation") {
  constexpr std::size_t kPool = 3;
  Json pool[kPool];
  M model[kPool];
  const std::size_t ops = src.Size(1, 25);
  bool containers = false;
  for (std::size_t step = 0; step < ops; ++step) {
    const std::size_t p = src.Draw(kPool - 1);
    auto [j, m] = Walk(src, &pool[p], &model[p]);
    if (Nodes(model[p]) > 60) { pool[p].Reset(); model[p] = M{}; continue; }
    switch (src.Draw(14)) {
      case 0: {
        const M v = GenScalar(src);
        PBT_NOTE(step << ": set " << p << " " << Show(v));
        Assign(src, *j, v);
        *m = v;
        break;
      }
      case 1: {
        const M v = GenTree(src, 2);
        PBT_NOTE(step << ": build " << p << " " << Show(v));
        Build(src, *j, v);
        *m = v;
        break;
      }
      case 2: {  // Array: append.
        if (m->kind != M::kNull && m->kind != M::kArray) break;
        const M v = GenTree(src, 1);
        PBT_NOTE(step << ": append " << p << " " << Show(v));
        Json e;
        Build(src, e, v);
        if (m->kind == M::kNull) { *m = M{}; m->kind = M::kArray; }
        m->arr.push_back(v);
        containers = true;
        switch (src.Draw(3)) {
          case 0: j->push_back(e); break;
          case 1: j->push_back(std::move(e)); break;
          case 2: PBT_CHECK(&j->emplace_back(e) == &j->at(m->arr.size() - 1)); break;
          default: j->MakeArray().emplace_back(std::as_const(e)); break;
        }
        break;
      }
      case 3: {  // Object: set or emplace.
        if (m->kind != M::kNull && m->kind != M::kObject) break;
        const M v = GenTree(src, 1);
        const std::string key = src.Pick(Keys());
        Json e;
        Build(src, e, v);
        if (m->kind == M::kNull) { *m = M{}; m->kind = M::kObject; }
        containers = true;
        if (src.Chance(1, 6)) {
          PBT_NOTE(step << ": touch " << p << " " << pbt::Quote(key));
          PBT_EQ((*j)[key].IsNull(), !m->obj.contains(key) || m->obj[key].kind == M::kNull, "touched " << pbt::Quote(key));
          m->obj.emplace(key, M{});
        } else if (src.Bool()) {
          PBT_NOTE(step << ": emplace " << p << " " << pbt::Quote(key) << " " << Show(v));
          j->emplace(key, e);
          m->obj.emplace(key, v);
        } else {
          PBT_NOTE(step << ": put " << p << " " << pbt::Quote(key) << " " << Show(v));
          if (src.Bool()) (*j)[key] = e; else j->at(key) = std::as_const(e);
          m->obj[key] = v;
        }
        break;
      }
      case 4: {  // Copies between pool values and their nodes; the source stays.
        const std::size_t q = src.Draw(kPool - 1);
        auto [k, n] = Walk(src, &pool[q], &model[q]);
        const M v = *n;
        PBT_NOTE(step << ": copy " << q << " " << Show(v) << " to " << p);
        switch (src.Draw(4)) {
          case 0: *j = std::as_const(*k); break;
          case 1: *j = *k; break;  // Not a constant.
          case 2: *j = Json(*k); break;
          case 3: { auto ptr = std::make_unique<Json>(*k); if (src.Bool()) *j = std::as_const(ptr); else *j = ptr; break; }
          default: { const Json c(std::as_const(*k)); *j = c; break; }
        }
        *m = v;
        containers = true;
        break;
      }
      case 5: {  // Moves between pool values.
        const std::size_t q = src.Draw(kPool - 1);
        if (q == p) break;
        PBT_NOTE(step << ": move " << q << " to " << p);
        *j = std::move(pool[q]);
        const M v = model[q];
        *m = v;
        pool[q] = Json();
        model[q] = M{};
        break;
      }
      case 6:
        if (m->kind == M::kArray && !m->arr.empty()) {
          PBT_NOTE(step << ": pop " << p);
          j->pop_back();
          m->arr.pop_back();
        }
        break;
      case 7: {
        if (m->kind != M::kArray) break;
        const std::size_t n = src.Size(0, 6);
        containers = true;
        if (src.Bool()) {
          PBT_NOTE(step << ": resize " << p << " " << n);
          j->resize(n);
          m->arr.resize(n);
        } else {
          const M v = Num(GenInt(src));
          PBT_NOTE(step << ": resize " << p << " " << n << " " << Show(v));
          j->resize(n, std::get<0>(v.num));
          m->arr.resize(n, v);
        }
        break;
      }
      case 8: {  // Erase from arrays.
        if (m->kind != M::kArray || m->arr.empty()) break;
        std::size_t a = src.Draw(m->arr.size()), b = src.Draw(m->arr.size());
        if (a > b) std::swap(a, b);
        PBT_NOTE(step << ": erase " << p << " " << a << ".." << b);
        const auto da = static_cast<std::ptrdiff_t>(a), db = static_cast<std::ptrdiff_t>(b);
        if (b == a + 1 && src.Bool()) {
          if (src.Bool()) { const auto it = j->erase(j->begin() + da); PBT_EQ(it - j->begin(), da); }
          else {
            Json::const_value_iterator pos = std::as_const(*j).values().begin();
            for (std::size_t i = 0; i < a; ++i) ++pos;
            auto it = j->erase(pos);
            PBT_EQ(it == j->values().end(), b == m->arr.size());
          }
        } else if (src.Bool()) {
          const auto it = j->erase(j->begin() + da, j->begin() + db);
          PBT_EQ(it - j->begin(), da);
        } else {
          Json::const_value_iterator first = std::as_const(*j).values().begin(), last = first;
          for (std::size_t i = 0; i < a; ++i) first++;
          for (std::size_t i = 0; i < b; ++i) ++last;
          j->erase(first, last);
        }
        m->arr.erase(m->arr.begin() + da, m->arr.begin() + db);
        break;
      }
      case 9: {  // Erase from objects.
        if (m->kind != M::kObject) break;
        if (src.Bool()) {
          const std::string key = src.Pick(Keys());
          PBT_NOTE(step << ": erase " << p << " " << pbt::Quote(key));
          PBT_EQ(j->erase(key), m->obj.erase(key));
        } else if (!m->obj.empty()) {
          const std::string key = std::next(m->obj.begin(), static_cast<std::ptrdiff_t>(src.Draw(m->obj.size() - 1)))->first;
          PBT_NOTE(step << ": erase at " << p << " " << pbt::Quote(key));
          Json::const_value_iterator pos = std::as_const(*j).values().begin();
          while (&*pos != &std::as_const(*j)[key]) ++pos;
          j->erase(pos);
          m->obj.erase(key);
        }
        break;
      }
      case 10:
        PBT_NOTE(step << ": clear " << p);
        j->clear();
        if (m->kind == M::kArray) m->arr.clear();
        else if (m->kind == M::kObject) m->obj.clear();
        else *m = M{};
        break;
      case 11: {  // Change kind, where that keeps what is there.
        if (m->kind == M::kNull || m->kind == M::kArray) {
          if (src.Bool()) { PBT_NOTE(step << ": MakeArray " << p); PBT_CHECK(&j->MakeArray() == j); m->kind = M::kArray; break; }
        }
        if (m->kind == M::kNull || m->kind == M::kObject) { PBT_NOTE(step << ": MakeObject " << p); PBT_CHECK(&j->MakeObject() == j); m->kind = M::kObject; }
        break;
      }
      case 12: {  // Change through iterators and views.
        const M v = GenScalar(src);
        PBT_NOTE(step << ": fill " << p << " " << Show(v));
        if (m->kind == M::kArray) {
          switch (src.Draw(3)) {
            case 0: for (Json& x : *j) Assign(src, x, v); break;
            case 1: for (Json& x : j->values()) Assign(src, x, v); break;
            case 2: for (Json& x : j->array_values()) Assign(src, x, v); break;
            default: for (auto it = j->rbegin(); it != j->rend(); ++it) Assign(src, *it, v); break;
          }
          for (M& x : m->arr) x = v;
        } else if (m->kind == M::kObject) {
          switch (src.Draw(2)) {
            case 0: for (Json& x : j->values()) Assign(src, x, v); break;
            case 1: for (Json& x : j->property_values()) Assign(src, x, v); break;
            default: for (auto&& [k, x] : j->property_pairs()) Assign(src, x, v); break;
          }
          for (auto& [k, x] : m->obj) x = v;
        }
        break;
      }
      case 13: {  // A property or element that refers to its own container.
        if (m->kind == M::kArray && !m->arr.empty()) {
          const std::size_t i = src.Draw(m->arr.size() - 1);
          PBT_NOTE(step << ": append own element " << p << " " << i);
          const M v = m->arr[i];
          if (src.Bool()) j->push_back((*j)[i]); else j->emplace_back(std::as_const(*j)[i]);
          m->arr.push_back(v);
        } else {
          PBT_NOTE(step << ": assign to itself " << p);
          Json& self = *j;
          if (src.Bool()) *j = self; else *j = std::as_const(self);
        }
        break;
      }
      default: {
        PBT_NOTE(step << ": swap");
        const std::size_t q = src.Draw(kPool - 1);
        if (q != p) { std::swap(pool[p], pool[q]); std::swap(model[p], model[q]); }
        break;
      }
    }
    for (std::size_t i = 0; i < kPool; ++i) Check(pool[i], model[i], "value " + std::to_string(i));
  }
  for (std::size_t i = 0; i < kPool; ++i) {
    if (containers && Nodes(model[i]) >= 3) src.NonTrivial();
    CheckSerialize(pool[i], model[i]);
    for (std::size_t k = 0; k < kPool; ++k) {
      const int want = Order(model[i], model[k]);
      if (want != 2) PBT_EQ(pool[i] <=> pool[k] == std::strong_ordering::equal, want == 0, Show(model[i]) << " and " << Show(model[k]));
    }
  }
}

// The same data, built twice in different ways, is equal; anything else is ordered consistently.
PBT_PROP(order, 60000, 2000000, "two of the values are containers") {
  std::vector<M> ms;
  ms.push_back(GenTree(src, 3));
  for (int i = 0; i < 2; ++i) {
    M m = src.Pick(ms);
    if (src.Chance(1, 4)) m = GenTree(src, 2);
    // A small change somewhere.
    M* at = &m;
    while (src.Chance(2, 3)) {
      if (at->kind == M::kArray && !at->arr.empty()) at = &at->arr[src.Draw(at->arr.size() - 1)];
      else if (at->kind == M::kObject && !at->obj.empty()) at = &std::next(at->obj.begin(), static_cast<std::ptrdiff_t>(src.Draw(at->obj.size() - 1)))->second;
      else break;
    }
    if (src.Chance(2, 3)) {
      if (at->kind == M::kNumber && src.Chance(2, 3)) {
        std::visit([&](auto v) {
          const long double e = static_cast<long double>(v);
          switch (src.Draw(2)) {
            case 0: if (std::abs(e) < 1e18L) *at = Num(static_cast<std::int64_t>(v)); break;
            case 1: if (e >= 0 && e < 1e19L) *at = Num(static_cast<std::uint64_t>(v)); break;
            default: *at = Num(static_cast<double>(v)); break;
          }
        }, M(*at).num);
      } else if (at->kind == M::kArray && src.Bool()) at->arr.push_back(GenScalar(src));
      else if (at->kind == M::kObject && src.Bool()) at->obj[src.Pick(Keys())] = GenScalar(src);
      else *at = GenScalar(src);
    }
    ms.push_back(m);
  }
  std::vector<Json> js(3);
  for (int i = 0; i < 3; ++i) {
    Build(src, js[static_cast<std::size_t>(i)], ms[static_cast<std::size_t>(i)]);
    PBT_NOTE(Show(ms[static_cast<std::size_t>(i)]));
  }
  if (Nodes(ms[0]) > 1 && Nodes(ms[1]) > 1) src.NonTrivial();
  int o[3][3];
  for (std::size_t i = 0; i < 3; ++i) {
    for (std::size_t k = 0; k < 3; ++k) {
      const Json &a = js[i], &b = js[k];
      const auto c = a <=> b;
      o[i][k] = c < 0 ? -1 : c > 0 ? 1 : 0;
      const int want = Order(ms[i], ms[k]);
      if (want == 2) {
        PBT_CHECK(o[i][k] != 0, "different values are equal: " << Show(ms[i]) << " and " << Show(ms[k]));
      } else {
        PBT_EQ(o[i][k], want, Show(ms[i]) << " <=> " << Show(ms[k]));
      }
      PBT_EQ(a == b, o[i][k] == 0, "==");
      PBT_EQ(a != b, o[i][k] != 0, "!=");
      PBT_EQ(a < b, o[i][k] < 0, "<");
      PBT_EQ(a > b, o[i][k] > 0, ">");
      PBT_EQ(a <= b, o[i][k] <= 0, "<=");
      PBT_EQ(a >= b, o[i][k] >= 0, ">=");
    }
  }
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 3; ++k) {
      PBT_EQ(o[i][k], -o[k][i], "antisymmetry");
      for (int l = 0; l < 3; ++l) {
        if (o[i][k] <= 0 && o[k][l] <= 0) PBT_CHECK(o[i][l] <= 0, "not transitive");
        if (o[i][k] == 0) PBT_EQ(o[i][l], o[k][l], "equal values compare differently");
      }
    }
  }
}

// Json values against plain values of all kinds.
PBT_PROP(plain, 100000, 3000000, "same kind, different values") {
  const M a = GenScalar(src), b = GenScalar(src);
  Json j;
  Assign(src, j, a);
  PBT_NOTE(Show(a) << " " << Show(b));
  const int want = Order(a, b);
  if (a.kind == b.kind && want != 0) src.NonTrivial();
  auto cmp = [&](const auto& v) {
    const auto c = j <=> v;
    PBT_EQ(c < 0 ? -1 : c > 0 ? 1 : 0, want, Show(a) << " <=> " << Show(b));
    PBT_EQ(j == v, want == 0, Show(a) << " == " << Show(b));
    PBT_EQ(v == j, want == 0, Show(b) << " == " << Show(a));
    PBT_EQ(j < v, want < 0, Show(a) << " < " << Show(b));
    PBT_EQ(j > v, want > 0, Show(a) << " > " << Show(b));
    PBT_EQ(j >= v, want >= 0, Show(a) << " >= " << Show(b));
  };
  switch (b.kind) {
    case M::kNull: PBT_EQ(j == std::nullopt, want == 0); break;
    case M::kBool: cmp(b.b); break;
    case M::kNumber:
      std::visit([&](auto v) {
        cmp(v);
        if constexpr (std::is_same_v<decltype(v), std::int64_t>) {
          if (v == static_cast<int>(v)) cmp(static_cast<int>(v));
          if (v == static_cast<std::int8_t>(v)) cmp(static_cast<std::int8_t>(v));
        } else if constexpr (std::is_same_v<decltype(v), std::uint64_t>) {
          if (v == static_cast<std::uint16_t>(v)) cmp(static_cast<std::uint16_t>(v));
          if (v == static_cast<unsigned>(v)) cmp(static_cast<unsigned>(v));
        } else if (std::abs(v) < 1e30 && v == static_cast<double>(static_cast<float>(v))) {
          cmp(static_cast<float>(v));
        }
      }, b.num);
      break;
    case M::kString:
      cmp(b.str);
      cmp(std::string_view(b.str));
      break;
    default: break;
  }
}

PBT_PROP(serialize, 50000, 1500000, "at least three values") {
  M m = GenTree(src, 4);
  if (m.kind != M::kObject) {
    M o;
    o.kind = M::kObject;
    o.obj[src.Pick(Keys())] = m;
    o.obj[GenStr(src)] = GenTree(src, 1);
    m = o;
  }
  if (Nodes(m) > 3) src.NonTrivial();
  Json j;
  Build(src, j, m);
  PBT_NOTE(Show(m));
  CheckSerialize(j, m);
}

// What a value cannot do ends the process; it does not corrupt the value.
PBT_PROP(misuse, 400, 6000, "always") {
  src.NonTrivial();
  M m = GenTree(src, 2);
  Json j;
  Build(src, j, m);
  const int op = static_cast<int>(src.Draw(7));
  PBT_NOTE(op << " on " << Show(m));
  bool bad = false;
  const pbt::ChildResult r = pbt::RunChild([&] {
    const Json& c = j;
    switch (op) {
      case 0: (void)c[m.arr.size()].IsNull(); break;
      case 1: (void)c["missing!"].IsNull(); break;
      case 2: j.push_back(1); break;
      case 3: j["x"] = 1; break;
      case 4: (void)(j.begin() == j.end()); break;
      case 5: (void)c.property_names(); break;
      case 6: (void)c.values(); break;
      default: j.resize(3); break;
    }
    _exit(0);
  });
  switch (op) {
    case 0: case 1: bad = true; break;
    case 2: bad = m.kind != M::kNull && m.kind != M::kArray; break;
    case 3: bad = m.kind != M::kNull && m.kind != M::kObject; break;
    case 4: case 7: bad = m.kind != M::kArray; break;
    case 5: bad = m.kind != M::kObject; break;
    default: bad = m.kind != M::kArray && m.kind != M::kObject; break;
  }
  if (bad) PBT_CHECK(r.signaled || (r.exited && r.code != 0), "misuse goes on silently");
  else PBT_CHECK(r.exited && r.code == 0, "valid use failed:\n" << r.out);
}
