// T02: stringification of random aggregate values, under every output mode and under
// random options, against a reference renderer over an independent description of the
// value; JSON output is parsed by a strict parser and compared as data.
#include <bit>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/extend.h"
#include "mbo/types/stringify.h"
#include "mbo/types/stringify_ostream.h"
#include "pbt.h"

namespace t02 {

using mbo::types::Stringify;
using mbo::types::StringifyFieldInfo;
using mbo::types::StringifyFieldOptions;
using mbo::types::StringifyOptions;
using mbo::types::StringifyRootOptions;
using SO = StringifyOptions;

// ---------------------------------------------------------------- reference
struct Kid;
struct Node {
  enum Kind { kStruct, kCont, kKeyed, kPair, kStr, kChar, kNum, kPtr, kSmart, kOpt, kNullptrT, kNullPtr, kNullopt, kDisabled, kOther };
  Kind kind = kStruct;
  std::vector<Kid> kids;  // struct fields, elements, keyed entries
  std::string text;                                // string, char, number or other text
  std::string exact;                               // the number with all its digits
  bool no_names = false;                           // struct that never prints names
  // per field options of a customised struct: outer and inner
  std::vector<std::pair<SO, SO>> custom;
  Node();
  Node(const Node&);
  Node(Node&&) noexcept;
  Node& operator=(const Node&);
  ~Node();
};
struct Kid { std::string first; Node second; };
Node::Node() = default;
Node::Node(const Node&) = default;
Node::Node(Node&&) noexcept = default;
Node& Node::operator=(const Node&) = default;
Node::~Node() = default;

bool Special(const Node& n) { return n.kind == Node::kNullPtr || n.kind == Node::kNullptrT || n.kind == Node::kNullopt || n.kind == Node::kDisabled; }

struct Ref {
  const SO& root;
  StringifyRootOptions root_options;
  std::string out;
  std::vector<std::string> levels;

  static std::string JsonEsc(std::string_view v) {
    std::string r;
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c == '\n') r += "\\n";
      else if (c == '\r') r += "\\r";
      else if (c == '\t') r += "\\t";
      else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += static_cast<char>(c);
    }
    return r;
  }
  static std::string Esc(const SO& o, std::string_view v) {
    switch (o.value_control->escape_mode) {
      case SO::EscapeMode::kNone: return std::string(v);
      case SO::EscapeMode::kCEscape: return absl::CEscape(v);
      case SO::EscapeMode::kCHexEscape: return absl::CHexEscape(v);
      case SO::EscapeMode::kJsonEscape: return JsonEsc(v);
    }
    return "";
  }
  void Text(const SO& o, std::string_view v) {
    if (!o.value_overrides->replacement_str.empty()) { out += o.value_overrides->replacement_str; return; }
    const size_t lim = o.value_control->str_max_length;
    out += Esc(o, v.substr(0, std::min(lim, v.size())));
    if (v.size() > lim) out += o.value_control->str_cutoff_suffix;
  }
  void Newline(bool on) {
    if (!on) return;
    out += "\n";
    out += root_options.root_indent;
    for (const auto& l : levels) out += l;
  }
  template<typename F>
  void Block(const SO& o, std::string_view open, std::string_view close, F&& body) {
    out += open;
    levels.emplace_back(o.format->field_indent);
    body(!o.format->field_indent.empty());
    levels.pop_back();
    Newline(!o.format->field_indent.empty());
    out += close;
  }
  bool Hidden(const SO& o, const Node& n) {
    const auto& f = *o.field_control;
    if (f.suppress) return true;
    if (n.kind == Node::kNullPtr || n.kind == Node::kNullptrT) return f.suppress_nullptr;
    if (n.kind == Node::kNullopt) return f.suppress_nullopt;
    if (n.kind == Node::kDisabled) return f.suppress_disabled;
    return false;
  }
  void Key(const SO& outer, const SO& inner, std::string name, size_t idx, bool override_ok) {
    const auto& k = *outer.key_control;
    if (k.key_mode == SO::KeyMode::kNone) return;
    bool have = !override_ok || !name.empty();
    if (override_ok && outer.key_overrides->key_use_name) {
      std::string use;
      const auto& u = *outer.key_overrides->key_use_name;
      if (u.index() == 0) use = std::get<0>(u);
      else if (u.index() == 1) use = "fn" + std::to_string(idx) + name;  // see kNameFn
      if (!use.empty()) { name = use; have = true; }
    }
    (void)inner;
    if (!have) {
      if (k.key_mode != SO::KeyMode::kNumericFallback) return;
      name = std::to_string(idx);
    } else if (outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
      name = JsonEsc(name);
    }
    out += k.key_prefix;
    out += name;
    out += k.key_suffix;
    out += outer.format->key_value_separator;
  }
  // A struct (or pair): fields use their custom options or else the root options.
  // Custom options are completed from the inner options the struct was given.
  void Fields(const SO& sep_opts, const Node& n, bool indent, bool names, const SO* pass_inner) {
    bool first = true;
    for (size_t i = 0; i < n.kids.size(); ++i) {
      const SO outer = n.custom.empty() ? root : SO::WithAllRefs(n.custom[i].first, *pass_inner);
      const SO inner = n.custom.empty() ? root : SO::WithAllRefs(n.custom[i].second, *pass_inner);
      const Node& f = n.kids[i].second;
      if (Hidden(outer, f)) continue;
      if (!first) out += sep_opts.format->field_separator;
      first = false;
      Newline(indent);
      if (names) Key(outer, inner, n.no_names ? "" : n.kids[i].first, i, true);
      Value(outer, inner, f, names);
    }
  }
  void Value(const SO& outer, const SO& inner, const Node& n, bool names) {
    const auto& f = *outer.format;
    const auto& v = *outer.value_control;
    switch (n.kind) {
      case Node::kStruct: {
        const bool nm = !n.no_names || outer.key_control->key_mode == SO::KeyMode::kNumericFallback;
        Block(outer, f.structure_prefix, f.structure_suffix, [&](bool ind) { Fields(outer, n, ind, nm, &inner); });
        return;
      }
      case Node::kPair: {
        Node p = n;
        p.kids[0].first = "first";
        p.kids[1].first = "second";
        if (outer.special->pair_keys) {
          p.kids[0].first = outer.special->pair_keys->first;
          p.kids[1].first = outer.special->pair_keys->second;
        }
        Block(outer, f.structure_prefix, f.structure_suffix, [&](bool ind) { Fields(inner, p, ind, names, &inner); });
        return;
      }
      case Node::kKeyed:
        if (outer.special->str_keyed != SO::StrKeyed::kNormal) {
          auto kids = n.kids;  // pair nodes
          if (kids.size() > v.container_max_len) kids.resize(v.container_max_len);
          if (outer.special->str_keyed == SO::StrKeyed::kFirstIsNameOrdered)
            std::stable_sort(kids.begin(), kids.end(), [](const auto& a, const auto& b) { return a.second.kids[0].second.text < b.second.kids[0].second.text; });
          Block(outer, f.structure_prefix, f.structure_suffix, [&](bool ind) {
            for (size_t i = 0; i < kids.size(); ++i) {
              if (i) out += f.field_separator;
              Newline(ind);
              if (names) Key(outer, inner, kids[i].second.kids[0].second.text, i, false);
              Value(inner, inner, kids[i].second.kids[1].second, names);
            }
          });
          return;
        }
        [[fallthrough]];
      case Node::kCont:
        Block(outer, f.container_prefix, f.container_suffix, [&](bool ind) {
          for (size_t i = 0; i < n.kids.size() && i < v.container_max_len; ++i) {
            if (i) out += f.field_separator;
            Newline(ind);
            Value(inner, inner, n.kids[i].second, names);
          }
        });
        return;
      case Node::kStr:
        out += f.string_delim;
        Text(outer, n.text);
        out += f.string_delim;
        return;
      case Node::kChar:
        if (f.char_delim.empty()) { out += std::to_string(static_cast<int>(n.text[0])); return; }
        out += f.char_delim;
        if (n.text[0] == '\'' && v.escape_mode == SO::EscapeMode::kNone) Text(outer, "\\'");
        else Text(outer, n.text);
        out += f.char_delim;
        return;
      case Node::kNum: out += outer.value_overrides->replacement_other.empty() ? n.text : std::string(outer.value_overrides->replacement_other); return;
      case Node::kOther:
        if (!v.other_types_direct) Text(outer, n.text);
        else out += outer.value_overrides->replacement_other.empty() ? n.text : std::string(outer.value_overrides->replacement_other);
        return;
      case Node::kPtr: out += f.pointer_prefix; Value(inner, inner, n.kids[0].second, names); out += f.pointer_suffix; return;
      case Node::kSmart: out += f.smart_ptr_prefix; Value(inner, inner, n.kids[0].second, names); out += f.smart_ptr_suffix; return;
      case Node::kOpt: out += f.optional_prefix; Value(inner, inner, n.kids[0].second, names); out += f.optional_suffix; return;
      case Node::kNullptrT: out += v.nullptr_t_str; return;
      case Node::kNullPtr: out += v.nullptr_v_str; return;
      case Node::kNullopt: out += v.nullopt_str; return;
      case Node::kDisabled: out += outer.field_control->field_disabled; return;
    }
  }
  static std::string Render(const SO& root, const StringifyRootOptions& ro, const Node& n) {
    Ref r{.root = root, .root_options = ro, .out = "", .levels = {}};
    r.out += ro.root_prefix;
    r.out += root.format->message_prefix;
    r.Value(root, root, n, true);
    r.out += root.format->message_suffix;
    r.out += ro.root_suffix;
    return r.out;
  }
};

// ---------------------------------------------------------------- strict JSON
struct JKid;
struct J {
  enum K { kNull, kBool, kNum, kStr, kArr, kObj } k = kNull;
  std::string s;
  std::vector<JKid> kids;
  J();
  J(const J&);
  J& operator=(const J&);
  ~J();
};
struct JKid { std::string first; J second; };
J::J() = default;
J::J(const J&) = default;
J& J::operator=(const J&) = default;
J::~J() = default;
struct JParse {
  std::string_view t;
  size_t p = 0;
  bool bad = false;
  void Ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
  bool Lit(std::string_view l) { if (t.substr(p, l.size()) != l) return false; p += l.size(); return true; }
  std::string Str() {
    std::string r;
    if (p >= t.size() || t[p] != '"') { bad = true; return r; }
    for (++p; p < t.size() && t[p] != '"'; ++p) {
      if (static_cast<unsigned char>(t[p]) < 32) { bad = true; return r; }
      if (t[p] != '\\') { r += t[p]; continue; }
      if (++p >= t.size()) { bad = true; return r; }
      switch (t[p]) {
        case '"': case '\\': case '/': r += t[p]; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'n': r += '\n'; break;
        case 'r': r += '\r'; break;
        case 't': r += '\t'; break;
        case 'u': {
          if (p + 4 >= t.size()) { bad = true; return r; }
          const long c = std::strtol(std::string(t.substr(p + 1, 4)).c_str(), nullptr, 16);
          for (size_t i = 1; i <= 4; ++i) if (!std::isxdigit(static_cast<unsigned char>(t[p + i]))) { bad = true; return r; }
          p += 4;
          if (c > 127) { bad = true; return r; }  // not needed by the generator
          r += static_cast<char>(c);
          break;
        }
        default: bad = true; return r;
      }
    }
    if (p >= t.size()) { bad = true; return r; }
    ++p;
    return r;
  }
  J Val(int depth = 0) {
    J r;
    Ws();
    if (depth > 60 || p >= t.size()) { bad = true; return r; }
    if (t[p] == '{' || t[p] == '[') {
      const bool obj = t[p] == '{';
      r.k = obj ? J::kObj : J::kArr;
      ++p;
      Ws();
      if (p < t.size() && t[p] == (obj ? '}' : ']')) { ++p; return r; }
      while (!bad) {
        Ws();
        std::string key;
        if (obj) {
          key = Str();
          Ws();
          if (bad || !Lit(":")) { bad = true; return r; }
        }
        r.kids.emplace_back(key, Val(depth + 1));
        Ws();
        if (Lit(",")) continue;
        if (!Lit(obj ? "}" : "]")) bad = true;
        return r;
      }
      return r;
    }
    if (t[p] == '"') { r.k = J::kStr; r.s = Str(); return r; }
    if (Lit("true")) { r.k = J::kBool; r.s = "true"; return r; }
    if (Lit("false")) { r.k = J::kBool; r.s = "false"; return r; }
    if (Lit("null")) return r;
    const size_t b = p;
    if (t[p] == '-') ++p;
    if (p < t.size() && t[p] == '0') ++p;
    else while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) ++p;
    if (p == b || !std::isdigit(static_cast<unsigned char>(t[p - 1]))) { bad = true; return r; }
    if (p < t.size() && t[p] == '.') { ++p; if (p >= t.size() || !std::isdigit(static_cast<unsigned char>(t[p]))) bad = true; while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) ++p; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      ++p;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
      if (p >= t.size() || !std::isdigit(static_cast<unsigned char>(t[p]))) bad = true;
      while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) ++p;
    }
    r.k = J::kNum;
    r.s = std::string(t.substr(b, p - b));
    return r;
  }
};

J Expect(const Node& n, bool ordered) {
  J r;
  const auto field = [&](std::string name, const Node& f) {
    if (!Special(f)) r.kids.emplace_back(std::move(name), Expect(f, ordered));
  };
  switch (n.kind) {
    case Node::kStruct: r.k = J::kObj; for (size_t i = 0; i < n.kids.size(); ++i) field(n.no_names || n.kids[i].first.empty() ? std::to_string(i) : n.kids[i].first, n.kids[i].second); break;
    case Node::kPair: r.k = J::kObj; field("first", n.kids[0].second); field("second", n.kids[1].second); break;
    case Node::kCont: r.k = J::kArr; for (const auto& [_, e] : n.kids) r.kids.emplace_back("", Expect(e, ordered)); break;
    case Node::kKeyed: {
      r.k = J::kObj;
      for (const auto& [_, e] : n.kids) r.kids.emplace_back(e.kids[0].second.text, Expect(e.kids[1].second, ordered));
      if (ordered) std::stable_sort(r.kids.begin(), r.kids.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
      break;
    }
    case Node::kStr: case Node::kChar: r.k = J::kStr; r.s = n.text; break;
    case Node::kNum: r.k = n.text == "true" || n.text == "false" ? J::kBool : J::kNum; r.s = n.exact.empty() ? n.text : n.exact; break;
    case Node::kOther: r.k = J::kNum; r.s = n.text; break;
    case Node::kPtr: case Node::kSmart: case Node::kOpt: return Expect(n.kids[0].second, ordered);
    default: r.k = J::kNull;
  }
  return r;
}
std::string JShow(const J& j) {
  if (j.k == J::kObj || j.k == J::kArr) {
    std::string r = j.k == J::kObj ? "{" : "[";
    for (const auto& [k, v] : j.kids) r += (r.size() > 1 ? "," : "") + (j.k == J::kObj ? pbt::Quote(k) + ":" : "") + JShow(v);
    return r + (j.k == J::kObj ? "}" : "]");
  }
  if (j.k == J::kNum && j.s.find_first_of(".eE") != j.s.npos) {
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", std::strtod(j.s.c_str(), nullptr));
    return b;
  }
  return j.k == J::kStr ? pbt::Quote(j.s) : j.k == J::kNull ? "null" : j.s;
}

// ---------------------------------------------------------------- values
enum class Color { kRed = 0, kBlue = 7 };
struct Small : mbo::types::Extend<Small> { int num; std::string str; };
struct Plain { int a; bool b; double c; };
struct Empty {};
struct Off { using MboTypesStringifyDisable = void; int x; };
struct NoNames : mbo::types::Extend<NoNames> { using MboTypesStringifyDoNotPrintFieldNames = void; int x; std::pair<int, int> y; };
struct Named { using MboTypesStringifySupport = void; int x; std::string y; friend auto MboTypesStringifyFieldNames(const Named&) { return std::array<std::string_view, 2>{"left", "right"}; } };
struct DynNamed { int x; std::vector<int> y; int z; friend std::vector<std::string> MboTypesStringifyFieldNames(const DynNamed& v) { return {"name" + std::to_string(v.x), "elements of the value " + std::to_string(v.y.size())}; } };
class Other { public: Other(int v = 0) : v_(v) {} int v_; template<typename S> friend void AbslStringify(S& s, const Other& o) { s.Append(std::to_string(o.v_)); } };
struct Access { int v; friend const std::vector<int>& MboTypesStringifyValueAccess(const Access& a, const StringifyFieldOptions&) { static thread_local std::vector<int> r; r.assign(static_cast<size_t>(a.v % 4), a.v); return r; } };
struct Conv : mbo::types::Extend<Conv> {
  int a;
  std::string b;
  static std::string MboTypesStringifyConvert(std::size_t idx, const Conv& c, int v) { return "conv" + std::to_string(idx) + ":" + std::to_string(v) + c.b; }
};

using Var = std::variant<int, std::string, Small, std::pair<int, std::string>, std::map<std::string, int>, std::vector<std::pair<int, int>>>;
struct S1 : mbo::types::Extend<S1> { int i; std::string s; bool b; double d; char c; std::string_view v; long long l; unsigned char u; Color e; };
struct S2 {
  std::optional<int> oi; std::optional<std::string> os; std::optional<Small> om; std::unique_ptr<std::string> up; std::shared_ptr<Small> sp; const int* p; const Small* q; std::nullptr_t n; std::optional<std::vector<int>> ov;
};
struct S3 {
  std::vector<int> vi; std::vector<std::string> vs; std::map<std::string, int> msi; std::map<int, std::string> mis; std::set<std::string> ss; std::pair<int, std::string> pis; std::vector<std::pair<std::string, int>> vpsi;
  std::vector<std::pair<int, int>> vpii; std::map<std::string, Small> mss; std::pair<std::optional<int>, std::vector<int>> pov; std::map<std::string, std::map<std::string, int>> mm; std::vector<std::map<std::string, int>> vm; std::array<char, 2> ac;
};
struct S4 {
  Small a; Plain b; Empty c; Off d; NoNames e; Named f; DynNamed g; Var h; std::vector<std::optional<int>> i; std::vector<std::vector<Small>> j; Other k; std::reference_wrapper<const std::string> l; Access m; Conv n; std::map<std::string, Var> o;
  mbo::types::OptionalRef<const int> p; std::vector<std::unique_ptr<int>> q;
};
struct Tree { std::string name; std::vector<std::shared_ptr<Tree>> kids; };

// random values
std::string RStr(pbt::Src& src) {
  static const std::vector<std::string> kAlpha = {"ab", "a'\"\\ /", "x\n\t\r\x01\x1f" "0", "key:,{}[]"};
  return src.Str(src.Pick(kAlpha).c_str(), src.Chance(1, 6) ? 30 : 6);
}
void R(pbt::Src& src, int& v) { v = src.Chance(1, 10) ? static_cast<int>(src.I64()) : src.Int(-9, 99); }
void R(pbt::Src& src, long long& v) { v = src.I64(); }
void R(pbt::Src& src, bool& v) { v = src.Bool(); }
bool g_wild = false;     // Whether doubles need all their digits.
bool g_differs = false;  // Whether one of them did.
void R(pbt::Src& src, double& v) { if (g_wild && src.Bool()) { v = src.Bool() ? std::bit_cast<double>(src.U64()) : static_cast<double>(src.I64()) / 1000; if (!std::isfinite(v)) v = 0.1; return; } v = src.Int(-2000, 2000) / (src.Bool() ? 8.0 : 1.0) * (src.Chance(1, 5) ? 1024 : 1); if (std::abs(v) >= 100000) v = 12.5; }
void R(pbt::Src& src, char& v) { static const std::string k = "ab'\"\\ 0/{"; v = k[src.Draw(k.size() - 1)]; }
void R(pbt::Src& src, unsigned char& v) { char c; R(src, c); v = static_cast<unsigned char>(c); }
void R(pbt::Src& src, Color& v) { v = src.Bool() ? Color::kRed : Color::kBlue; }
void R(pbt::Src& src, std::string& v) { v = RStr(src); }
void R(pbt::Src& src, Small& v) { R(src, v.num); R(src, v.str); }
void R(pbt::Src& src, Plain& v) { R(src, v.a); R(src, v.b); R(src, v.c); }
void R(pbt::Src&, Empty&) {}
void R(pbt::Src& src, Off& v) { R(src, v.x); }
void R(pbt::Src& src, Named& v) { R(src, v.x); R(src, v.y); }
void R(pbt::Src& src, Other& v) { R(src, v.v_); }
void R(pbt::Src& src, Access& v) { v.v = src.Int(0, 9); }
void R(pbt::Src& src, Conv& v) { R(src, v.a); R(src, v.b); }
template<typename A, typename B> void R(pbt::Src& src, std::pair<A, B>& v);
template<typename T> void R(pbt::Src& src, std::optional<T>& v);
template<typename T> void R(pbt::Src& src, std::vector<T>& v);
template<typename K, typename V> void R(pbt::Src& src, std::map<K, V>& v);
template<typename K> void R(pbt::Src& src, std::set<K>& v);
template<typename T> void R(pbt::Src& src, std::unique_ptr<T>& v) { if (src.Chance(1, 3)) { v = nullptr; } else { v = std::make_unique<T>(); R(src, *v); } }
template<typename T> void R(pbt::Src& src, std::vector<T>& v) { v.clear(); const size_t n = src.Draw(3); for (size_t i = 0; i < n; ++i) { T e{}; R(src, e); v.push_back(std::move(e)); } }
template<typename K, typename V> void R(pbt::Src& src, std::map<K, V>& v) { v.clear(); const size_t n = src.Draw(3); for (size_t i = 0; i < n; ++i) { K k{}; R(src, k); R(src, v[k]); } }
template<typename K> void R(pbt::Src& src, std::set<K>& v) { v.clear(); const size_t n = src.Draw(3); for (size_t i = 0; i < n; ++i) { K k{}; R(src, k); v.insert(k); } }
template<typename A, typename B> void R(pbt::Src& src, std::pair<A, B>& v) { R(src, v.first); R(src, v.second); }
template<typename T> void R(pbt::Src& src, std::optional<T>& v) { if (src.Chance(1, 3)) { v.reset(); } else { v.emplace(); R(src, *v); } }
void R(pbt::Src& src, NoNames& v) { R(src, v.x); R(src, v.y); }
void R(pbt::Src& src, DynNamed& v) { R(src, v.x); R(src, v.y); R(src, v.z); }
void R(pbt::Src& src, Var& v) {
  switch (src.Draw(5)) {
    case 0: R(src, v.emplace<0>()); break;
    case 1: R(src, v.emplace<1>()); break;
    case 2: R(src, v.emplace<2>()); break;
    case 3: R(src, v.emplace<3>()); break;
    case 4: R(src, v.emplace<4>()); break;
    default: R(src, v.emplace<5>());
  }
}
// description of values
Node Leaf(Node::Kind k, std::string t = "") { Node n; n.kind = k; n.text = std::move(t); return n; }
Node Wrap(Node::Kind k, Node c) { Node n; n.kind = k; n.kids.emplace_back("", std::move(c)); return n; }
Node N(const int& v) { return Leaf(Node::kNum, std::to_string(v)); }
Node N(const long long& v) { return Leaf(Node::kNum, std::to_string(v)); }
Node N(const bool& v) { return Leaf(Node::kNum, v ? "true" : "false"); }
Node N(const double& v) {
  char b[40], e[40];
  std::snprintf(b, sizeof b, "%g", v);
  std::snprintf(e, sizeof e, "%.17g", v);
  g_differs |= std::strtod(b, nullptr) != v;
  Node n = Leaf(Node::kNum, b);
  n.exact = e;
  return n;
}
Node N(const char& v) { return Leaf(Node::kChar, std::string(1, v)); }
Node N(const unsigned char& v) { return Leaf(Node::kChar, std::string(1, static_cast<char>(v))); }
Node N(const Color& v) { return Leaf(Node::kOther, std::to_string(static_cast<int>(v))); }
Node N(const std::string& v) { return Leaf(Node::kStr, v); }
Node N(const std::string_view& v) { return Leaf(Node::kStr, std::string(v)); }
Node N(const std::nullptr_t&) { return Leaf(Node::kNullptrT); }
Node N(const Other& v) { return Leaf(Node::kOther, std::to_string(v.v_)); }
Node N(const Small& v);
Node N(const Plain& v);
Node N(const NoNames& v);
Node N(const Named& v);
Node N(const DynNamed& v);
Node N(const Conv& v);
Node N(const Var& v);
Node N(const Access& v) { Node n; n.kind = Node::kCont; for (int i = 0; i < v.v % 4; ++i) n.kids.emplace_back("", N(v.v)); return n; }
template<typename A, typename B> Node N(const std::pair<A, B>& v);
template<typename C> requires requires(const C& c) { c.begin(); typename C::value_type; } && (!std::is_same_v<C, std::string> && !std::is_same_v<C, std::string_view>)
Node N(const C& v);
Node N(const Empty&) { return {}; }
Node N(const Off&) { return Leaf(Node::kDisabled); }
template<typename T> Node N(const std::optional<T>& v) { return v ? Wrap(Node::kOpt, N(*v)) : Leaf(Node::kNullopt); }
template<typename T> Node N(const std::unique_ptr<T>& v) { return v ? Wrap(Node::kSmart, N(*v)) : Leaf(Node::kNullPtr); }
template<typename T> Node N(const std::shared_ptr<T>& v) { return v ? Wrap(Node::kSmart, N(*v)) : Leaf(Node::kNullPtr); }
template<typename T> requires(!std::is_same_v<T, char>) Node N(const T* v) { return v ? Wrap(Node::kPtr, N(*v)) : Leaf(Node::kNullPtr); }
template<typename T> Node N(const std::reference_wrapper<T>& v) { return N(v.get()); }
template<typename A, typename B> Node N(const std::pair<A, B>& v) { Node n; n.kind = Node::kPair; n.kids.emplace_back("first", N(v.first)); n.kids.emplace_back("second", N(v.second)); return n; }
template<typename C> requires requires(const C& c) { c.begin(); typename C::value_type; } && (!std::is_same_v<C, std::string> && !std::is_same_v<C, std::string_view>)
Node N(const C& v) {
  Node n;
  n.kind = Node::kCont;
  if constexpr (requires(const typename C::value_type& e) { { e.first } -> std::convertible_to<std::string_view>; e.second; }) n.kind = Node::kKeyed;
  for (const auto& e : v) n.kids.emplace_back("", N(e));
  return n;
}
template<typename... T> Node St(std::vector<std::string> names, const T&... f) {
  Node n;
  size_t i = 0;
  ((n.kids.emplace_back(i < names.size() ? names[i] : "", N(f)), ++i), ...);
  return n;
}
Node N(const Small& v) { return St({"num", "str"}, v.num, v.str); }
Node N(const Plain& v) { return St({"a", "b", "c"}, v.a, v.b, v.c); }
Node N(const NoNames& v) { Node n = St({}, v.x, v.y); n.no_names = true; return n; }
Node N(const Named& v) { return St({"left", "right"}, v.x, v.y); }
Node N(const DynNamed& v) { return St({"name" + std::to_string(v.x), "elements of the value " + std::to_string(v.y.size())}, v.x, v.y, v.z); }
Node N(const Conv& v) { return St({"a", "b"}, "conv0:" + std::to_string(v.a) + v.b, v.b); }
Node N(const Var& v) { return std::visit([](const auto& a) { return N(a); }, v); }
Node N(const S1& v) { return St({"i", "s", "b", "d", "c", "v", "l", "u", "e"}, v.i, v.s, v.b, v.d, v.c, v.v, v.l, v.u, v.e); }
Node N(const S2& v) { return St({"oi", "os", "om", "up", "sp", "p", "q", "n", "ov"}, v.oi, v.os, v.om, v.up, v.sp, v.p, v.q, v.n, v.ov); }
Node N(const S3& v) { return St({"vi", "vs", "msi", "mis", "ss", "pis", "vpsi", "vpii", "mss", "pov", "mm", "vm", "ac"}, v.vi, v.vs, v.msi, v.mis, v.ss, v.pis, v.vpsi, v.vpii, v.mss, v.pov, v.mm, v.vm, v.ac); }
Node NRef(const mbo::types::OptionalRef<const int>& v) { return v.has_value() ? N(*v) : Leaf(Node::kNullopt); }
Node N(const S4& v) {
  Node n = St({"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o"}, v.a, v.b, v.c, v.d, v.e, v.f, v.g, v.h, v.i, v.j, v.k, v.l, v.m, v.n, v.o);
  n.kids.emplace_back("p", NRef(v.p));
  n.kids.emplace_back("q", N(v.q));
  return n;
}
Node N(const Tree& v) { return St({"name", "kids"}, v.name, v.kids); }

// ---------------------------------------------------------------- random options
struct NameFn { static std::string_view Fn(const StringifyFieldInfo& f) { static thread_local std::string r; r = "fn" + std::to_string(f.idx) + std::string(f.name); return r; } };
const mbo::types::StringifyFieldInfoString kNameFn{NameFn::Fn};

std::string_view P(pbt::Src& src, std::initializer_list<std::string_view> l) { return l.begin()[src.Draw(l.size() - 1)]; }
SO::Format RFormat(pbt::Src& src, const SO& base) {
  SO::Format f = *base.format;
  if (src.Chance(1, 4)) { f.message_prefix = P(src, {"", "<<"}); f.message_suffix = P(src, {"", ">>\n"}); }
  if (src.Chance(1, 3)) f.field_indent = P(src, {"", " ", "\t", "    "});
  if (src.Chance(1, 4)) f.key_value_separator = P(src, {"=", " => ", ""});
  if (src.Chance(1, 4)) f.field_separator = P(src, {";", "", " | "});
  if (src.Chance(1, 4)) { f.pointer_prefix = "&("; f.pointer_suffix = ")"; }
  if (src.Chance(1, 4)) { f.smart_ptr_prefix = "sp<"; f.smart_ptr_suffix = ">"; }
  if (src.Chance(1, 4)) { f.optional_prefix = "o["; f.optional_suffix = "]"; }
  if (src.Chance(1, 4)) { f.structure_prefix = "S("; f.structure_suffix = ")S"; }
  if (src.Chance(1, 4)) { f.container_prefix = "C["; f.container_suffix = "]C"; }
  if (src.Chance(1, 4)) f.char_delim = P(src, {"", "`", "\""});
  if (src.Chance(1, 4)) f.string_delim = P(src, {"", "'", "$$"});
  return f;
}
SO::FieldControl RField(pbt::Src& src, const SO& base) {
  SO::FieldControl f = *base.field_control;
  f.suppress = src.Chance(1, 8);
  f.suppress_nullptr = src.Bool();
  f.suppress_nullopt = src.Bool();
  f.suppress_disabled = src.Bool();
  f.field_disabled = P(src, {"{}", "<off>"});
  return f;
}
SO::KeyControl RKey(pbt::Src& src) {
  SO::KeyControl k;
  k.key_mode = static_cast<SO::KeyMode>(src.Draw(2));
  k.key_prefix = P(src, {".", "", "\"", "k_"});
  k.key_suffix = P(src, {"", "\"", "_k"});
  return k;
}
SO::KeyOverrides RKeyOver(pbt::Src& src) {
  SO::KeyOverrides k;
  switch (src.Draw(4)) {
    case 0: k.key_use_name = std::string_view("forced"); break;
    case 1: k.key_use_name = std::string_view(""); break;
    case 2: k.key_use_name = &kNameFn; break;
    default: break;
  }
  return k;
}
SO::ValueControl RVal(pbt::Src& src) {
  SO::ValueControl v;
  v.other_types_direct = src.Bool();
  v.escape_mode = static_cast<SO::EscapeMode>(src.Draw(3));
  v.nullptr_t_str = P(src, {"nil_t", "std::nullptr_t"});
  v.nullptr_v_str = P(src, {"nil", "<nullptr>"});
  v.nullopt_str = P(src, {"nope", "std::nullopt"});
  if (src.Chance(1, 2)) v.container_max_len = src.Draw(3);
  if (src.Chance(1, 2)) v.str_max_length = src.Draw(6);
  v.str_cutoff_suffix = P(src, {"...", "", "[cut]"});
  return v;
}
SO::ValueOverrides ROver(pbt::Src& src) {
  SO::ValueOverrides v;
  if (src.Chance(1, 3)) v.replacement_str = "<str>";
  if (src.Chance(1, 3)) v.replacement_other = "<other>";
  return v;
}
SO::Special RSpecial(pbt::Src& src) {
  SO::Special s;
  s.str_keyed = static_cast<SO::StrKeyed>(src.Draw(2));
  if (src.Chance(1, 3)) s.pair_keys = std::pair<std::string_view, std::string_view>{"1st", "2nd"};
  if (src.Chance(1, 5)) s.pair_keys = std::nullopt;
  return s;
}
constexpr Stringify::OutputMode kModes[] = {Stringify::OutputMode::kDefault, Stringify::OutputMode::kCpp, Stringify::OutputMode::kCppPretty, Stringify::OutputMode::kJson, Stringify::OutputMode::kJsonLine, Stringify::OutputMode::kJsonPretty};

SO ROptions(pbt::Src& src, bool sparse) {
  const SO& base = Stringify::OptionsAs(kModes[src.Draw(5)]);
  SO o;
  if (!sparse) o = base;
  if (src.Chance(1, 2)) o.format.as_data() = RFormat(src, base);
  if (src.Chance(1, 3)) o.field_control.as_data() = RField(src, base);
  if (src.Chance(1, 3)) o.key_control.as_data() = RKey(src);
  if (src.Chance(1, 4)) o.key_overrides.as_data() = RKeyOver(src);
  if (src.Chance(1, 2)) o.value_control.as_data() = RVal(src);
  if (src.Chance(1, 4)) o.value_overrides.as_data() = ROver(src);
  if (src.Chance(1, 3)) o.special.as_data() = RSpecial(src);
  if (!sparse) o = SO::WithAllData(std::move(o), base);
  return o;
}

// ---------------------------------------------------------------- drawing roots
struct Pool {
  std::string text, view;
  int num = 0;
  Small small;
};
template<typename F>
void WithValue(pbt::Src& src, F&& fn) {
  Pool pool;
  switch (src.Draw(9)) {
    case 0: { S1 v; R(src, v.i); R(src, v.s); R(src, v.b); R(src, v.d); R(src, v.c); R(src, pool.view); v.v = pool.view; R(src, v.l); R(src, v.u); R(src, v.e); src.Label("scalars"); fn(v); return; }
    case 1: case 2: {
      S2 v; R(src, v.oi); R(src, v.os); R(src, v.om); R(src, v.up);
      if (src.Bool()) { v.sp = std::make_shared<Small>(); R(src, *v.sp); }
      R(src, pool.num); R(src, pool.small);
      v.p = src.Bool() ? &pool.num : nullptr;
      v.q = src.Bool() ? &pool.small : nullptr;
      v.n = nullptr;
      R(src, v.ov);
      src.Label("holders");
      fn(v);
      return;
    }
    case 3: case 4: {
      S3 v; R(src, v.vi); R(src, v.vs); R(src, v.msi); R(src, v.mis); R(src, v.ss); R(src, v.pis);
      std::map<std::string, int> uniq; R(src, uniq);  // unique keys, any order
      for (auto& e : uniq) v.vpsi.insert(v.vpsi.begin() + static_cast<std::ptrdiff_t>(src.Draw(v.vpsi.size())), {e.first, e.second});
      R(src, v.vpii); R(src, v.mss); R(src, v.pov); R(src, v.mm); R(src, v.vm); R(src, v.ac[0]); R(src, v.ac[1]);
      src.Label("containers");
      fn(v);
      return;
    }
    case 5: case 6: {
      R(src, pool.text); R(src, pool.num);
      S4 v{.l = pool.text};
      R(src, v.a); R(src, v.b); R(src, v.d); R(src, v.e); R(src, v.f); R(src, v.g); R(src, v.h); R(src, v.i); R(src, v.j); R(src, v.k); R(src, v.m); R(src, v.n); R(src, v.o);
      v.p.set_ref(pool.num);  // an empty one prints as nullopt without being suppressed: not specified
      R(src, v.q);
      src.Label("nested");
      fn(v);
      return;
    }
    case 7: {
      const std::function<std::shared_ptr<Tree>(int)> make = [&](int d) {
        auto t = std::make_shared<Tree>();
        R(src, t->name);
        const size_t n = d > 4 ? 0 : src.Draw(2);
        for (size_t i = 0; i < n; ++i) t->kids.push_back(src.Chance(1, 8) ? nullptr : make(d + 1));
        return t;
      };
      const auto t = make(0);
      src.Label("tree");
      fn(*t);
      return;
    }
    case 8: { Empty e; src.Label("empty"); fn(e); return; }
    default: { std::map<std::string, Small> m; R(src, m); src.Label("keyed root"); fn(m); return; }
  }
}

bool HasDisabledElement(const Node& n, bool in_struct) {
  if (n.kind == Node::kDisabled && !in_struct) return true;
  for (const auto& [_, k] : n.kids) if (HasDisabledElement(k, n.kind == Node::kStruct || n.kind == Node::kPair)) return true;
  return false;
}

PBT_PROP(modes, 4000, 100000, "the value has a non-scalar field or a string that needs escaping") {
  g_wild = src.Chance(1, 3);
  g_differs = false;
  WithValue(src, [&](const auto& v) {
    g_wild = false;
    const Node n = N(v);
    bool rich = false;
    for (const auto& [_, k] : n.kids) rich |= !k.kids.empty() || (k.kind == Node::kStr && Ref::JsonEsc(k.text) != k.text);
    if (rich) src.NonTrivial();
    for (const auto mode : kModes) {
      const SO& o = Stringify::OptionsAs(mode);
      const Stringify s(mode);
      const std::string got = s.ToString(v);
      PBT_NOTE("mode " << static_cast<int>(mode) << ": " << got);
      const bool json = mode == Stringify::OutputMode::kJson || mode == Stringify::OutputMode::kJsonLine || mode == Stringify::OutputMode::kJsonPretty;
      // How JSON modes write numbers that need more digits is not specified, but that they denote the same data.
      if (!json || !g_differs) PBT_EQ(got, Ref::Render(o, {}, n), "mode " << static_cast<int>(mode));
      std::ostringstream os;
      s.Stream(os, v);
      PBT_EQ(os.str(), got);
      PBT_EQ(Stringify(o).ToString(v), got, "equal values produce equal text");
      if (json) {
        JParse p{.t = got};
        const J j = p.Val();
        p.Ws();
        PBT_CHECK(!p.bad && p.p == got.size(), "invalid JSON near offset " << p.p << ": " << got);
        PBT_EQ(got.back(), '\n');
        PBT_EQ(JShow(j), JShow(Expect(n, mode == Stringify::OutputMode::kJsonPretty)), "mode " << static_cast<int>(mode));
        if (mode != Stringify::OutputMode::kJsonPretty) PBT_EQ(got.find('\n'), got.size() - 1);
      }
    }
    PBT_EQ(Stringify::AsCpp().ToString(v), Stringify(Stringify::OutputMode::kCpp).ToString(v));
    PBT_EQ(Stringify::AsCppPretty().ToString(v), Stringify(Stringify::OutputMode::kCppPretty).ToString(v));
    PBT_EQ(Stringify::AsJson().ToString(v), Stringify(Stringify::OutputMode::kJson).ToString(v));
    PBT_EQ(Stringify::AsJsonLine().ToString(v), Stringify(Stringify::OutputMode::kJsonLine).ToString(v));
    PBT_EQ(Stringify::AsJsonPretty().ToString(v), Stringify(Stringify::OutputMode::kJsonPretty).ToString(v));
    PBT_EQ(Stringify().ToString(v), Stringify(Stringify::OutputMode::kDefault).ToString(v));
    // every field disabled: only the outer brackets remain
    if constexpr (!requires { v.begin(); }) PBT_EQ(Stringify(Stringify::OptionsDisabled()).ToString(v), "{}");
  });
}

PBT_PROP(options, 6000, 150000, "some option differs from its default and the value has fields") {
  const SO o = ROptions(src, false);
  const StringifyRootOptions ro{.root_prefix = P(src, {"", "", "P:"}), .root_suffix = P(src, {"", "", ":S"}), .root_indent = P(src, {"", "", "  ", ">"})};
  WithValue(src, [&](const auto& v) {
    const Node n = N(v);
    if (!n.kids.empty()) src.NonTrivial();
    const std::string want = Ref::Render(o, ro, n);
    PBT_NOTE(want);
    PBT_EQ(Stringify(o, ro).ToString(v), want);
    PBT_EQ(Stringify(o).ToString(v, ro), want, "root options given at the call");
  });
}

// Per-field options. Field kinds are leaves and containers of leaves.
struct CustomState {
  std::vector<std::pair<SO, SO>> by_field;
  bool two = false;
};
CustomState g_custom;
struct Cust {
  int i; std::string s; std::vector<std::string> vs; std::optional<int> o; std::map<std::string, int> m; char c; const std::string* p; std::vector<std::vector<int>> vv;
  friend SO MboTypesStringifyOptions(const Cust&, const StringifyFieldInfo& f) { return g_custom.by_field[f.idx].first; }
};
struct CustRef {
  int i; std::string s; std::vector<std::string> vs; std::optional<int> o; std::map<std::string, int> m; char c; const std::string* p; std::vector<std::vector<int>> vv;
  friend const SO& MboTypesStringifyOptions(const CustRef&, const StringifyFieldInfo& f) { return g_custom.by_field[f.idx].first; }
};
struct CustTwo {
  int i; std::string s; std::vector<std::string> vs; std::optional<int> o; std::map<std::string, int> m; char c; const std::string* p; std::vector<std::vector<int>> vv;
  friend StringifyFieldOptions MboTypesStringifyOptions(const CustTwo&, const StringifyFieldInfo& f) { const auto& [a, b] = g_custom.by_field[f.idx]; return {a, b}; }
};
std::vector<std::pair<SO, SO>> g_nest;
template<typename T>
struct Nest {
  T one; int x; std::vector<T> many;
  friend StringifyFieldOptions MboTypesStringifyOptions(const Nest&, const StringifyFieldInfo& f) { const auto& [a, b] = g_nest[f.idx]; return {a, b}; }
};
template<typename T>
void RunCustom(pbt::Src& src, const SO& root, bool two) {
  T v;
  std::string text;
  R(src, v.i); R(src, v.s); R(src, v.vs); R(src, v.o); R(src, v.m); R(src, v.c); R(src, text); R(src, v.vv);
  v.p = src.Bool() ? &text : nullptr;
  Node n = St({"i", "s", "vs", "o", "m", "c", "p", "vv"}, v.i, v.s, v.vs, v.o, v.m, v.c, v.p, v.vv);
  g_custom.by_field.clear();
  for (size_t i = 0; i < n.kids.size(); ++i) {
    SO a = ROptions(src, !src.Chance(1, 3));
    SO b = two ? ROptions(src, !src.Chance(1, 3)) : a;
    g_custom.by_field.emplace_back(a, b);
  }
  n.custom = g_custom.by_field;
  if (src.Bool()) {
    const std::string want = Ref::Render(root, {}, n);
    PBT_NOTE(want);
    PBT_EQ(Stringify(root).ToString(v), want);
    return;
  }
  // the same struct inside a customised one (and inside a container there)
  src.Label("nested");
  Nest<T> w{.one = v, .x = 1, .many = {v}};
  Node nn = St({"one", "x"}, 0, w.x);
  nn.kids[0].second = n;
  Node cont;
  cont.kind = Node::kCont;
  cont.kids.emplace_back("", n);
  nn.kids.emplace_back("many", cont);
  g_nest.clear();
  for (int i = 0; i < 3; ++i) g_nest.emplace_back(ROptions(src, src.Bool()), ROptions(src, src.Bool()));
  nn.custom = g_nest;
  const std::string want = Ref::Render(root, {}, nn);
  PBT_NOTE(want);
  PBT_EQ(Stringify(root).ToString(w), want);
}
PBT_PROP(field_options, 4000, 100000, "always (random options for each of eight fields)") {
  src.NonTrivial();
  const SO root = ROptions(src, false);
  switch (src.Draw(2)) {
    case 0: src.Label("by value"); RunCustom<Cust>(src, root, false); break;
    case 1: src.Label("by reference"); RunCustom<CustRef>(src, root, false); break;
    default: src.Label("outer and inner"); RunCustom<CustTwo>(src, root, true);
  }
}

// Names injected through StringifyWithFieldNames.
struct Inject {
  int a; std::string b; int c;
  friend SO MboTypesStringifyOptions(const Inject& v, const StringifyFieldInfo& f) {
    static const std::vector<std::string_view> names{"one", "two"};
    return mbo::types::StringifyWithFieldNames(names, mbo::types::StringifyNameHandling::kOverwrite)(v, f);
  }
};
struct Verify {
  int a; std::string b;
  friend SO MboTypesStringifyOptions(const Verify& v, const StringifyFieldInfo& f) {
    static const std::vector<std::string_view> names{"a", "b"};
    return mbo::types::StringifyWithFieldNames(names)(v, f);
  }
};
PBT_PROP(names_and_streams, 2000, 20000, "always (random field values)") {
  src.NonTrivial();
  const auto mode = kModes[src.Draw(5)];
  const SO& o = Stringify::OptionsAs(mode);
  Inject v{};
  R(src, v.a); R(src, v.b); R(src, v.c);
  PBT_EQ(Stringify(mode).ToString(v), Ref::Render(o, {}, St({"one", "two", "c"}, v.a, v.b, v.c)));
  Verify w{};
  R(src, w.a); R(src, w.b);
  PBT_EQ(Stringify(mode).ToString(w), Ref::Render(o, {}, St({"a", "b"}, w.a, w.b)));
  // global stream support
  Named m{};
  R(src, m);
  mbo::types::SetStringifyOstreamOutputMode(mode);
  std::ostringstream os;
  os << m;
  PBT_EQ(os.str(), Ref::Render(o, {}, N(m)));
  const SO ro = ROptions(src, false);
  mbo::types::SetStringifyOstreamOptions(ro);
  std::ostringstream os2;
  os2 << m << "|" << m;
  PBT_EQ(os2.str(), Ref::Render(ro, {}, N(m)) + "|" + Ref::Render(ro, {}, N(m)));
  mbo::types::SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);
}

}  // namespace t02
