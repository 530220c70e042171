// Templates of known meaning for mbo::mope: a document is generated as a tree together with its text, and the
// tree (never the text) is interpreted over a model of the data. Text whose meaning the documentation leaves
// open is not generated, or marked `vague` when that depends on the data.
#ifndef VERIF_MOPE_MODEL_H_
#define VERIF_MOPE_MODEL_H_
#include <climits>
#include <cstdint>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

#include "pbt.h"

namespace mope_model {

struct Dict;
struct Dict {
  std::map<std::string, std::string> values;
  std::map<std::string, std::list<Dict>> sections;
  bool Has(const std::string& n) const { return values.contains(n) || sections.contains(n); }
};
using Ctx = std::map<std::string, std::variant<std::string, int>>;

struct Node {
  enum Kind { kText, kValue, kControl, kSection, kRange, kList, kComment, kBad, kUnclosed } kind = kText;
  std::string name;
  std::string text;              // kText: the text. kControl: the new value.
  std::string start, end, step;  // kRange
  bool has_step = false;
  std::string join;       // as written behind the separator
  std::string join_text;  // what a quoted join means
  enum Join { kNone, kQuoted, kRef, kWrong } join_kind = kNone;
  std::vector<std::string> items;
  std::vector<Node> kids;
};

inline const std::vector<std::string>& ValueNames() {
  static const std::vector<std::string> v = {"a", "b", "foo", "_x", "Foo", "num", "n2"};
  return v;
}
inline const std::vector<std::string>& SectionNames() {
  static const std::vector<std::string> v = {"s", "sec", "s1", "ab", "S"};
  return v;
}
inline const std::vector<std::string>& LoopNames() {
  static const std::vector<std::string> v = {"i", "j", "ii", "k_1"};
  return v;
}
inline const std::vector<std::string>& ContextNames() {
  static const std::vector<std::string> v = {"c", "cc", "C_1", "num3"};
  return v;
}
inline std::string AnyName(pbt::Src& src) {
  switch (src.Draw(3)) {
    case 0: return src.Pick(ValueNames());
    case 1: return src.Pick(SectionNames());
    case 2: return src.Pick(LoopNames());
    default: return src.Pick(ContextNames());
  }
}
// A value: text of any kind, often a number.
inline std::string ValueText(pbt::Src& src) {
  switch (src.Weighted({4, 4, 2, 2, 1, 1})) {
    case 0: return src.Str("xyz", 3);
    case 1: return std::to_string(src.Int(-3, 6));
    case 2: return src.Str("a{}# /=;:\n \t\"'\\,[]", 8);
    case 3: return std::string(src.PickStr({"{{a}}", "{{#s}}", "{{/s}}", "{{c=1}}", "{{", "}}", "\n", "  ", "{{#i=1;3}}x{{/i}}"}));
    case 4: return std::string(src.PickStr({"2147483647", "-2147483648", "99999999999", "2147483646", "x1", "1x", "0"}));
    default: return src.RawBytes(6);
  }
}

// A quoted spelling of `text` that may stand inside of a tag.
inline std::string Quoted(pbt::Src& src, const std::string& text) {
  const char q = src.Bool() ? '\'' : '"';
  std::string r(1, q);
  for (char c : text) {
    if (c == q || c == '\\' || c == '}') {
      r += '\\';
      r += c;
    } else if (c == '\n' && src.Bool()) {
      r += "\\n";
    } else if (c == '\t' && src.Bool()) {
      r += "\\t";
    } else if ((c == ',' || c == '{' || c == '[' || c == ']') && src.Chance(1, 3)) {
      r += '\\';
      r += c;
    } else {
      r += c;
    }
  }
  return r + q;
}

class Maker {
 public:
  // `hint` are the data the document will mostly, but not always, refer to.
  Maker(pbt::Src& src, int max_nodes, const Dict& hint) : src_(src), left_(max_nodes), at_{&hint} {}
  std::vector<Node> Make() {
    std::vector<Node> r = Body(0);
    return r;
  }
  std::string text;

 private:
  enum Line { kFresh, kBlank, kSolid, kOpen };  // what the line so far is known to hold; kOpen: depends on the data

  void Literal(std::vector<Node>& to, std::string_view add) {
    std::string t;
    for (char c : add) {
      if (c == '{' && (t.empty() ? text : t).ends_with('{')) continue;
      if (c == '\n' && t.empty() && no_newline_) t += '.';
      t += c;
    }
    Raw(to, t);
  }
  void Raw(std::vector<Node>& to, const std::string& t) {
    if (t.empty()) return;
    for (char c : t) {
      if (c == '\n') {
        line_ = kFresh;
      } else if (c == ' ' || c == '\t') {
        if (line_ == kFresh) line_ = kBlank;
      } else {
        line_ = kSolid;
      }
    }
    no_newline_ = false;
    text += t;
    Node n;
    n.text = t;
    to.push_back(std::move(n));
  }
  void Text(std::vector<Node>& to) {
    switch (src_.Weighted({4, 3, 2, 2, 1})) {
      case 0: Literal(to, src_.PickStr({"x", "text ", "line\n", "\n", "  ", "a b", "}", "{", "(", "'", "end.\n", "\n\n", "\xC3\xA9"})); break;
      case 1: Literal(to, std::string(src_.PickStr({"foo", ", ", "- "})) + "\n"); break;
      case 2: Literal(to, src_.Str("ab {}#/=;\n\t\\\"", 6)); break;
      case 3:
        Literal(to, " ");
        Raw(to, std::string(src_.PickStr({"{{ a }}", "{{}}", "{{1a}}", "{{/zz}}", "{{#}}", "{{#1}}", "{{a b}}", "{{-}}", "{{foo;b}}", "{{a }}", "{{#s }}", "{{/s", "{{!a}}"})) + " ");
        break;
      default: Literal(to, src_.PickStr({"}}", "}} ", "{{ ", "} }\n"})); break;
    }
  }
  // The name of a value that exists in the data where the tag will be expanded, or of one that may not.
  std::string RefName(bool number) {
    std::vector<std::string> known;
    for (const auto& [k, v] : at_.back()->values) {
      if (!number || (!v.empty() && v.size() < 3 && v.find_first_not_of("-0123456789") == v.npos)) known.push_back(k);
    }
    for (const auto& k : set_) known.push_back(k);
    if (number) known.insert(known.end(), loops_.begin(), loops_.end());
    if (!known.empty() && !src_.Chance(1, 25)) return src_.Pick(known);
    if (!src_.Chance(1, 8)) return number ? "1" : "' '";
    return src_.Bool() ? AnyName(src_) : src_.Pick(number ? std::vector<std::string>{"num", "n2", "num3", "i", "j", "c"} : ValueNames());
  }
  std::string SectionName() {
    std::vector<std::string> known;
    for (const auto& [k, v] : at_.back()->sections) {
      if (!open_.contains(k)) known.push_back(k);
    }
    if (!known.empty() && !src_.Chance(1, 4)) return src_.Pick(known);
    return FreeName(SectionNames());
  }
  std::string FreeName(const std::vector<std::string>& pool) {
    std::string n = src_.Chance(1, 40) ? AnyName(src_) : src_.Pick(pool);
    while (open_.contains(n)) n += "_";
    return n;
  }
  // Emits a section or control tag, maybe on a line of its own.
  bool Tag(const std::string& tag, bool is_end) {
    if (line_ == kFresh && src_.Chance(2, 3)) {
      text += src_.PickStr({"", "  ", "\t", " "});
      text += tag + "\n";
      line_ = kFresh;
      no_newline_ = false;
      return true;
    }
    bool solid = line_ == kSolid;
    if (is_end) {  // What stands before is not yet expanded.
      const auto nl = text.rfind('\n');
      solid = text.find_first_not_of(" \t", nl == text.npos ? 0 : nl + 1) != text.npos;
    }
    text += tag;
    no_newline_ = !solid;
    line_ = kOpen;
    return false;
  }
  void Close(std::vector<Node>& kids, const std::string& name, bool own_line) {
    bool own_end = false;
    if (src_.Chance(own_line ? 5 : 1, 6)) {
      Raw(kids, no_newline_ ? ".\n" : std::string(src_.PickStr({"z\n", ".\n", "}\n"})));
      own_end = Tag("{{/" + name + "}}", true);
    } else {
      if (line_ == kFresh || line_ == kBlank) Raw(kids, ".");
      own_end = Tag("{{/" + name + "}}", true);
    }
    open_.erase(name);
    if (own_end && !own_line) line_ = kOpen;
  }
  void Join(Node& n, char sep, std::string& tag) {
    n.join_kind = static_cast<Node::Join>(src_.Weighted({0, 20, 10, 1}));
    switch (n.join_kind) {
      case Node::kQuoted:
        n.join_text = src_.Chance(1, 2) ? std::string(src_.PickStr({",", ", ", ";", "\n", "", " ", "]", ":", "a"})) : src_.Str(",;\n \"'{}[]\\ab=", 4);
        n.join = Quoted(src_, n.join_text);
        break;
      case Node::kRef:
        n.join = RefName(false);
        if (n.join == "' '") n.join_kind = Node::kQuoted, n.join_text = " ";
        break;
      default: n.join = src_.PickStr({"\"a", "'a", "\"", "'", "\"a\"x", "nowhere", "\"a\"b\"c\"", "'a\"", "\"\\q\"", "1", "a b"}); break;
    }
    tag += sep;
    tag += n.join;
  }
  std::string Number(int lo, int hi) {
    if (src_.Chance(1, 3)) return RefName(true);
    return std::to_string(src_.Int(lo, hi));
  }
  std::vector<Node> Body(int depth) {
    std::vector<Node> r;
    const std::size_t count = src_.Size(depth == 0 ? 1 : 0, depth == 0 ? 8 : 4);
    for (std::size_t k = 0; k < count && left_ > 0; ++k) {
      --left_;
      Node n;
      switch (src_.Weighted({6, 6, 2, depth < 4 ? 4U : 0, depth < 4 ? 3U : 0, depth < 4 ? 2U : 0, 1})) {
        case 0: Text(r); continue;
        case 1:
          n.kind = Node::kValue;
          n.name = src_.Chance(1, 2) ? src_.Pick(ValueNames()) : src_.Chance(3, 4) ? src_.Pick(src_.Bool() ? LoopNames() : ContextNames()) : AnyName(src_);
          text += "{{" + n.name + "}}";
          line_ = kOpen;
          no_newline_ = false;
          break;
        case 2: {
          n.kind = Node::kControl;
          n.name = src_.Chance(1, 30) ? AnyName(src_) : src_.Pick(ContextNames());
          set_.push_back(n.name);
          n.text = src_.Chance(1, 2) ? std::to_string(src_.Int(-3, 6)) : std::string(src_.PickStr({"x", "a b", "a=b", "k:v", "\"q\"", "#", "}x", "{", "[1,2]", "a;b", "{{a"}));
          Tag("{{" + n.name + "=" + n.text + "}}", false);
          break;
        }
        case 3: {
          n.kind = Node::kSection;
          n.name = SectionName();
          std::string tag = "{{#" + n.name;
          if (src_.Chance(1, 2)) Join(n, ':', tag);
          open_.insert(n.name);
          const bool own = Tag(tag + "}}", false);
          const auto sub = at_.back()->sections.find(n.name);
          const bool known = sub != at_.back()->sections.end();
          if (known) at_.push_back(&sub->second.front());
          n.kids = Body(depth + 1);
          if (known) at_.pop_back();
          Close(n.kids, n.name, own);
          break;
        }
        case 4: {
          n.kind = Node::kRange;
          n.name = FreeName(LoopNames());
          auto blank = [&] { return std::string(src_.Chance(1, 6) ? src_.PickStr({" ", "  "}) : std::string_view()); };
          const int near = static_cast<int>(src_.Weighted({8, 1, 1}));
          if (near == 0) {
            n.start = Number(-3, 4);
            n.end = Number(-3, 5);
          } else {
            const int d1 = static_cast<int>(src_.Draw(4)), d2 = static_cast<int>(src_.Draw(4));
            n.start = std::to_string(near == 1 ? INT_MAX - d1 : INT_MIN + d1);
            n.end = std::to_string(near == 1 ? INT_MAX - d2 : INT_MIN + d2);
          }
          if (src_.Chance(1, 40)) (src_.Bool() ? n.start : n.end) = src_.PickStr({"99999999999", "-2147483649", "2147483648"});
          std::string tag = "{{#" + n.name + "=" + blank() + n.start + blank() + ";" + blank() + n.end + blank();
          if (src_.Chance(2, 3)) {
            n.has_step = true;
            n.step = src_.Chance(1, 4) ? "" : src_.Chance(1, 30) ? "0" : src_.Chance(1, 12) ? std::string(src_.PickStr({"2147483647", "-2147483648", "1000000000"})) : Number(-2, 3);
            tag += ";" + blank() + n.step + blank();
            if (src_.Chance(1, 2)) Join(n, ';', tag);
          }
          open_.insert(n.name);
          const bool own = Tag(tag + "}}", false);
          loops_.push_back(n.name);
          n.kids = Body(depth + 1);
          loops_.pop_back();
          if (src_.Bool()) {
            Node v;
            v.kind = Node::kValue;
            v.name = n.name;
            text += "{{" + v.name + "}}";
            line_ = kOpen;
            no_newline_ = false;
            n.kids.push_back(v);
          }
          Close(n.kids, n.name, own);
          break;
        }
        case 5: {
          n.kind = Node::kList;
          n.name = FreeName(LoopNames());
          std::string tag = "{{#" + n.name + "=[";
          const std::size_t items = src_.Size(0, 4);
          for (std::size_t i = 0; i < items; ++i) {
            std::string item = src_.Chance(2, 3) ? src_.Str("xyz12", 3) : src_.Str(",]['\"\\{} a\n;", 4);
            if (i != 0) tag += ",";
            if (item.empty() || src_.Chance(1, 3)) {
              tag += Quoted(src_, item);
            } else {
              for (char c : item) {
                if (std::string_view(",]'\"\\}").find(c) != std::string_view::npos || (std::string_view("{[").find(c) != std::string_view::npos && src_.Bool())) tag += '\\';
                tag += c;
              }
            }
            n.items.push_back(item);
          }
          tag += "]";
          if (src_.Chance(1, 2)) Join(n, ';', tag);
          open_.insert(n.name);
          const bool own = Tag(tag + "}}", false);
          n.kids = Body(depth + 1);
          if (src_.Bool()) {
            Node v;
            v.kind = Node::kValue;
            v.name = n.name;
            text += "{{" + v.name + "}}";
            line_ = kOpen;
            no_newline_ = false;
            n.kids.push_back(v);
          }
          Close(n.kids, n.name, own);
          break;
        }
        default: {
          switch (src_.Weighted({10, 1, 1})) {
            case 0: {
              n.kind = Node::kComment;
              n.name = FreeName({"rem", "a", "s", "i"});
              open_.insert(n.name);
              const bool own = Tag("{{#" + n.name + "=}}", false);
              std::vector<Node> junk;
              if (src_.Bool()) Literal(junk, src_.Str("ab {}#/=;\n", 6));
              if (src_.Bool()) Raw(junk, std::string(no_newline_ ? "." : "") + std::string(src_.PickStr({"{{#q}}", "{{c=1}}", "{{a}}", "{{#i=1;0;0}}", "{{/zz}}", "{{"})) + " ");
              Close(junk, n.name, own);
              break;
            }
            case 1: {
              n.kind = Node::kBad;
              n.name = FreeName(LoopNames());
              open_.insert(n.name);
              const std::string config(src_.PickStr({"unknown", "1", "1;", "1;2;1;'a';b", "[a,b", "[a]x", "1;2;x y", "a b;2", "'a';'b'", "1.5;2", "(a)", "[\\q]", "['a]"}));
              const bool own = Tag("{{#" + n.name + "=" + config + "}}", false);
              n.kids = Body(depth + 1);
              Close(n.kids, n.name, own);
              break;
            }
            default: {
              n.kind = Node::kUnclosed;
              Literal(r, "x");
              text += std::string(src_.PickStr({"{{#uu}}", "{{#uu=1;2}}", "{{#uu=}}", "{{#uu=[a]}}"}));
              line_ = kOpen;
              no_newline_ = true;
              break;
            }
          }
          break;
        }
      }
      r.push_back(std::move(n));
    }
    return r;
  }

  pbt::Src& src_;
  int left_;
  std::vector<const Dict*> at_;
  std::vector<std::string> set_, loops_;
  std::set<std::string> open_;
  Line line_ = kFresh;
  bool no_newline_ = false;
};

// What the documentation says a document expands to.
class Meaning {
 public:
  bool error = false;  // expansion must fail
  bool vague = false;  // nothing is promised
  bool loops = false, sections = false, joins = false;
  std::string Eval(const std::vector<Node>& nodes, const Dict& d, Ctx& ctx) {
    std::string out;
    for (const Node& n : nodes) {
      if (error || vague) return out;
      if (out.size() > 20000) vague = true;
      One(n, d, ctx, out);
    }
    return out;
  }

 private:
  static const std::string* Str(const std::string& n, const Dict& d, const Ctx& ctx) {
    if (auto it = d.values.find(n); it != d.values.end()) return &it->second;
    if (d.sections.contains(n)) return nullptr;
    if (auto it = ctx.find(n); it != ctx.end()) return std::get_if<std::string>(&it->second);
    return nullptr;
  }
  std::string JoinOf(const Node& n, const Dict& d, const Ctx& ctx) {
    if (n.join_kind == Node::kNone) return "";
    if (n.join_kind == Node::kQuoted) return n.join_text;
    if (n.join_kind == Node::kRef) {
      if (const auto* s = Str(n.join, d, ctx)) return *s;
      if (!d.Has(n.join) && ctx.contains(n.join)) vague = true;  // a loop's number
    }
    error = true;
    return "";
  }
  static std::optional<int> ToInt(const std::string& s) {
    std::size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') neg = true, ++i;
    if (i == s.size()) return std::nullopt;
    int64_t v = 0;
    for (; i < s.size(); ++i) {
      if (s[i] < '0' || s[i] > '9') return std::nullopt;
      v = v * 10 + (neg ? -(s[i] - '0') : (s[i] - '0'));
      if (v > INT_MAX || v < INT_MIN) return std::nullopt;
    }
    return static_cast<int>(v);
  }
  int NumberOf(const std::string& s, const Dict& d, const Ctx& ctx) {
    if (auto v = ToInt(s)) return *v;
    if (const auto* t = Str(s, d, ctx)) {
      if (auto v = ToInt(*t)) return *v;
      // Numbers with blanks or a plus may or may not be read.
      if (t->find_first_of("0123456789") != t->npos && t->find_first_not_of("0123456789+- \t\n\v\f\r") == t->npos) {
        if (t->find_first_of("+ \t\n\v\f\r") != t->npos) vague = true;
      }
    } else if (!d.Has(s)) {
      if (auto it = ctx.find(s); it != ctx.end()) return std::get<int>(it->second);
    }
    error = true;
    return 0;
  }
  void One(const Node& n, const Dict& d, Ctx& ctx, std::string& out) {
    switch (n.kind) {
      case Node::kText: out += n.text; return;
      case Node::kValue: {
        if (const auto* s = Str(n.name, d, ctx)) {
          out += *s;
        } else if (d.sections.contains(n.name)) {
          error = true;
        } else if (auto it = ctx.find(n.name); it != ctx.end()) {
          out += std::to_string(std::get<int>(it->second));
        } else {
          out += "{{" + n.name + "}}";
        }
        return;
      }
      case Node::kControl: {
        if (d.Has(n.name)) {
          error = true;
          return;
        }
        auto [it, inserted] = ctx.emplace(n.name, n.text);
        if (!inserted) {
          if (std::holds_alternative<int>(it->second)) {
            error = true;
          } else {
            it->second = n.text;
          }
        }
        return;
      }
      case Node::kSection: {
        auto it = d.sections.find(n.name);
        if (it == d.sections.end()) {
          if (d.values.contains(n.name)) {
            error = true;
          } else if (ctx.contains(n.name) || n.join_kind == Node::kWrong) {
            vague = true;
          } else if (n.join_kind == Node::kRef && !Str(n.join, d, ctx)) {
            vague = true;
          }
          return;
        }
        sections = true;
        const std::string join = JoinOf(n, d, ctx);
        bool first = true;
        for (const Dict& sub : it->second) {
          if (error || vague) return;
          if (!first) out += join, joins = true;
          first = false;
          out += Eval(n.kids, sub, ctx);
        }
        return;
      }
      case Node::kRange: {
        const int start = NumberOf(n.start, d, ctx);
        const int end = NumberOf(n.end, d, ctx);
        const int step = n.step.empty() ? 1 : NumberOf(n.step, d, ctx);
        const std::string join = JoinOf(n, d, ctx);
        if (step == 0) error = true;
        if (error || vague) return;
        if (d.Has(n.name)) {
          vague = true;
          return;
        }
        if (ctx.contains(n.name)) {
          error = true;
          return;
        }
        int count = 0;
        for (int64_t v = start; step > 0 ? v <= end : v >= end; v += step) {
          if (++count > 12) vague = true;
          ctx[n.name] = static_cast<int>(v);
          if (v != start) out += join, joins = true;
          out += Eval(n.kids, d, ctx);
          if (error || vague) return;
          loops = true;
        }
        ctx.erase(n.name);
        return;
      }
      case Node::kList: {
        const std::string join = JoinOf(n, d, ctx);
        if (d.Has(n.name) || ctx.contains(n.name)) error = true;
        if (error || vague) return;
        bool first = true;
        for (const std::string& item : n.items) {
          ctx[n.name] = item;
          if (!first) out += join, joins = true;
          first = false;
          out += Eval(n.kids, d, ctx);
          if (error || vague) return;
          loops = true;
        }
        ctx.erase(n.name);
        return;
      }
      case Node::kComment: return;
      case Node::kBad:
      case Node::kUnclosed: error = true; return;
    }
  }
};

}  // namespace mope_model
#endif
