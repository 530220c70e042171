// Reference for mbo::strings::ParseString and ParseStringList, written from the
// documentation: a state machine over single characters that knows nothing of
// the implementation.
#ifndef VERIF_REF_PARSE_H_
#define VERIF_REF_PARSE_H_
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref {
struct ParseOpts {
  std::string stop_any, stop_str, split;
  bool dq = true, sq = true, remove = true, unquoted = true;
  std::string custom = "(){}[]<>,;&";
};
enum class Err { kNone, kInvalid, kUnimplemented };
struct Parsed {
  Err err = Err::kNone;
  std::string text;
  size_t used = 0;       // where parsing stopped
  bool vague = false;    // the documentation does not say what the result is
  bool escaped = false;
};
inline bool In(const std::string& set, char c) { return set.find(c) != std::string::npos; }
inline bool StopsAt(const ParseOpts& o, std::string_view rest) {
  return !rest.empty() && (In(o.stop_any, rest[0]) || (!o.stop_str.empty() && rest.substr(0, o.stop_str.size()) == o.stop_str));
}
inline int Oct(char c) { return c >= '0' && c <= '7' ? c - '0' : -1; }
inline int Hex(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
// An escape at in[i] (behind the backslash). Moves i behind it.
inline Err Escape(const ParseOpts& o, std::string_view in, size_t& i, std::string& out, bool& vague) {
  if (i >= in.size()) return Err::kInvalid;
  char c = in[i++];
  if (In(o.custom, c)) { out += c; return Err::kNone; }
  static const std::string from = "'\"?\\abfnrtv", to = "'\"?\\\a\b\f\n\r\t\v";
  if (size_t p = from.find(c); p != std::string::npos) { out += to[p]; return Err::kNone; }
  if (c == 'u' || c == 'U' || c == 'N') return Err::kUnimplemented;
  int base = 0, digits = 0, v = 0;
  bool braces = false;
  if (c == 'o') {
    base = 8;
    if (i >= in.size() || in[i] != '{') return Err::kInvalid;
    braces = true;
    ++i;
  } else if (c == 'x') {
    base = 16;
    if (i < in.size() && in[i] == '{') { braces = true; ++i; }
  } else if (Oct(c) >= 0) {
    base = 8;
    --i;
  } else {
    return Err::kInvalid;
  }
  const int most = base == 8 ? 3 : 2;
  while (digits < most && i < in.size()) {
    int d = base == 8 ? Oct(in[i]) : Hex(in[i]);
    if (d < 0) break;
    v = v * base + d;
    ++digits;
    ++i;
  }
  if (digits == 0) return Err::kInvalid;
  if (braces) {
    if (i >= in.size() || in[i] != '}') return Err::kInvalid;
    ++i;
  }
  if (v > 255) vague = true;  // more than 8 bit
  out += static_cast<char>(v & 255);
  return Err::kNone;
}
inline Parsed Parse(const ParseOpts& o, std::string_view in) {
  Parsed r;
  char quote = 0;
  size_t i = 0;
  auto quotes = [&](char c) { return (c == '"' && o.dq) || (c == '\'' && o.sq); };
  while (i < in.size()) {
    char c = in[i];
    if (!quote) {
      if (StopsAt(o, in.substr(i)) || In(o.split, c) || (!o.unquoted && !quotes(c))) { r.used = i; return r; }
    }
    ++i;
    if (c == '\\') {
      r.escaped = true;
      r.err = Escape(o, in, i, r.text, r.vague);
      if (r.err != Err::kNone) return r;
    } else if (quote ? c == quote : quotes(c)) {
      quote = quote ? 0 : c;
      if (!o.remove) r.text += c;
    } else {
      r.text += c;
    }
  }
  r.used = i;
  if (quote) r.err = Err::kInvalid;
  return r;
}
struct ParsedList {
  Err err = Err::kNone;
  std::vector<std::string> items;
  size_t used = 0;
  bool vague = false;
};
inline ParsedList ParseList(ParseOpts o, std::string_view in) {
  if (o.split.empty()) o.split = ",";
  ParsedList r;
  if (in.empty() || StopsAt(o, in)) return r;
  while (true) {
    Parsed p = Parse(o, in.substr(r.used));
    r.vague = r.vague || p.vague;
    if (p.err != Err::kNone) { r.err = p.err; return r; }
    r.items.push_back(p.text);
    r.used += p.used;
    std::string_view rest = in.substr(r.used);
    if (rest.empty() || StopsAt(o, rest) || !In(o.split, rest[0])) {
      // Nothing was there to begin with: neither "no item" nor "an empty item" is documented.
      if (r.used == 0) r.vague = true;
      return r;
    }
    ++r.used;
  }
}
}  // namespace ref
#endif
