// S01: ParseString and ParseStringList against a reference and by round-trip.
#include <string>
#include <string_view>
#include <vector>

#include "mbo/strings/parse.h"
#include "pbt.h"
#include "ref_parse.h"
namespace ms = mbo::strings;

namespace {
using S = std::string;
using SV = std::string_view;
ms::ParseOptions ToReal(const ref::ParseOpts& o) {
  ms::ParseOptions r;
  r.stop_at_any_of = o.stop_any;
  r.stop_at_str = o.stop_str;
  r.split_at_any_of = o.split;
  r.enable_double_quotes = o.dq;
  r.enable_single_quotes = o.sq;
  r.remove_quotes = o.remove;
  r.allow_unquoted = o.unquoted;
  r.custom_escapes = o.custom;
  return r;
}
S Show(const ref::ParseOpts& o) {
  return "stop_at_any_of=" + pbt::Quote(o.stop_any) + " stop_at_str=" + pbt::Quote(o.stop_str) + " split_at_any_of=" + pbt::Quote(o.split) + (o.dq ? " dq" : "") + (o.sq ? " sq" : "")
         + (o.remove ? " remove_quotes" : "") + (o.unquoted ? " allow_unquoted" : "") + " custom=" + pbt::Quote(o.custom);
}
const S kChars = "ab,;.:/\\\"' xou07{}()#4";
ref::ParseOpts Opts(pbt::Src& src) {
  ref::ParseOpts o;
  auto few = [&](const S& from) { S r; for (size_t i = 0, n = src.Draw(2); i < n; ++i) r += src.Chance(1, 12) ? char(src.Draw(255)) : from[src.Draw(from.size() - 1)]; return r; };
  if (src.Bool()) o.stop_any = few(".:#;}a");
  if (src.Chance(1, 3)) o.stop_str = few("/#.ab");
  if (src.Bool()) o.split = few(",;.b");
  if (src.Chance(1, 4)) o.dq = false;
  if (src.Chance(1, 4)) o.sq = false;
  if (src.Chance(1, 4)) o.remove = false;
  if (src.Chance(1, 4)) o.unquoted = false;
  if (src.Chance(1, 4)) o.custom = few("xno0'\"\\,(");
  return o;
}
S Input(pbt::Src& src, const ref::ParseOpts& o) {
  S r;
  for (size_t i = 0, n = src.Size(0, 14); i < n; ++i) {
    switch (src.Draw(9)) {
      case 0: case 1: case 2: r += kChars[src.Draw(kChars.size() - 1)]; break;
      case 3: r += char(src.Draw(255)); break;
      case 4: r += '\\'; r += "'\"?\\abfnrtv"[src.Draw(10)]; break;
      case 5: { r += '\\'; for (size_t k = 1 + src.Draw(3); k--;) r += char('0' + src.Draw(7)); break; }
      case 6: { r += "\\x"; bool b = src.Bool(); if (b) r += '{'; for (size_t k = src.Draw(2); k--;) r += "0123456789abcdefABCDEFg"[src.Draw(22)]; if (b && !src.Chance(1, 8)) r += '}'; break; }
      case 7: { r += "\\o{"; for (size_t k = src.Draw(3); k--;) r += char('0' + src.Draw(8)); if (!src.Chance(1, 8)) r += '}'; break; }
      case 8: { char q = "'\""[src.Draw(1)]; r += q; for (size_t k = src.Draw(3); k--;) r += kChars[src.Draw(kChars.size() - 1)]; if (!src.Chance(1, 8)) r += q; break; }
      case 9: if (!o.stop_str.empty()) r += o.stop_str; else if (!o.split.empty()) r += o.split; else r += ','; break;
    }
  }
  return r;
}
// The data lives in a heap block of exactly its size so that reading past it is seen.
struct Exact {
  std::unique_ptr<char[]> p;
  SV view;
  explicit Exact(const S& s) : p(new char[s.size()]), view(p.get(), s.size()) { std::copy(s.begin(), s.end(), p.get()); }
};
void Same(ref::Err want, const absl::Status& got, const S& what) {
  switch (want) {
    case ref::Err::kNone: PBT_CHECK(got.ok(), what, ": rejected: ", got.ToString()); break;
    case ref::Err::kInvalid: PBT_CHECK(got.code() == absl::StatusCode::kInvalidArgument, what, ": not rejected as invalid: ", got.ToString()); break;
    case ref::Err::kUnimplemented: PBT_CHECK(got.code() == absl::StatusCode::kUnimplemented, what, ": not rejected as unimplemented: ", got.ToString()); break;
  }
}
void CheckString(const ref::ParseOpts& o, const S& in) {
  const S what = pbt::Quote(in) + " with " + Show(o);
  ref::Parsed want = ref::Parse(o, in);
  Exact data(in);
  SV rest = data.view;
  auto got = ms::ParseString(ToReal(o), rest);
  if (want.vague) return;
  Same(want.err, got.status(), what);
  if (want.err != ref::Err::kNone) return;
  PBT_EQ(*got, want.text, what, " result");
  PBT_EQ(S(rest), in.substr(want.used), what, " rest");
  PBT_CHECK(rest.empty() || rest.data() == data.view.data() + want.used, what, ": the rest is not a part of the input");
}
void CheckList(const ref::ParseOpts& o, const S& in) {
  const S what = "list " + pbt::Quote(in) + " with " + Show(o);
  ref::ParsedList want = ref::ParseList(o, in);
  Exact data(in);
  SV rest = data.view;
  auto got = ms::ParseStringList(ToReal(o), rest);
  if (want.vague) return;
  Same(want.err, got.status(), what);
  if (want.err != ref::Err::kNone) return;
  PBT_EQ(pbt::Show(*got), pbt::Show(want.items), what, " result");
  PBT_EQ(S(rest), in.substr(want.used), what, " rest");
}

// Writes c so that it is read back, next to what follows.
S Spell(pbt::Src& src, const ref::ParseOpts& o, unsigned char c, char quote, bool first_unquoted) {
  (void)first_unquoted;
  static const S from = "'\"?\\\a\b\f\n\r\t\v", to = "'\"?\\abfnrtv";
  for (int attempt = 0; attempt < 6; ++attempt) {
    switch (src.Draw(6)) {
      case 0: {  // as it is
        char ch = char(c);
        if (ch == '\\') break;
        if (quote) { if (ch == quote) break; return S(1, ch); }
        if ((ch == '"' && o.dq) || (ch == '\'' && o.sq)) break;
        if (ref::In(o.stop_any, ch) || ref::In(o.split, ch) || (!o.stop_str.empty() && ref::In(o.stop_str, ch))) break;
        return S(1, ch);
      }
      case 1: {
        size_t p = from.find(char(c));
        if (p == S::npos || ref::In(o.custom, to[p])) break;
        return S("\\") + to[p];
      }
      case 2: {  // three octal digits
        char b[8];
        snprintf(b, sizeof b, "\\%03o", c);
        if (ref::In(o.custom, b[1])) break;
        return b;
      }
      case 3: {
        if (ref::In(o.custom, 'x')) break;
        char b[8];
        snprintf(b, sizeof b, src.Bool() ? "\\x%02x" : "\\x%02X", c);
        return b;
      }
      case 4: {
        if (ref::In(o.custom, 'x')) break;
        char b[8];
        snprintf(b, sizeof b, src.Bool() ? "\\x{%x}" : "\\x{%02X}", c);
        return b;
      }
      case 5: {
        if (ref::In(o.custom, 'o')) break;
        char b[16];
        snprintf(b, sizeof b, src.Bool() ? "\\o{%o}" : "\\o{%03o}", c);
        return b;
      }
      case 6:
        if (!ref::In(o.custom, char(c))) break;
        return S("\\") + char(c);
    }
  }
  char b[8];
  snprintf(b, sizeof b, "\\x%02x", c);
  if (!ref::In(o.custom, 'x')) return b;
  if (!ref::In(o.custom, 'o')) { char d[16]; snprintf(d, sizeof d, "\\o{%o}", c); return d; }
  return "";
}
// A spelling of `bytes`. Quotes are removed (or unused).
bool Encode(pbt::Src& src, const ref::ParseOpts& o, const S& bytes, S& out, bool force_quote) {
  char quote = 0;
  auto open = [&]() -> bool {
    std::vector<char> q;
    if (o.dq) q.push_back('"');
    if (o.sq) q.push_back('\'');
    if (q.empty()) return false;
    quote = q[src.Draw(q.size() - 1)];
    out += quote;
    return true;
  };
  bool need = force_quote || !o.unquoted;
  if (bytes.empty() && need) { if (!open()) return false; out += quote; return true; }
  for (unsigned char c : bytes) {
    if (quote) { if (!need && src.Chance(1, 5)) { out += quote; quote = 0; } }
    else if (need || (o.remove && src.Chance(1, 6))) { if (!open() && need) return false; }
    else if (src.Chance(1, 10) && o.remove && open()) { out += quote; quote = 0; }  // an empty pair of quotes
    S s = Spell(src, o, c, quote, false);
    if (s.empty()) return false;
    out += s;
  }
  if (quote) out += quote;
  return true;
}
ref::ParseOpts CodecOpts(pbt::Src& src) {
  ref::ParseOpts o;
  if (src.Bool()) o.stop_any = src.Bool() ? "}" : ".#";
  if (src.Chance(1, 3)) o.stop_str = src.Bool() ? "//" : "*/";
  if (src.Bool()) o.split = src.Bool() ? ";" : ",|";
  if (src.Chance(1, 5)) o.dq = false;
  if (src.Chance(1, 5)) o.sq = false;
  if (o.dq || o.sq) o.unquoted = !src.Chance(1, 4);
  if (src.Chance(1, 4)) o.custom = src.Bool() ? "" : "^@\n";
  return o;
}
S Bytes(pbt::Src& src, size_t most) {
  S r;
  for (size_t i = 0, n = src.Size(0, most); i < n; ++i) r += src.Bool() ? char(src.Draw(255)) : kChars[src.Draw(kChars.size() - 1)];
  return r;
}
}  // namespace

PBT_PROP(differential, 60000, 4000000, "the input has an escape or a quote") {
  ref::ParseOpts o = Opts(src);
  S in = Input(src, o);
  if (in.find_first_of("\\\"'") != S::npos) src.NonTrivial();
  PBT_NOTE(pbt::Quote(in), " with ", Show(o));
  ref::Parsed w = ref::Parse(o, in);
  src.Label(w.err == ref::Err::kNone ? w.used == in.size() ? "all used" : "stopped" : "rejected");
  CheckString(o, in);
  CheckList(o, in);
}

PBT_PROP(roundtrip, 40000, 2500000, "at least one byte is not printable, a quote, or special") {
  ref::ParseOpts o = CodecOpts(src);
  S bytes = Bytes(src, 12), text, tail;
  if (!Encode(src, o, bytes, text, false)) return;
  for (unsigned char c : bytes) if (c < 32 || c > 126 || c == '\\' || c == '"' || c == '\'') { src.NonTrivial(); break; }
  if (src.Bool()) {
    if (!o.stop_any.empty()) tail = o.stop_any[src.Draw(o.stop_any.size() - 1)];
    else if (!o.stop_str.empty()) tail = o.stop_str;
    else if (!o.split.empty()) tail = o.split[0];
    if (!tail.empty()) { tail += Bytes(src, 4); src.Label("stopped"); }
  }
  PBT_NOTE(pbt::Quote(bytes), " as ", pbt::Quote(text), " then ", pbt::Quote(tail), " with ", Show(o));
  Exact data(text + tail);
  SV rest = data.view;
  auto got = ms::ParseString(ToReal(o), rest);
  PBT_CHECK(got.ok(), "rejected: ", got.status().ToString());
  PBT_EQ(*got, bytes);
  PBT_EQ(S(rest), tail, "rest");
  CheckString(o, text + tail);  // keeps the reference honest
}

PBT_PROP(list_roundtrip, 30000, 2000000, "at least two items") {
  ref::ParseOpts o = CodecOpts(src);
  std::vector<S> items;
  size_t n = src.Size(0, 6);
  for (size_t i = 0; i < n; ++i) items.push_back(Bytes(src, 5));
  S split = o.split.empty() ? "," : o.split;
  ref::ParseOpts item = o;
  item.split = split;
  S text;
  for (size_t i = 0; i < n; ++i) {
    if (i) text += split[src.Draw(split.size() - 1)];
    // An input without any character is the empty list, so that a single empty item has to be quoted.
    if (!Encode(src, item, items[i], text, n == 1 && items[i].empty())) return;
  }
  S tail;
  if (src.Bool()) {
    if (!o.stop_any.empty()) tail = o.stop_any[src.Draw(o.stop_any.size() - 1)];
    else if (!o.stop_str.empty()) tail = o.stop_str;
    if (!tail.empty()) { tail += Bytes(src, 4); src.Label("stopped"); }
  }
  if (n >= 2) src.NonTrivial();
  PBT_NOTE(pbt::Show(items), " as ", pbt::Quote(text), " then ", pbt::Quote(tail), " with ", Show(o));
  Exact data(text + tail);
  SV rest = data.view;
  auto got = ms::ParseStringList(ToReal(o), rest);
  PBT_CHECK(got.ok(), "rejected: ", got.status().ToString());
  PBT_EQ(pbt::Show(*got), pbt::Show(items));
  PBT_EQ(S(rest), tail, "rest");
  CheckList(o, text + tail);
}

// Every escape, one by one.
PBT_PROP(all_escapes, 1, 1, "every case: all escapes, in and out of quotes, at the end and followed by every byte") {
  src.NonTrivial();
  ref::ParseOpts o;
  auto one = [&](const S& esc, char want) {
    for (const char* q : {"", "\"", "'"}) {
      S in = q + esc + q;
      SV rest = in;
      auto got = ms::ParseString(ToReal(o), rest);
      PBT_CHECK(got.ok(), pbt::Quote(in), ": ", got.status().ToString());
      PBT_EQ(*got, S(1, want), pbt::Quote(in));
      for (int f = 0; f < 256; ++f) if (ref::Hex(char(f)) < 0 && f != '\\' && f != '"' && f != '\'') {
        S in2 = q + esc + char(f) + q;
        SV rest2 = in2;
        auto got2 = ms::ParseString(ToReal(o), rest2);
        PBT_CHECK(got2.ok() && *got2 == S(1, want) + char(f) && rest2.empty(), pbt::Quote(in2));
      }
    }
  };
  const S from = "'\"?\\abfnrtv", to = "'\"?\\\a\b\f\n\r\t\v";
  for (size_t i = 0; i < from.size(); ++i) one(S("\\") + from[i], to[i]);
  for (char c : S("(){}[]<>,;&")) one(S("\\") + c, c);
  for (int v = 0; v < 256; ++v) {
    char b[32];
    for (const char* f : {"\\%03o", "\\%o", "\\o{%o}", "\\o{%03o}", "\\x%02x", "\\x%x", "\\x%X", "\\x{%x}", "\\x{%02X}"}) { snprintf(b, sizeof b, f, v); one(b, char(v)); }
  }
}
// Every two-character input behind a backslash, and every single character in every state.
PBT_PROP(exhaustive_short, 1, 1, "every case: all inputs of up to two bytes behind a prefix") {
  src.NonTrivial();
  std::vector<ref::ParseOpts> opts(4);
  opts[1].custom = "";
  opts[2].remove = false;
  opts[2].stop_any = ".";
  opts[3].unquoted = false;
  opts[3].stop_str = "ab";
  for (auto& o : opts) {
    for (const char* prefix : {"", "\\", "\"\\", "'", "\\o{", "\\x{", "\\1"}) {
      for (int a = 0; a < 256; ++a) {
        CheckString(o, S(prefix) + char(a));
        CheckList(o, S(prefix) + char(a));
        for (int b : {0, 1, int('0'), int('7'), int('8'), int('9'), int('f'), int('g'), int('}'), int('"'), int('\''), int('\\'), int(','), 128, 255}) {
          CheckString(o, S(prefix) + char(a) + char(b));
          CheckList(o, S(prefix) + char(a) + char(b));
        }
      }
    }
  }
}
