// L01: scoped streams, scoped checks, demangling and timing logs.
#include <cxxabi.h>
#include <unistd.h>

#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <source_location>
#include <sstream>
#include <string>
#include <vector>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/log/log.h"
#include "absl/time/time.h"
#include "mbo/log/demangle.h"
#include "mbo/log/log_timing.h"
#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"
#include "pbt.h"

ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration);
ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);

namespace mbo::log::log_internal {
struct StripFunctionNameTest {
  static std::string Strip(std::string_view s) { return LogTimingImpl::StripFunctionName(s); }
};
}  // namespace mbo::log::log_internal

using namespace mbo::log;
using Mode = ScopedStreamMode;
using Loc = std::source_location;
using SS = std::stringstream;

namespace {

struct Streamable {
  int v;
  friend std::ostream& operator<<(std::ostream& os, const Streamable& s) { return os << '<' << s.v << '>'; }
};

// One streamed value. Rendered by the reference with a plain ostream.
struct Tok {
  int kind;
  std::string s;
  long long i;
};

template<typename OS>
void Stream(OS& os, const Tok& t) {
  switch (t.kind) {
    case 0: os << t.s; break;
    case 1: os << t.i; break;
    case 2: os << std::string_view(t.s); break;
    case 3: os << static_cast<char>(t.i); break;
    case 4: os << (t.i % 2 == 0); break;
    case 5: os << static_cast<double>(t.i) / 8; break;
    case 6: os << Streamable{static_cast<int>(t.i)}; break;
    case 7: os << t.s.c_str(); break;
    case 8: os << std::setw(static_cast<int>(t.i & 7)); break;
    case 9: os << std::setfill('*'); break;
    default: os << static_cast<unsigned char>(t.i & 0x7f); break;
  }
}

Tok GenTok(pbt::Src& src) {
  Tok t;
  t.kind = static_cast<int>(src.Weighted({6, 4, 3, 2, 2, 2, 2, 3, 1, 1, 1}));
  t.s = src.Chance(1, 12) ? src.Blob(src.Size(1, 3000)) : src.Str(std::string_view("ab \n:[]@%\0\xff", 11), 6);
  t.i = src.I64();
  if (t.kind == 5) t.i %= 100000;
  return t;
}

std::string Prefix(const Loc& loc) {
  return std::string("[") + loc.file_name() + ":" + std::to_string(loc.line()) + "] @" + loc.function_name();
}

// Reference: what one stream writes.
std::string Expect(const Loc& loc, std::string_view msg, const std::string& text) {
  std::string r = Prefix(loc);
  if (!msg.empty()) r += " : " + std::string(msg);
  if (!text.empty()) r += " : " + text;
  return r + "\n";
}

Loc LocA() { return Loc::current(); }
template<typename T, int N>
Loc LocB(const T&, int (&)[N]) { return Loc::current(); }
struct LocC {
  Loc operator()(std::string_view) const { return Loc::current(); }
  static Loc S() {
    return [] { return Loc::current(); }();
  }
};
Loc PickLoc(uint64_t i) {
  int arr[3] = {};
  switch (i) {
    case 0: return LocA();
    case 1: return LocB(std::string(), arr);
    case 2: return LocC{}("");
    case 3: return LocC::S();
    default: return Loc::current();
  }
}

struct Node {
  int kind = 0;
  int style = 0;  // 0: named variable, 1: chained temporary
  uint64_t loc = 0;
  int dest = 0;
  std::string msg;
  std::vector<Tok> toks;
  std::vector<Node> inner;  // run while the stream is alive, after half the tokens
};

constexpr int kKinds = 14;

Node GenNode(pbt::Src& src, int depth) {
  Node n;
  n.kind = static_cast<int>(src.Draw(kKinds - 1));
  n.style = src.Chance(1, 3);
  n.loc = src.Draw(4);
  n.dest = static_cast<int>(src.Draw(3));
  n.msg = src.Bool() ? src.Str("ms g:\n", 5) : "";
  const size_t nt = src.SkewSize(6);
  for (size_t i = 0; i < nt; ++i) n.toks.push_back(GenTok(src));
  if (depth > 0 && n.style == 0) {
    const size_t ni = src.Weighted({5, 2, 1});
    for (size_t i = 0; i < ni; ++i) n.inner.push_back(GenNode(src, depth - 1));
  }
  return n;
}

struct World {
  std::ostringstream d[4];  // 0, 1: user streams; 2: cout; 3: cerr
  std::string want[4];
};

void Run(World& w, const Node& n);

// `str` collects `toks`; returns what a plain stringstream would hold.
template<typename S>
void Fill(World& w, S& s, const Node& n) {
  const size_t half = n.toks.size() / 2;
  auto* out = static_cast<std::remove_cvref_t<decltype(s << 0)>*>(nullptr);
  for (size_t i = 0; i < n.toks.size(); ++i) {
    if (i == half) {
      for (const Node& k : n.inner) Run(w, k);
    }
    if (i % 2 == 0 || out == nullptr) {
      Stream(s, n.toks[i]);
      out = &(s << "");
    } else {
      Stream(*out, n.toks[i]);
    }
  }
  if (n.toks.empty()) {
    for (const Node& k : n.inner) Run(w, k);
  }
}

std::string RefText(const Node& n) {
  std::stringstream ss;
  for (size_t i = 0; i < n.toks.size(); ++i) {
    Stream(ss, n.toks[i]);
    if (i % 2 == 0) ss << "";
  }
  return ss.str();
}
// Widths pending when "" is streamed pad it; the reference streams "" at the same
// places, see Fill.

template<typename Scoped, typename... A>
void One(World& w, const Node& n, int dest, bool has_msg, bool has_text, const Loc& loc, A&&... a) {
  if (n.style == 0) {
    Scoped s(loc, std::forward<A>(a)...);
    const size_t before = dest >= 0 ? w.d[dest].str().size() : 0;
    Fill(w, s, n);
    if (dest >= 0 && n.inner.empty()) {
      // Nothing is written before the scope ends.
      if (w.d[dest].str().size() != before) pbt::Fail(__FILE__, __LINE__, "scoped stream wrote before its scope ended");
    }
  } else {
    auto&& str = Scoped(loc, std::forward<A>(a)...) << std::string();
    (void)str;
  }
  if (dest < 0) return;
  std::string text = has_text && n.style == 0 ? RefText(n) : "";
  w.want[dest] += Expect(loc, has_msg ? n.msg : "", text);
}

void Run(World& w, const Node& n) {
  const Loc loc = PickLoc(n.loc);
  std::ostream* user = n.dest == 2 ? &std::cout : n.dest == 3 ? &std::cerr : static_cast<std::ostream*>(&w.d[n.dest]);
  const std::string_view msg = n.msg;
  switch (n.kind) {
    case 0: One<ScopedStream<Mode::kContinue, SS, std::ostream, std::string_view>>(w, n, n.dest, true, true, loc, *user, msg); break;
    case 1: One<ScopedStream<Mode::kContinue, SS, std::ostream, Voidifier>>(w, n, n.dest, false, true, loc, *user); break;
    case 2: One<ScopedStream<Mode::kContinue, VoidStream, std::ostream, std::string_view>>(w, n, n.dest, true, false, loc, *user, msg); break;
    case 3: One<ScopedStream<Mode::kContinue, SS, VoidStream, std::string_view>>(w, n, -1, true, true, loc, VoidStream(), msg); break;
    case 4: One<ScopedStream<Mode::kContinue, SS, Voidifier, Voidifier>>(w, n, 3, false, true, loc); break;
    case 5: One<ScopedStream<Mode::kContinue, SS, Voidifier, std::string_view>>(w, n, 3, true, true, loc, Voidifier(), msg); break;
    case 6: One<ScopedStream<>>(w, n, 3, false, true, loc); break;  // defaults: std::cerr, no message
    case 7: One<ScopedStream<Mode::kContinue, SS, std::ostringstream, std::string_view>>(w, n, n.dest % 2, true, true, loc, w.d[n.dest % 2], msg); break;
    case 8: One<ScopedStream<Mode::kContinue, VoidStream, VoidStream, Voidifier>>(w, n, -1, false, false, loc, VoidStream()); break;
    case 9: One<ScopedStream<Mode::kContinue, std::ostringstream, std::ostream, std::string_view>>(w, n, n.dest, true, true, loc, *user, msg); break;
    case 10: {
      if (n.style != 0) { ScopedStreamOut(loc) << n.msg << 7; w.want[2] += Expect(loc, "", n.msg + "7"); break; }
      { auto s = ScopedStreamOut(loc); Fill(w, s, n); }
      w.want[2] += Expect(loc, "", RefText(n));
      break;
    }
    case 11: {
      if (n.style != 0) { ScopedStreamErr(loc) << n.msg << 'c'; w.want[3] += Expect(loc, "", n.msg + "c"); break; }
      { auto s = ScopedStreamErr(loc); Fill(w, s, n); }
      w.want[3] += Expect(loc, "", RefText(n));
      break;
    }
    case 12: {
      if (n.style != 0) { ScopedStreamVoid(loc) << n.msg << 1.5; break; }
      auto s = ScopedStreamVoid(loc);
      Fill(w, s, n);
      break;
    }
    default: {
      // A check that holds: output is discarded, the program goes on.
      bool cond = true;
      int evals = 0;
      if (n.style != 0) {
        ScopedLogCheck((++evals, cond), n.msg, loc) << n.msg << 5;
        if (n.loc == 2) MBO_LOG_CHECK((++evals, cond)) << n.msg; else MBO_LOG_CHECK((++evals, cond));
        if (evals != 2) pbt::Fail(__FILE__, __LINE__, "condition evaluated " + std::to_string(evals) + " times for two checks");
      } else {
        auto s = ScopedLogCheck((++evals, cond), n.msg, loc);
        for (const Tok& t : n.toks) {
          if (t.kind == 0) s << t.s;
          if (t.kind == 1) s << t.i;
          if (t.kind == 2) s << std::string_view(t.s);
        }
        for (const Node& k : n.inner) Run(w, k);
        if (evals != 1) pbt::Fail(__FILE__, __LINE__, "condition evaluated " + std::to_string(evals) + " times");
      }
    }
  }
}

size_t Count(const Node& n) {
  size_t c = 1;
  for (const Node& k : n.inner) c += Count(k);
  return c;
}

}  // namespace

PBT_PROP(scoped_stream, 30000, 600000, "a stream alive while another one ends, or one with both message and text") {
  std::vector<Node> prog;
  const size_t n = src.Size(1, 4);
  for (size_t i = 0; i < n; ++i) prog.push_back(GenNode(src, 3));
  World w;
  auto* oc = std::cout.rdbuf(w.d[2].rdbuf());
  auto* oe = std::cerr.rdbuf(w.d[3].rdbuf());
  for (const Node& k : prog) {
    Run(w, k);
    if (Count(k) > 1 || (!k.msg.empty() && !k.toks.empty())) src.NonTrivial();
  }
  std::cout.rdbuf(oc);
  std::cerr.rdbuf(oe);
  std::cout.clear();
  std::cerr.clear();
  for (int d = 0; d < 4; ++d) PBT_EQ(w.d[d].str(), w.want[d], "destination " << d << " (0, 1 user streams, 2 cout, 3 cerr)");
}

// ---- checks that may fail ----

namespace {
void Mark(const std::string& s) {
  if (write(1, s.data(), s.size()) < 0) abort();
}
int g_evals = 0;
bool Cond(bool v) {
  return ++g_evals == 1 ? v : !v;  // a second evaluation would turn the verdict around
}
std::string Side(const std::string& s) {
  Mark("!");
  return s;
}
}  // namespace

PBT_PROP(checks, 500, 8000, "at least one check before the failing one, or no failing check at all") {
  struct Step { int kind; bool ok; std::string text; long long num; uint64_t loc; };
  std::vector<Step> steps;
  const size_t n = src.Size(1, 6);
  for (size_t i = 0; i < n; ++i) {
    Step s{static_cast<int>(src.Draw(7)), !src.Chance(1, 4), src.Str("ab\n:%", 5), src.I64(), src.Draw(4)};
    steps.push_back(s);
  }
  const std::string file = pbt::CaseDir() + "/out.txt";
  // Reference.
  std::string want, want_file;
  bool dies = false;
  std::vector<Loc> mac;  // locations of the macro uses, filled below
  size_t fail_at = n;
  for (size_t i = 0; i < n; ++i) {
    if (!steps[i].ok) { fail_at = i; dies = true; break; }
  }
  if (!dies || fail_at > 0) src.NonTrivial();
  static Loc macro_loc;  // set in the child; reported through the marks instead
  auto r = pbt::RunChild([&] {
    for (size_t i = 0; i < n; ++i) {
      const Step& s = steps[i];
      Mark("#" + std::to_string(i) + "\n");
      g_evals = 0;
      const Loc loc = PickLoc(s.loc);
      switch (s.kind) {
        case 0: ScopedLogCheck(Cond(s.ok), "what", loc) << s.text << s.num; break;
        case 1: { auto st = ScopedLogCheck(Cond(s.ok), "what", loc); st << s.text; st << s.num; break; }
        case 2: MBO_LOG_CHECK(Cond(s.ok)) << Side(s.text) << s.num; break;
        case 3: if (s.num != 12345) MBO_LOG_CHECK(Cond(s.ok)); else Mark("else"); break;
        case 4: if (!Cond(s.ok)) { ScopedStreamErr<Mode::kQuickExit>(loc) << s.text << s.num; } break;
        case 5: {
          if (!Cond(s.ok)) {
            ScopedStream<Mode::kQuickExit> st(loc, std::cerr, "msg");
            st << s.text;
            Mark("+");
          }
          break;
        }
        case 6: {
          std::ofstream f(file, std::ios::app);
          if (!Cond(s.ok)) { ScopedStream<Mode::kQuickExit>(loc, f, "to file") << s.text; }
          break;
        }
        default: {
          for (int k = 0; k < 2; ++k) ScopedLogCheck(k == 0 || s.ok, "", loc);
          Cond(true);
          break;
        }
      }
      if (g_evals != 1) Mark("evaluated " + std::to_string(g_evals) + " times\n");
    }
    Mark("done\n");
  });
  (void)macro_loc;
  for (size_t i = 0; i < n && i <= fail_at; ++i) want += "#" + std::to_string(i) + "\n";
  if (!dies) want += "done\n";
  std::string got = r.out;
  PBT_NOTE("output:\n" << got);
  PBT_CHECK(got.substr(0, want.size()) == want, "expected to start with " << pbt::Quote(want) << ", got " << pbt::Quote(got) << " code " << r.code << " sig " << r.sig);
  got = got.substr(want.size());
  if (!dies) {
    PBT_CHECK(r.exited && r.code == 0, "all checks held, but exit code " << r.code << " signal " << r.sig << ": " << pbt::Quote(r.out));
    PBT_EQ(got, std::string(), "all checks held");
    return;
  }
  PBT_CHECK(!(r.exited && r.code == 0), "a check failed but the process went on: " << pbt::Quote(r.out));
  const Step& s = steps[fail_at];
  const std::string text = s.text + std::to_string(s.num);
  const Loc loc = PickLoc(s.loc);
  switch (s.kind) {
    case 0: case 1: PBT_EQ(got, Expect(loc, "what", text)); break;
    case 4: PBT_EQ(got, Expect(loc, "", text)); break;
    case 5: PBT_EQ(got, "+" + Expect(loc, "msg", s.text)); break;
    case 7: PBT_EQ(got, Expect(loc, "", "")); break;
    case 6: {
      std::ifstream f(file);
      std::stringstream ss;
      ss << f.rdbuf();
      PBT_EQ(got, std::string());
      PBT_EQ(ss.str(), Expect(loc, "to file", s.text), "file contents");
      break;
    }
    default: {
      // The macro: location is inside this file; the condition's text is shown.
      const std::string m = s.kind == 2 ? " : Failed MBO_LOG_CHECK(Cond(s.ok)) : " + text + "\n" : " : Failed MBO_LOG_CHECK(Cond(s.ok))\n";
      const std::string p = std::string(s.kind == 2 ? "!" : "") + "[" + __FILE__ + ":";
      PBT_CHECK(got.starts_with(p) && got.ends_with(m) && got.size() > p.size() + m.size(), pbt::Quote(got));
      PBT_EQ(std::count(got.begin(), got.end(), '\n'), 1 + (s.kind == 2 ? std::count(text.begin(), text.end(), '\n') : 0));
    }
  }
}

// ---- demangling ----

namespace {

struct Name { std::string m, d; };

std::string Ident(pbt::Src& src) {
  std::string s(1, src.PickChar("abcxyzABC"));
  s += src.Str("abXY01_", 9);
  return s;
}
Name GenType(pbt::Src& src, int depth);
// A nested name (at least two components), N..E, possibly with template arguments.
Name GenNested(pbt::Src& src, int depth, std::string_view cv = "") {
  Name r;
  r.m = "N" + std::string(cv);
  const size_t n = src.Size(2, 4);
  for (size_t i = 0; i < n; ++i) {
    if (i) r.d += "::";
    if (src.Chance(1, 10) && i + 1 < n) {
      r.m += "12_GLOBAL__N_1";
      r.d += "(anonymous namespace)";
      continue;
    }
    const std::string id = Ident(src);
    r.m += std::to_string(id.size()) + id;
    r.d += id;
    if (depth > 0 && src.Chance(1, 5)) {
      r.m += "I";
      r.d += "<";
      const size_t k = src.Size(1, 3);
      for (size_t j = 0; j < k; ++j) {
        Name t = src.Chance(1, 4) ? Name{"Li" + std::to_string(src.Draw(99)) + "E", ""} : GenType(src, depth - 1);
        if (t.d.empty()) t.d = t.m.substr(2, t.m.size() - 3);
        if (j) r.d += ", ";
        r.m += t.m;
        r.d += t.d;
      }
      r.m += "E";
      r.d += r.d.back() == '>' ? " >" : ">";
    }
  }
  r.m += "E";
  return r;
}
Name GenType(pbt::Src& src, int depth) {
  static const std::vector<Name> kB = {{"i", "int"}, {"c", "char"}, {"b", "bool"}, {"d", "double"}, {"f", "float"}, {"l", "long"}, {"m", "unsigned long"}, {"h", "unsigned char"}, {"s", "short"}, {"x", "long long"}, {"w", "wchar_t"}, {"Di", "char32_t"}, {"e", "long double"}, {"n", "__int128"}};
  Name t;
  if (depth > 0 && src.Chance(1, 3)) {
    t = src.Bool() ? GenNested(src, depth - 1) : Name{};
    if (t.m.empty()) {
      const std::string id = Ident(src);
      t = {std::to_string(id.size()) + id, id};
    }
  } else {
    t = src.Pick(kB);
  }
  const size_t mods = src.Weighted({6, 3, 1});
  bool constant = false;
  for (size_t i = 0; i < mods; ++i) {
    if (src.Bool() && !constant) { t = {"K" + t.m, t.d + " const"}; constant = true; }
    else { t = {"P" + t.m, t.d + "*"}; constant = false; }
  }
  if (src.Chance(1, 6)) t = src.Bool() ? Name{"R" + t.m, t.d + "&"} : Name{"O" + t.m, t.d + "&&"};
  return t;
}

namespace gen {
template<typename... T> struct Box {};
enum class E { kA };
}  // namespace gen

}  // namespace

PBT_PROP(demangle_valid, 20000, 600000, "the name has template arguments or more than two parameters") {
  Name n;
  switch (src.Weighted({3, 3, 2, 1})) {
    case 0: {  // a function: _Z <nested> <params>
      const bool is_const = src.Chance(1, 5);
      Name f = GenNested(src, 0, is_const ? "K" : "");
      const size_t k = src.Size(0, 4);
      n.m = "_Z" + f.m;
      n.d = f.d + "(";
      for (size_t i = 0; i < k; ++i) {
        Name t = GenType(src, 3);
        n.m += t.m;
        if (i) n.d += ", ";
        n.d += t.d;
      }
      if (k == 0) n.m += "v";
      n.d += ")";
      if (is_const) n.d += " const";
      if (k > 2) src.NonTrivial();
      break;
    }
    case 1: { Name f = GenNested(src, 3); n = {"_Z" + f.m, f.d}; break; }  // a variable
    case 2: n = GenType(src, 4); break;                                      // what typeid().name() gives
    default: {
      Name f = GenNested(src, 2);
      static const std::vector<Name> kS = {{"TV", "vtable for "}, {"TI", "typeinfo for "}, {"TS", "typeinfo name for "}, {"GV", "guard variable for "}};
      const Name& s = src.Pick(kS);
      n = {"_Z" + s.m + f.m, s.d + f.d};
    }
  }
  if (n.d.find('<') != std::string::npos) src.NonTrivial();
  PBT_NOTE("mangled " << n.m);
  // The generator's grammar is checked against the toolchain's demangler first.
  int st = -1;
  char* d = abi::__cxa_demangle(n.m.c_str(), nullptr, nullptr, &st);
  const std::string ref = d && st == 0 ? d : "";
  free(d);
  if (ref != n.d) src.Label("spelling differs from generator");
  PBT_CHECK(st == 0, "the generator made an invalid name " << n.m);
  PBT_EQ(Demangle(n.m.c_str()), ref, "mangled " << n.m);
  // Twice: the first result must not be disturbed.
  const std::string a = Demangle(n.m.c_str());
  const std::string b = Demangle("i");
  PBT_EQ(a, ref);
  PBT_EQ(b, std::string("int"));
}

PBT_PROP(demangle_other, 20000, 600000, "text that starts like a mangled name but is not one") {
  std::string s;
  switch (src.Weighted({2, 2, 2})) {
    case 0: s = src.Str("ab_Z3NE:( )<>i%\n\xc3", 12); break;
    case 1: s = "_Z" + src.Str("ab_Z3NEIPRKiv0159S", 14); break;
    default: {
      Name f = GenNested(src, 2);
      s = "_Z" + f.m;
      const size_t at = src.Draw(s.size() - 1);
      switch (src.Draw(3)) {
        case 0: s.resize(at); break;
        case 1: s[at] = src.PickChar("_Z9NE(i"); break;
        case 2: s.insert(at, 1, src.PickChar("_Z9NE(i")); break;
        default: s.erase(at, 1);
      }
    }
  }
  s = s.c_str();
  int st = -1;
  char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
  const std::string want = d && st == 0 ? std::string(d) : s;
  if (st != 0 && s.starts_with("_Z")) src.NonTrivial();
  free(d);
  PBT_EQ(Demangle(s.c_str()), want, "text " << pbt::Quote(s));
}

PBT_PROP(demangle_v, 300, 3000, "every case") {
  src.NonTrivial();
  const Name fixed[] = {
      {DemangleV(1), "int"},
      {DemangleV(std::string_view()), "std::basic_string_view<char, std::char_traits<char> >"},
      {DemangleV(gen::Box<int, gen::Box<char>>()), "(anonymous namespace)::gen::Box<int, (anonymous namespace)::gen::Box<char> >"},
      {DemangleV(gen::E::kA), "(anonymous namespace)::gen::E"},
      {DemangleV(static_cast<const char*>("")), "char const*"},
      {DemangleV(std::vector<std::vector<long>>()), "std::vector<std::vector<long, std::allocator<long> >, std::allocator<std::vector<long, std::allocator<long> > > >"},
      {DemangleV(&PickLoc), "std::source_location (*)(unsigned long)"},
  };
  const Name& f = fixed[src.Draw(std::size(fixed) - 1)];
  PBT_EQ(f.m, f.d);
}

// ---- timing logs ----

namespace {
struct Logged { absl::LogSeverity sev; std::string file; int line; std::string msg; };
std::vector<Logged> g_logged;

log_internal::LogTimingImpl Pass(log_internal::LogTimingImpl t) { return t; }

struct TPlan {
  log_internal::LogTimingImpl::LogTimingArgs args;
  std::string msg;
  std::string dur;  // expected beginning of the duration, empty: unknown
  bool logged;
  int moves;
  bool moved_from_too;
  std::string fn;
};

std::string FnName(uint64_t i) {
  switch (i) {
    case 0: return "LocA";
    case 2: return "LocC::operator()";
    default: return "";
  }
}
}  // namespace

PBT_PROP(timing, 4000, 100000, "several timings nested, one of them moved or suppressed") {
  using absl::LogSeverity;
  absl::shim::TheLogHook() = [](LogSeverity sev, std::string_view file, int line, std::string_view msg) {
    g_logged.push_back({sev, std::string(file), line, std::string(msg)});
  };
  g_logged.clear();
  static constexpr LogSeverity kSev[] = {LogSeverity::kInfo, LogSeverity::kWarning, LogSeverity::kError};
  // The flags.
  const int flag_sec = static_cast<int>(src.Draw(4)) * 1000;
  const LogSeverity always = kSev[src.Draw(2)];
  absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::Seconds(flag_sec));
  absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, always);
  const size_t n = src.Size(1, 4);
  std::vector<std::unique_ptr<TPlan>> plans;
  size_t interesting = 0;
  for (size_t i = 0; i < n; ++i) {
    // Elapsed times are multiples of 1000 s plus 500 s, thresholds multiples of
    // 1000 s: a slow machine cannot change the verdict.
    const int elapsed = static_cast<int>(src.Draw(4)) * 1000 + 500;
    const bool own = src.Bool();
    const int own_sec = static_cast<int>(src.Draw(5)) * 1000;
    const LogSeverity sev = kSev[src.Draw(2)];
    const uint64_t loc = src.Draw(4);
    const absl::Time start = absl::Now() - absl::Seconds(elapsed);
    auto p = std::unique_ptr<TPlan>(own ? new TPlan{.args = {.severity = sev, .min_duration = absl::Seconds(own_sec), .start_time = start, .src = PickLoc(loc)}}
                                        : new TPlan{.args = {.severity = sev, .start_time = start, .src = PickLoc(loc)}});
    p->msg = src.Bool() ? src.Str("ab:(\n", 5) : "";
    p->moves = static_cast<int>(src.Weighted({4, 2, 1}));
    p->moved_from_too = src.Chance(1, 6);
    const int min = own ? own_sec : flag_sec;
    p->logged = elapsed >= min || sev >= always;
    p->fn = FnName(loc);
    if (!p->logged || p->moves) ++interesting;
    const int s = elapsed % 60, m = elapsed / 60 % 60, h = elapsed / 3600;
    p->dur = (h ? std::to_string(h) + "h" : "") + std::to_string(m) + "m" + std::to_string(s);
    plans.push_back(std::move(p));
  }
  if (n > 1 && interesting) src.NonTrivial();
  std::vector<Logged> want;
  auto rec = [&](auto& self, size_t i) -> void {
    if (i == n) return;
    const TPlan& p = *plans[i];
    auto run = [&](auto&& t) {
      const size_t before = g_logged.size();
      self(self, i + 1);
      (void)before;
      (void)t;
    };
    switch (p.moves) {
      case 0: { auto t = LogTiming(p.args) << p.msg; run(t); break; }
      case 1: {
        auto t = LogTiming(p.args) << p.msg.substr(0, p.msg.size() / 2) << p.msg.substr(p.msg.size() / 2);
        auto u = std::move(t);
        if (p.moved_from_too) {
          // The source of a move stays silent, also when it is moved on.
          auto v = std::move(t);
          run(u);
        } else {
          run(u);
        }
        break;
      }
      default: { auto t = Pass(Pass(LogTiming(p.args) << p.msg)); run(t); break; }
    }
    if (p.logged) want.push_back({p.args.severity, p.args.src.file_name(), static_cast<int>(p.args.src.line()), ""});
  };
  rec(rec, 0);
  absl::shim::TheLogHook() = nullptr;
  PBT_EQ(g_logged.size(), want.size(), "number of timing logs");
  size_t w = 0;
  for (size_t i = n; i-- > 0;) {
    const TPlan& p = *plans[i];
    if (!p.logged) continue;
    const Logged& g = g_logged[w];
    PBT_NOTE("log: " << g.msg);
    PBT_EQ(g.sev, want[w].sev);
    PBT_EQ(g.file, want[w].file);
    PBT_EQ(g.line, want[w].line);
    PBT_CHECK(g.msg.starts_with("LogTiming(" + p.dur), g.msg << " does not start with LogTiming(" << p.dur);
    const std::string tail = p.msg.empty() ? ")" : "): " + p.msg;
    PBT_CHECK(g.msg.ends_with(tail), pbt::Quote(g.msg) << " does not end with " << pbt::Quote(tail));
    if (!p.fn.empty()) {
      PBT_CHECK(g.msg.find(" @ ") != std::string::npos);
      const std::string name = g.msg.substr(g.msg.find(" @ ") + 3, g.msg.size() - tail.size() - g.msg.find(" @ ") - 3);
      PBT_CHECK(name == p.fn || name.ends_with("::" + p.fn), "function shown as " << name << ", expected " << p.fn);
    }
    ++w;
  }
}

PBT_PROP(strip_function, 20000, 400000, "a return type or parameter list with nested brackets") {
  using T = mbo::log::log_internal::StripFunctionNameTest;
  if (src.Chance(1, 4)) {
    // Arbitrary text never crashes and nothing is invented.
    const std::string s = src.Str("ab:<>()( ) ,&operator", 24);
    (void)T::Strip(s);
    return;
  }
  auto type = [&](auto& self, int depth) -> std::string {
    std::string t = std::string(src.PickStr({"int", "const X &", "std::string", "unsigned long", "void", "a::b::C *"}));
    if (depth > 0 && src.Chance(1, 3)) t = "std::function<" + self(self, depth - 1) + "(" + self(self, depth - 1) + (src.Bool() ? ", " + self(self, depth - 1) : std::string()) + ")>";
    else if (depth > 0 && src.Chance(1, 3)) t = "std::vector<" + self(self, depth - 1) + ">";
    return t;
  };
  const std::string ret = src.Chance(1, 3) ? std::string("auto") : type(type, 3);
  std::string name;
  const size_t k = src.Size(1, 4);
  for (size_t i = 0; i < k; ++i) name += (i ? "::" : "") + (i + 1 < k && src.Chance(1, 6) ? std::string("(anonymous namespace)") : Ident(src));
  if (src.Chance(1, 6)) name += "::operator()";
  std::string args;
  const size_t na = src.Size(0, 3);
  for (size_t i = 0; i < na; ++i) args += (i ? ", " : "") + type(type, 2);
  const bool op = name.ends_with("operator()");
  std::string tmpl;
  if (!op && src.Chance(1, 3)) tmpl = "<" + type(type, 2) + ">";
  const std::string full = ret + " " + name + tmpl + "(" + args + ")" + std::string(src.PickStr({"", " const", " const &", " &&"}));
  if (ret.find('(') != std::string::npos || args.find('(') != std::string::npos) src.NonTrivial();
  PBT_EQ(T::Strip(full), name, "pretty function " << full);
}
