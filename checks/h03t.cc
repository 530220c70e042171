// H03: the hash command line tool, the reference of the build-time port.
#include "hash_common.h"
#include "mbo/hash/hash.h"
#include "tool.h"
#define main HashToolMain
#include "mbo/hash/hash_tool.cc"
#undef main

namespace {
namespace mh = mbo::hash;
struct Algo { const char* name; uint64_t (*fn)(std::string_view); };
#define A(N) {#N, [](std::string_view d) -> uint64_t { return mh::N::Algorithm::GetHash64(d); }}
const Algo kAlgos[] = {A(dumbo), A(fambo), A(fnv1a), A(mumbo), A(murmur3), A(siphash)};
std::string Line(const Algo& a, const std::string& d) { char b[32]; snprintf(b, sizeof(b), "%016llX\n", static_cast<unsigned long long>(a.fn(d))); return b; }
std::string Text(pbt::Src& src, bool line) {
  std::string s = src.Chance(1, 4) ? src.RawBytes(src.SkewSize(300)) : src.Str("abc \t\r-%\\\"'0,", src.SkewSize(150));
  std::erase_if(s, [&](char c) { return c == '\0' ? !line : line && c == '\n'; });  // an argument has no NUL, a line no newline
  return s;
}
}  // namespace

PBT_PROP(tool_hashes, 4000, 40000, "hash_tool with 0..3 arguments: algorithm names (known, misspelt, prefixes, case changed), data as argument or 0..12 input lines of any bytes with or without a final newline; non-trivial: something was hashed") {
  const Algo& algo = kAlgos[src.Draw(std::size(kAlgos) - 1)];
  const int how = int(src.Weighted({4, 5, 1, 1, 1}));
  std::string name = algo.name;
  std::vector<std::string> args;
  std::string input, want;
  bool ok = true;
  if (how == 0) {
    std::string d = Text(src, false);
    args = {name, d};
    want = Line(algo, d);
    if (src.Bool()) input = "ignored\ninput\n";
  } else if (how == 1) {
    args = {name};
    const size_t n = src.Size(0, 12);
    for (size_t i = 0; i < n; ++i) {
      std::string d = Text(src, true);
      bool last = i + 1 == n;
      bool newline = !last || d.empty() || !src.Chance(1, 3);
      want += Line(algo, d);
      input += d + (newline ? "\n" : "");
    }
  } else {
    ok = false;
    input = "x\n";
    if (how == 3) args = {name, "a", "b"};
    if (how == 4) {
      switch (src.Draw(4)) {
        case 0: name.pop_back(); break;
        case 1: name += src.PickChar("x1 "); break;
        case 2: name[0] = char(name[0] - 32); break;
        case 3: name = ""; break;
        default: name = "md5"; break;
      }
      args = {name};
      if (src.Bool()) args.push_back("data");
    }
  }
  PBT_NOTE(pbt::Show(args) << " stdin " << pbt::Quote(input));
  ToolResult r = RunTool(HashToolMain, args, pbt::ScratchDir(), input);
  if (!ok) {
    src.Label("error");
    PBT_CHECK(r.exited && r.code != 0 && r.code != 1 && r.out.empty() && !r.err.empty(), "misuse is not an error: " << r.Show());
    return;
  }
  if (!want.empty()) src.NonTrivial();
  src.Label(algo.name);
  PBT_CHECK(r.exited && r.code == 0, r.Show());
  PBT_EQ(r.out, want, "printed hashes");
  PBT_CHECK(r.err.empty(), r.Show());
}
