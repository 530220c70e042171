// D04: checksum lines and the digest tool's compute and --check modes.
#include <sys/stat.h>

#include <map>
#include <set>

#include "digest_common.h"
#include "mbo/digest/checksum.h"
#include "tool.h"
#define main DigestToolMain
#include "mbo/digest/digest_main.cc"
#undef main

namespace {
struct Algo {
  const char* name;
  size_t hex;
  std::string (*ref)(std::string_view);
  const char* coreutils;
};
#define A(N, L, E, C) {N, L, [](std::string_view d) -> std::string { return pbt::Hex(E); }, C}
const Algo kAlgos[] = {
    A("sha256", 64, ref::Evp("SHA256", d), "sha256sum"), A("md5", 32, ref::Evp("MD5", d), "md5sum"), A("sha1", 40, ref::Evp("SHA1", d), "sha1sum"),
    A("sha224", 56, ref::Evp("SHA224", d), "sha224sum"), A("sha384", 96, ref::Evp("SHA384", d), "sha384sum"), A("sha512", 128, ref::Evp("SHA512", d), "sha512sum"),
    A("sha512-224", 56, ref::Evp("SHA512-224", d), nullptr), A("sha512-256", 64, ref::Evp("SHA512-256", d), nullptr), A("sha3-224", 56, ref::Evp("SHA3-224", d), nullptr),
    A("sha3-256", 64, ref::Evp("SHA3-256", d), nullptr), A("sha3-384", 96, ref::Evp("SHA3-384", d), nullptr), A("sha3-512", 128, ref::Evp("SHA3-512", d), nullptr),
    A("shake128", 64, ref::Evp("SHAKE128", d, 32), nullptr), A("shake256", 64, ref::Evp("SHAKE256", d, 32), nullptr), A("blake2b", 128, ref::Evp("BLAKE2B-512", d), "b2sum"),
    A("blake2b-256", 64, ref::Blake2b(32, "", d), nullptr), A("blake3", 64, ref::Blake3(d, 32), nullptr)};
const Algo& PickAlgo(pbt::Src& src) { return kAlgos[src.Draw(std::size(kAlgos) - 1)]; }

std::string Upper(std::string s, pbt::Src& src) {
  uint64_t mask = src.Draw(3) == 0 ? ~0ULL : src.Draw(~0ULL);
  for (size_t i = 0; i < s.size(); ++i) if (mask >> (i % 64) & 1U) s[i] = char(toupper(static_cast<unsigned char>(s[i])));
  return s;
}
}  // namespace

#define LRULE "lines built as digest + separator + name and then mutated (character replaced, inserted, removed, truncated), digest length 0..20 or an algorithm's; non-trivial: accepted by the model, or one edit away from an accepted line"
PBT_PROP(parse_line, 400000, 6000000, LRULE) {
  size_t n = src.Bool() ? src.Draw(6) : kAlgos[src.Draw(std::size(kAlgos) - 1)].hex;
  std::string line;
  for (size_t i = 0; i < n; ++i) line += i < 4 || n < 10 ? src.PickChar("0aF9fAbBcC") : "0123456789abcdefABCDEF"[i * 7 % 22];
  line += ' ';
  line += src.PickChar(" * *x");
  line += src.Str("ab \\*./0\n\t\r-\xc3\xa9\xff", 8);
  size_t edits = src.Weighted({5, 4, 1});
  for (size_t e = 0; e < edits; ++e) {
    size_t at = line.empty() ? 0 : src.Draw(line.size() - 1);
    if (src.Bool() && n > 0) at = std::min(line.size() - (line.empty() ? 0 : 1), n - 1 + src.Draw(3));
    char c = src.PickChar(std::string_view("gG /:@`\\ *\0x09af\xe1", 16));
    switch (src.Draw(3)) {
      case 0: if (!line.empty()) line[at] = c; break;
      case 1: line.insert(at, 1, c); break;
      case 2: if (!line.empty()) line.erase(at, 1); break;
      default: line.resize(at); break;
    }
  }
  auto hexdigit = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
  bool ok = line.size() >= n + 3 && line[n] == ' ' && (line[n + 1] == ' ' || line[n + 1] == '*');
  for (size_t i = 0; ok && i < n; ++i) ok = hexdigit(line[i]);
  PBT_NOTE("length " << n << " line " << pbt::Quote(line));
  src.Label(ok ? "well-formed" : "malformed");
  if (ok || edits == 1) src.NonTrivial();
  Exact e(line, 0);
  auto got = md::internal::ParseChecksumLine(e.view(), n);
  PBT_CHECK(got.has_value() == ok, "accepted: " << got.has_value() << ", should be accepted: " << ok << "\n  line " << pbt::Quote(line) << ", digest length " << n);
  if (ok) {
    PBT_EQ(got->hex, std::string_view(line).substr(0, n), "digest part");
    PBT_EQ(got->file_name, std::string_view(line).substr(n + 2), "file name part");
  }
}

namespace {
// Names that are hard to get right, without newlines (see the known finding).
std::string Name(pbt::Src& src) {
  static const char* const kSpecial[] = {"f", " lead", "trail ", "*star", " *x", "back\\slash", "\\n", "\\", "a  b", "tab\tname", "quote'\"", "caf\xc3\xa9", "--", "0123456789abcdef0123456789abcdef", "a: OK", "#c", "cr\r"};
  std::string n = src.Bool() ? kSpecial[src.Draw(16)] : src.Str("ab \\*\t'\"#.~$\xc3\xa9%", 9);
  if (n.empty() || n == "." || n == ".." || n == "-") n = "x" + n;
  return n;
}
struct Tree {
  std::string dir;
  std::map<std::string, std::string> files;       // name -> content
  std::map<std::string, std::string> unreadable;  // name -> kind
};
Tree MakeTree(pbt::Src& src, size_t max_files) {
  Tree t;
  t.dir = pbt::CaseDir();
  for (size_t i = src.Size(1, max_files); i > 0; --i) {
    std::string n = Name(src);
    std::string d = src.Blob(src.Weighted({6, 2, 1}) == 2 ? (1U << 16U) - 1 + src.Draw(2) + src.Draw(1) * (1U << 16U) : src.Draw(140));
    t.files[n] = d;
    WriteFile(t.dir + "/" + n, d);
  }
  static const char* const kKinds[] = {"missing", "directory", "dangling", "ioerror", "notdir"};
  for (size_t i = src.Draw(2); i > 0; --i) {
    std::string kind = kKinds[src.Draw(4)], n = "U" + std::to_string(i) + Name(src);
    if (t.files.count(n)) continue;
    t.unreadable[n] = kind;
    if (kind == "directory") mkdir((t.dir + "/" + n).c_str(), 0755);
    if (kind == "dangling") (void)!symlink("nowhere", (t.dir + "/" + n).c_str());
    if (kind == "ioerror") (void)!symlink("/proc/self/mem", (t.dir + "/" + n).c_str());
    if (kind == "notdir") { t.unreadable.erase(n); t.unreadable[t.files.begin()->first + "/" + n] = kind; }
  }
  return t;
}
size_t Count(const std::string& s, const std::string& what) {
  size_t n = 0;
  for (size_t p = s.find(what); p != s.npos; p = s.find(what, p + 1)) ++n;
  return n;
}
}  // namespace

PBT_PROP(compute, 1500, 40000, "a generated directory of files with awkward names plus unreadable entries, every algorithm and spelling of its flag, --reverse, -d, stdin; non-trivial: at least one readable file; every printed line is parsed back") {
  const Algo& a = PickAlgo(src);
  Tree t = MakeTree(src, 3);
  std::vector<std::string> args;
  switch (src.Draw(3)) {
    case 0: args = {"--algorithm=" + std::string(a.name)}; break;
    case 1: args = {"-a", a.name}; break;
    case 2: args = {"--algorithm=md5", std::string("--a=") + a.name}; break;
    default: args = {"--algorithm", a.name}; break;
  }
  bool reverse = src.Chance(1, 5), skip = src.Chance(1, 3);
  if (reverse) args.push_back("--reverse");
  if (skip) args.push_back(src.Bool() ? "-d" : "--ignore_directories");
  args.push_back("--");
  std::string input = src.Blob(src.Draw(80)), want_out;
  bool stdin_used = false;
  int want = 0;
  size_t errors = 0;
  std::vector<std::string> names;
  for (size_t i = src.Size(1, 4); i > 0; --i) {
    std::string n, hex;
    size_t k = src.Weighted({6, 3, 1});
    if (k == 1 && !t.unreadable.empty()) {
      auto it = t.unreadable.begin();
      if (t.unreadable.size() > 1 && src.Bool()) ++it;
      n = it->first;
      if (it->second == "directory" && skip) { args.push_back(n); continue; }
      want = 1;
      ++errors;
      args.push_back(n);
      continue;
    }
    if (k == 2) {
      if (stdin_used) continue;
      stdin_used = true;
      n = "-";
      hex = a.ref(input);
    } else {
      auto it = t.files.begin();
      std::advance(it, src.Draw(t.files.size() - 1));
      n = it->first;
      hex = a.ref(it->second);
      src.NonTrivial();
    }
    args.push_back(n);
    names.push_back(n);
    want_out += reverse ? n + "  " + hex + "\n" : hex + "  " + n + "\n";
    const std::string printed = hex + "  " + n;
    auto back = md::internal::ParseChecksumLine(printed, a.hex);
    PBT_CHECK(back && back->hex == hex && back->file_name == n, "printed line does not parse back");
  }
  if (args.back() == "--") return;
  PBT_NOTE(pbt::Show(args));
  ToolResult r = RunTool(DigestToolMain, args, t.dir, input);
  PBT_EQ(r.out, want_out, pbt::Show(args) << "\n" << r.Show());
  PBT_CHECK(r.exited && r.code == want, "exit code should be " << want << "\n" << pbt::Show(args) << "\n" << r.Show());
  PBT_EQ(Count(r.err, "\n"), errors, "one message per unreadable argument\n" << r.Show());
  // Each printed line must parse back to that digest and name.
  if (!reverse) {
    size_t p = 0;
    for (auto& n : names) {
      size_t e = r.out.find('\n', p);
      auto l = md::internal::ParseChecksumLine(std::string_view(r.out).substr(p, e - p), a.hex);
      PBT_CHECK(l.has_value(), "printed line is rejected: " << pbt::Quote(r.out));
      PBT_EQ(l->file_name, std::string_view(n), "file name read back");
      p = e + 1;
    }
  }
}

namespace {
struct Check {
  std::string list;
  size_t ok = 0, bad = 0, unreadable = 0, malformed = 0;
  std::string out;
};
void AddLine(pbt::Src& src, const Algo& a, const Tree& t, bool quiet, bool silent, bool ignore_missing, Check& c) {
  auto star = [&] { return src.Chance(1, 4) ? " *" : "  "; };
  size_t k = src.Weighted({10, 3, 3, 3, 1, 1});
  if (k == 2 && t.unreadable.empty()) k = 0;
  auto it = t.files.begin();
  std::advance(it, src.Draw(t.files.size() - 1));
  std::string hex = a.ref(it->second), line;
  switch (k) {
    case 0:
      line = Upper(hex, src) + star() + it->first;
      ++c.ok;
      if (!quiet) c.out += it->first + ": OK\n";
      break;
    case 1: {  // a wrong digest: one hex digit, or another file's or the empty digest
      std::string w = hex;
      if (src.Chance(1, 4)) w = a.ref(""); else { size_t i = src.Draw(w.size() - 1); w[i] = "0123456789abcdef"[((w[i] <= '9' ? w[i] - '0' : w[i] - 'a' + 10) + 1 + src.Draw(14)) % 16]; }
      line = Upper(w, src) + star() + it->first;
      if (w == hex) { ++c.ok; if (!quiet) c.out += it->first + ": OK\n"; }
      else { ++c.bad; if (!silent) c.out += it->first + ": FAILED\n"; }
      break;
    }
    case 2: {
      auto u = t.unreadable.begin();
      if (t.unreadable.size() > 1 && src.Bool()) ++u;
      line = a.ref("") + star() + u->first;
      if (!ignore_missing) { ++c.unreadable; if (!silent) c.out += u->first + ": FAILED open or read\n"; }
      break;
    }
    case 3: {
      static const char* const kBad[] = {"#", " ", "# comment", "x  y"};
      switch (src.Draw(5)) {
        case 0: line = kBad[src.Draw(3)]; break;
        case 1: line = hex.substr(1) + "  " + it->first; break;
        case 2: line = hex + "0  " + it->first; break;
        case 3: line = hex + " " + "x" + it->first; break;
        case 4: line = hex + "  "; break;
        default: line = hex; line[src.Draw(hex.size() - 1)] = 'g'; line += "  " + it->first; break;
      }
      ++c.malformed;
      break;
    }
    case 4: break;  // an empty line
    default: line = "  " + hex + "  " + it->first; ++c.malformed; break;
  }
  c.list += line + "\n";
}
}  // namespace

PBT_PROP(check, 4000, 100000, "a generated directory and one to three checksum lists naming correct, altered, missing, unreadable, malformed and empty lines, with every combination of --quiet/--status/--ignore_missing/--strict; non-trivial: at least two lines of different outcome") {
  const Algo& a = PickAlgo(src);
  Tree t = MakeTree(src, 3);
  bool quiet = src.Chance(1, 4), silent = src.Chance(1, 5), ignore = src.Chance(1, 3), strict = src.Chance(1, 3);
  std::vector<std::string> args = {"--a=" + std::string(a.name), src.Bool() ? "-c" : "--check"};
  if (quiet) args.push_back("--quiet");
  if (silent) args.push_back("--status");
  if (ignore) args.push_back("--ignore_missing");
  if (strict) args.push_back("--strict");
  args.push_back("--");
  Check total;
  bool fatal = false;
  std::string input;
  bool stdin_used = false;
  const size_t nlists = src.Size(1, 1 + (src.Chance(1, 4) ? 2 : 0));
  for (size_t l = 0; l < nlists; ++l) {
    if (src.Chance(1, 25)) {
      std::string n = "no-such-list";
      if (src.Bool()) { n = "list-dir"; mkdir((t.dir + "/" + n).c_str(), 0755); }
      args.push_back(n);
      fatal = true;
      break;
    }
    Check c;
    for (size_t i = src.Draw(4); i > 0; --i) AddLine(src, a, t, quiet || silent, silent, ignore, c);
    if (!c.list.empty() && src.Chance(1, 4)) c.list.pop_back();
    if (src.Chance(1, 6) && !stdin_used) { stdin_used = true; input = c.list; args.push_back("-"); }
    else { std::string n = "L" + std::to_string(l) + ".sums"; WriteFile(t.dir + "/" + n, c.list); args.push_back(n); }
    PBT_NOTE("list " << pbt::Quote(c.list));
    total.ok += c.ok; total.bad += c.bad; total.unreadable += c.unreadable; total.malformed += c.malformed;
    total.out += c.out;
  }
  int kinds = (total.ok > 0) + (total.bad > 0) + (total.unreadable > 0) + (total.malformed > 0);
  if (kinds >= 2) src.NonTrivial();
  int want = fatal || total.bad || total.unreadable || (strict && total.malformed) || (ignore && total.ok + total.bad == 0) ? 1 : 0;
  src.Label(fatal ? "unreadable list" : want ? "reports failure" : "reports success");
  ToolResult r = RunTool(DigestToolMain, args, t.dir, input);
  PBT_CHECK(r.exited && r.code == want, "exit code should be " << want << " (ok " << total.ok << ", mismatched " << total.bad << ", unreadable " << total.unreadable << ", malformed " << total.malformed << ")\n" << pbt::Show(args) << "\n" << r.Show());
  PBT_EQ(r.out, total.out, pbt::Show(args) << "\n" << r.Show());
  if (silent && !fatal) PBT_EQ(r.err, std::string(), "--status prints nothing");
  if (!silent && !fatal) {
    auto has = [&](size_t n, const char* what) {
      bool there = r.err.find("WARNING: " + std::to_string(n) + " " + what) != std::string::npos;
      PBT_CHECK(n == 0 ? r.err.find(what) == std::string::npos : there, "warning about " << n << " " << what << "\n" << r.Show());
    };
    has(total.malformed, "line(s) are improperly formatted");
    has(total.unreadable, "listed file(s) could not be read");
    has(total.bad, "computed checksum(s) did NOT match");
  }
}

PBT_PROP(round_trip_interop, 500, 8000, "files are digested by the tool, altered or not, and the printed list checked by the tool and by the coreutils tool of the same algorithm; non-trivial: at least one file altered") {
  std::vector<const Algo*> cu;
  for (auto& a : kAlgos) if (a.coreutils) cu.push_back(&a);
  const Algo& a = *cu[src.Draw(cu.size() - 1)];
  Tree t = MakeTree(src, 3);
  std::vector<std::string> args = {"--a=" + std::string(a.name), "--"};
  for (auto& [n, d] : t.files) args.push_back(n);
  ToolResult r = RunTool(DigestToolMain, args, t.dir);
  PBT_CHECK(r.exited && r.code == 0, r.Show());
  WriteFile(t.dir + "/U.list", r.out);
  bool altered = false;
  for (auto& [n, d] : t.files) {
    if (!src.Chance(1, 3)) continue;
    std::string e = d;
    if (e.empty() || src.Bool()) e += 'x'; else e[src.Draw(e.size() - 1)] ^= char(1U << src.Draw(7));
    WriteFile(t.dir + "/" + n, e);
    altered = true;
  }
  if (altered) src.NonTrivial();
  ToolResult c = RunTool(DigestToolMain, {"--a=" + std::string(a.name), "-c", "U.list"}, t.dir);
  PBT_CHECK(c.exited && c.code == (altered ? 1 : 0), "altered: " << altered << "\n" << r.out << c.Show());
  // The coreutils tool on that list, and the tool on a list written by coreutils (for names coreutils does not escape).
  bool plain = true;
  for (auto& [n, d] : t.files) plain &= n.find_first_of("\\\r") == n.npos;
  if (plain) {
    int rc = system(("cd '" + t.dir + "' && " + a.coreutils + " -c --strict U.list >/dev/null 2>&1").c_str());
    PBT_CHECK((rc == 0) == !altered, a.coreutils << " disagrees on the list\n" << r.out);
    std::string cmd = "cd '" + t.dir + "' && " + a.coreutils + (src.Bool() ? " -b" : "") + " -- ";
    for (auto& [n, d] : t.files) { cmd += "'"; for (char ch : n) { if (ch == '\'') cmd += "'\\''"; else cmd += ch; } cmd += "' "; }
    cmd += "> U.list2";
    PBT_CHECK(system(cmd.c_str()) == 0, cmd);
    ToolResult c2 = RunTool(DigestToolMain, {"--a=" + std::string(a.name), "-c", "--strict", "U.list2"}, t.dir);
    PBT_CHECK(c2.exited && c2.code == 0, "coreutils list not verified\n" << ReadFile(t.dir + "/U.list2") << c2.Show());
  }
}

PBT_FINDING(newline, "newline_in_name") {
  std::string dir = pbt::CaseDir();
  WriteFile(dir + "/a\nb", "data");
  ToolResult r = RunTool(DigestToolMain, {"--", "a\nb"}, dir);
  size_t e = r.out.find('\n');
  auto l = md::internal::ParseChecksumLine(std::string_view(r.out).substr(0, e), 64);
  return !(l && l->file_name == "a\nb");
}
