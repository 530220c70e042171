// I01: INI data survives a write/read round trip, and any text reads as the documented syntax says.
//
// Documents are built from random operation histories next to a model, written, read back and compared; every
// text (generated lines of all kinds and raw bytes) is parsed by the library and by a separate reader below.
#include <filesystem>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "mbo/file/ini/ini_file.h"
#include "pbt.h"
#include "tool.h"

using mbo::file::IniFile;

namespace {

using Group = std::map<std::string, std::string>;
using Model = std::map<std::string, Group>;

bool Space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
std::string Strip(std::string_view s) {
  while (!s.empty() && Space(s.front())) s.remove_prefix(1);
  while (!s.empty() && Space(s.back())) s.remove_suffix(1);
  return std::string(s);
}

// The documented syntax.
Model Reference(const std::string& text) {
  Model m;
  std::string group;
  std::size_t at = 0;
  while (at < text.size()) {
    const std::size_t nl = std::min(text.find('\n', at), text.size());
    const std::string line = Strip(std::string_view(text).substr(at, nl - at));
    at = nl + 1;
    if (line.empty() || line[0] == ';' || line[0] == '#') continue;
    if (line.size() >= 2 && line.front() == '[' && line.back() == ']') {
      group = Strip(std::string_view(line).substr(1, line.size() - 2));
      continue;
    }
    const std::size_t eq = line.find('=');
    if (eq == line.npos) {
      m[group][line] = "";
    } else {
      m[group][Strip(line.substr(0, eq))] = Strip(line.substr(eq + 1));
    }
  }
  return m;
}

std::string ShowModel(const Model& m) {
  std::string r;
  for (const auto& [g, d] : m) {
    r += "[" + pbt::Quote(g) + "]";
    for (const auto& [k, v] : d) r += " " + pbt::Quote(k) + "=" + pbt::Quote(v);
    r += "\n";
  }
  return r;
}

// Everything that can be asked about `ini`. Groups without keys may or may not be known.
void Compare(const IniFile& ini, const Model& want, std::string_view what) {
  Model got;
  for (const auto& g : ini.GetGroups()) {
    for (const auto& [k, v] : ini.GetGroupData(g)) got[g][k] = v;
  }
  PBT_EQ(ShowModel(got), ShowModel(want), what);
  std::size_t n = 0;
  for (const auto& [g, d] : want) {
    for (const auto& [k, v] : d) {
      ++n;
      PBT_CHECK(ini.HasKey({.group = g, .key = k}), what << ": HasKey " << pbt::Quote(g) << " " << pbt::Quote(k));
      PBT_EQ(ini.GetKeyOrDefault({.group = g, .key = k}, "no"), v, what);
      const auto s = ini.GetKeyOrStatus({.group = g, .key = k});
      PBT_CHECK(s.ok(), what << ": " << s.status());
      PBT_EQ(*s, v, what);
    }
  }
  PBT_EQ(ini.size(), n, what << ": size");
  if (n > 0) PBT_CHECK(!ini.empty(), what << ": empty");
}

std::string Token(pbt::Src& src, int kind) {  // 0: group, 1: key, 2: value
  static const std::vector<std::string> kFix = {"", "a", "b", "foo", "k", "k2", "g1..g2", "[", "]", "[]", "a]", "[a", "a b", "a;b", "a#b", "=", "a=b", "==", "\"q\"", "\\n", "\xc3\xa9", "key.with.dots", "1", "A"};
  if (src.Chance(3, 4)) return src.Pick(kFix);
  std::string s = src.Str(kind == 2 ? "ab =[];#\"\\\t\r\x01\xff" : "ab []=;#\t\r", 7);
  return s;
}
std::string Pad(pbt::Src& src) { return src.Chance(2, 3) ? std::string() : src.Str(" \t\r\v\f", 3); }

// Whether the syntax can express these at all.
bool GroupOk(const std::string& g) { return Strip(g) == g && g.find('\n') == g.npos; }
bool PairOk(const std::string& k, const std::string& v) {
  if (Strip(k) != k || Strip(v) != v || k.find_first_of("=\n") != k.npos || v.find('\n') != v.npos) return false;
  if (!k.empty() && (k[0] == ';' || k[0] == '#')) return false;
  const std::string line = k + "=" + v;
  return !(line.front() == '[' && line.back() == ']');
}

}  // namespace

PBT_PROP(history, 15000, 300000, "at least two groups or an overwritten key") {
  IniFile ini = IniFile::NewEmpty();
  Model m;
  bool over = false;
  const std::string dir = pbt::CaseDir();
  std::filesystem::create_directories(dir);
  const std::string file = dir + "/x.ini";
  const std::size_t ops = src.SkewSize(25);
  for (std::size_t i = 0; i < ops; ++i) {
    const std::string g = Token(src, 0), k = Token(src, 1);
    if (!GroupOk(Strip(g))) continue;
    const std::string pg = Pad(src) + g + Pad(src), pk = Pad(src) + k + Pad(src);
    switch (src.Weighted({6, 2, 2, 1, 1})) {
      case 0: {
        std::string v = Token(src, 2);
        if (!PairOk(Strip(k), v)) break;
        PBT_NOTE("set " << pbt::Quote(pg) << " " << pbt::Quote(pk) << " " << pbt::Quote(v));
        over |= m[Strip(g)].contains(Strip(k));
        m[Strip(g)][Strip(k)] = v;
        switch (src.Draw(2)) {
          case 0: ini.SetKey({.group = pg, .key = pk}, std::move(v)); break;
          case 1: ini.SetKey({.group = pg, .key = pk}, std::string_view(v)); break;
          default:
            if (v.find('\0') != v.npos) ini.SetKey({.group = pg, .key = pk}, std::move(v));
            else ini.SetKey({.group = pg, .key = pk}, v.c_str());
        }
        break;
      }
      case 1: {
        const std::int64_t n = src.I64();
        if (!PairOk(Strip(k), "1")) break;
        PBT_NOTE("set " << pbt::Quote(pg) << " " << pbt::Quote(pk) << " " << n);
        ini.SetKey({.group = pg, .key = pk}, n);
        m[Strip(g)][Strip(k)] = std::to_string(n);
        break;
      }
      case 2: {  // Lookups, with padding and defaults.
        const auto gi = m.find(Strip(g));
        const bool has = gi != m.end() && gi->second.contains(Strip(k));
        PBT_EQ(ini.HasKey({.group = pg, .key = pk}), has, "HasKey " << pbt::Quote(pg) << " " << pbt::Quote(pk));
        const auto s = ini.GetKeyOrStatus({.group = pg, .key = pk});
        PBT_EQ(s.ok(), has, "GetKeyOrStatus " << pbt::Quote(pg) << " " << pbt::Quote(pk));
        if (has) PBT_EQ(*s, gi->second[Strip(k)]);
        else PBT_CHECK(s.status().code() == absl::StatusCode::kNotFound, s.status());
        PBT_EQ(ini.GetKeyOrDefault({.group = pg, .key = pk}, "dflt"), has ? gi->second[Strip(k)] : "dflt");
        PBT_EQ(ini.GetKeyOrDefault({.group = pg, .key = pk}), has ? gi->second[Strip(k)] : "");
        if (gi == m.end()) PBT_CHECK(ini.GetGroupData(Strip(g)).empty(), "data of an unknown group");
        break;
      }
      case 3: {  // Through a file and go on.
        const absl::Status s = ini.Write(file);
        PBT_CHECK(s.ok(), s);
        absl::StatusOr<IniFile> read = IniFile::Read(file);
        PBT_CHECK(read.ok(), read.status());
        ini = *std::move(read);
        break;
      }
      default: {
        IniFile copy = ini;
        ini = copy;
        Compare(copy, m, "copy");
      }
    }
  }
  if (m.size() > 1 || over) src.NonTrivial();
  PBT_EQ(ini.empty(), m.empty());
  Compare(ini, m, "built");
  PBT_CHECK(ini.Write(file).ok());
  const std::string text = ReadFile(file);
  PBT_NOTE("written: " << pbt::Quote(text));
  const absl::StatusOr<IniFile> read = IniFile::Read(file);
  PBT_CHECK(read.ok(), read.status());
  Compare(*read, m, "read back");
  PBT_EQ(read->empty(), m.empty());
  Compare(IniFile::Parse(text), m, "parsed");
  PBT_EQ(ShowModel(Reference(text)), ShowModel(m), "the written text");
  // Written again it is the same text.
  PBT_CHECK(read->Write(file + "2").ok());
  PBT_EQ(ReadFile(file + "2"), text, "written again");
}

PBT_PROP(parse, 150000, 4000000, "at least two groups with keys or a key given twice") {
  std::string text;
  if (src.Chance(1, 6)) {
    text = src.Bool() ? src.Blob(80) : src.Str("a=[];#\n\r \t", 40);
  } else {
    const std::size_t n = src.SkewSize(14);
    const std::string eol = src.Chance(1, 4) ? "\r\n" : "\n";
    for (std::size_t i = 0; i < n; ++i) {
      std::string line;
      switch (src.Weighted({8, 4, 2, 2, 1, 1})) {
        case 0: line = Pad(src) + Token(src, 1) + Pad(src) + "=" + Pad(src) + Token(src, 2); break;
        case 1: line = "[" + Pad(src) + Token(src, 0) + Pad(src) + "]"; break;
        case 2: line = src.PickStr({";", "#"}); line += Token(src, 2); break;
        case 3: break;  // Blank, maybe with spaces.
        case 4: line = Token(src, 1); break;
        default: line = "[" + Token(src, 0) + "]" + src.Str(" x;#=", 3); break;
      }
      text += Pad(src) + line + Pad(src) + (i + 1 == n && src.Bool() ? "" : eol);
    }
  }
  PBT_NOTE(pbt::Quote(text));
  const Model want = Reference(text);
  if (want.size() > 1 || (want.size() == 1 && want.begin()->second.size() + 1 < static_cast<std::size_t>(std::count(text.begin(), text.end(), '=')))) src.NonTrivial();
  // An exactly sized heap copy, so that reading past the end is seen.
  const std::vector<char> exact(text.begin(), text.end());
  std::optional<IniFile> ini;
  {
    ini.emplace(IniFile::Parse(std::string_view(exact.data(), exact.size())));
  }
  Compare(*ini, want, "parsed");
}

PBT_PROP(files, 300, 6000, "always") {
  src.NonTrivial();
  const std::string dir = pbt::CaseDir();
  std::filesystem::create_directories(dir);
  const std::string missing = dir + "/no/such.ini";
  PBT_CHECK(!IniFile::Read(missing).ok(), "reading a missing file");
  PBT_CHECK(!IniFile::Read(dir).ok(), "reading a directory");
  IniFile ini = IniFile::NewEmpty();
  if (src.Bool()) ini.SetKey({.group = "g", .key = "k"}, "v");
  PBT_CHECK(!ini.Write(missing).ok(), "writing below a missing directory");
  PBT_CHECK(!ini.Write(dir).ok(), "writing over a directory");
  // A shorter document replaces a longer file as a whole.
  const std::string text = src.Blob(200);
  WriteFile(dir + "/f", text + "\n[z]\nzz=1\n");
  PBT_CHECK(ini.Write(dir + "/f").ok());
  const auto read = IniFile::Read(dir + "/f");
  PBT_CHECK(read.ok());
  PBT_EQ(read->size(), ini.size(), "left over content");
}
