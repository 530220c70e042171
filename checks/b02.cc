// B02: RunfilesDir finds the file a label names.
//
// A runfiles tree as Bazel lays it out for a test (main workspace, other repositories under canonical names, a
// repository mapping sorted by source, optionally a manifest with the files elsewhere), files whose content is their
// name, and all spellings of labels and paths; the reference is the layout itself.
#include <sys/stat.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "mbo/testing/runfiles_dir.h"
#include "pbt.h"
namespace fs = std::filesystem;

namespace {

void Write(const std::string& path, const std::string& text) {
  fs::create_directories(fs::path(path).parent_path());
  std::ofstream(path) << text;
}

std::string ReadAll(const std::string& path) {
  std::ifstream in(path);
  return in.good() ? std::string(std::istreambuf_iterator<char>(in), {}) : "<missing>";
}

void Env(const char* name, const std::optional<std::string>& value) {
  if (value) setenv(name, value->c_str(), 1);
  else unsetenv(name);
}

struct Layout {
  std::string top, workspace;
  std::map<std::string, std::string> repos;  // apparent name in the main repository -> canonical directory
  bool mapped = true;
};

Layout Make(pbt::Src& src, const std::vector<std::pair<std::string, std::string>>& files, bool manifest) {
  Layout l;
  const std::string root = pbt::CaseDir();
  l.top = root + "/bin/the_test.runfiles";
  l.workspace = src.PickStr({"_main", "_main", "my_ws"});
  l.mapped = src.Chance(4, 5);
  static const std::vector<std::string> kApparent = {"re2", "abseil-cpp", "dep", "com_re2", "de", "dep2"};
  for (const std::string& a : kApparent) {
    if (src.Chance(1, 2)) l.repos[a] = l.mapped ? a + std::string(src.PickStr({"+", "~", "++ext+r"})) : a;
  }
  if (l.mapped && src.Chance(1, 2)) l.repos["helly25_mbo"] = l.workspace;
  std::string mapping;
  std::vector<std::string> lines;
  for (const auto& [a, c] : l.repos) lines.insert(lines.begin() + static_cast<std::ptrdiff_t>(src.Size(0, lines.size())), "," + a + "," + c + "\n");
  for (const std::string& line : lines) mapping += line;
  // Other repositories have other names for things.
  if (src.Bool()) {
    for (const std::string& a : kApparent) {
      if (l.repos.contains(a) && src.Bool()) mapping += "dep+," + a + ",wrong+\n";
    }
  }
  std::string man;
  auto add = [&](const std::string& repo, const std::string& file) {
    const std::string rel = repo + "/" + file;
    Write(l.top + "/" + rel, rel);
    if (manifest) man += rel + " " + l.top + "/" + rel + "\n";
  };
  for (const auto& [dir, name] : files) {
    const std::string file = dir.empty() ? name : dir + "/" + name;
    add(l.workspace, file);
    add("wrong+", file);
    for (const auto& [a, c] : l.repos) {
      if (c != l.workspace) add(c, file);
    }
  }
  if (l.mapped || src.Bool()) Write(l.top + "/_repo_mapping", l.mapped ? mapping : "");
  Env("TEST_SRCDIR", l.top);
  Env("TEST_WORKSPACE", l.workspace);
  Env("RUNFILES_MANIFEST_FILE", std::nullopt);
  if (manifest) {
    Write(l.top + ".MANIFEST", man);
    Env("RUNFILES_MANIFEST_FILE", l.top + ".MANIFEST");
  }
  return l;
}

}  // namespace

PBT_PROP(labels, 6000, 100000, "a runfiles tree with zero to seven other repositories (mapped or not), one to three files, a label or path in one of seven spellings for one of them: the path found holds that file; non-trivial: a label (not a plain path)") {
  static const std::vector<std::string> kDirs = {"", "pkg", "a/b", "mbo/file/ini", "re2", "_main", "dep"};
  static const std::vector<std::string> kNames = {"f.txt", "tests/test.ini", "g", "x:y", "sub/a:b.txt", "@1.txt", "f@2"};
  std::vector<std::pair<std::string, std::string>> files;
  for (std::size_t i = 0, n = src.Size(1, 3); i < n; ++i) files.emplace_back(src.Pick(kDirs), src.Pick(kNames));
  const bool manifest = src.Chance(1, 4);
  const Layout l = Make(src, files, manifest);
  const auto& [dir, name] = src.Pick(files);
  const std::string file = dir.empty() ? name : dir + "/" + name;
  const bool colon = name.find(':') != name.npos;
  // The spelling with ':' between package and file; one with '/' only where there is no other ':'.
  const std::string label = !colon && !dir.empty() && src.Chance(1, 3) ? dir + "/" + name : dir + ":" + name;
  std::string want_repo = l.workspace, source;
  std::optional<std::string> workspace;
  std::string repo;
  if (!l.repos.empty() && src.Chance(3, 5)) {
    auto it = l.repos.begin();
    std::advance(it, src.Int(0, static_cast<int>(l.repos.size()) - 1));
    repo = it->first;
    want_repo = it->second;
  }
  if (!repo.empty()) {
    if (src.Chance(1, 4)) {
      workspace = repo;
      source = file;
    } else {
      source = "@" + repo + "//" + label;
      src.NonTrivial();
    }
    src.Label(l.mapped ? "mapped repository" : "unmapped repository");
  } else {
    switch (src.Int(0, 4)) {
      case 0: source = file.front() == '@' ? "//" + label : file; break;
      case 1: source = "//" + label; src.NonTrivial(); break;
      case 2: source = "@" + l.workspace + "//" + label; src.NonTrivial(); break;
      case 3: workspace = l.workspace; source = file; break;
      default: workspace = ""; source = file; break;
    }
  }
  if (workspace == l.workspace && src.Bool()) Env("TEST_WORKSPACE", std::nullopt);
  PBT_NOTE("top", l.top);
  PBT_NOTE("workspace argument", workspace.value_or("(none)"));
  PBT_NOTE("source", source);
  PBT_NOTE("wanted", want_repo + "/" + file);
  // Without a mapping a foreign repository needs the mapping file to exist only if it is looked up there.
  const auto got = workspace ? mbo::testing::RunfilesDir(*workspace, source) : mbo::testing::RunfilesDir(source);
  if (!got.ok()) {
    PBT_CHECK(!l.mapped && !repo.empty() && !fs::exists(l.top + "/_repo_mapping"));
    return;
  }
  PBT_NOTE("got", *got);
  PBT_EQ(ReadAll(*got), want_repo + "/" + file);
  PBT_EQ(workspace ? mbo::testing::RunfilesDirOrDie(*workspace, source) : mbo::testing::RunfilesDirOrDie(source), *got);
}

PBT_PROP(no_runfiles, 300, 3000, "environments without runfiles, or without what a foreign repository needs: an error, and RunfilesDirOrDie ends the process; non-trivial: always") {
  const Layout l = Make(src, {{"pkg", "f.txt"}}, false);
  const int how = src.Int(0, 2);
  std::string source(src.PickStr({"pkg/f.txt", "//pkg:f.txt", "@other//pkg:f.txt"}));
  switch (how) {
    case 0: Env("TEST_SRCDIR", std::nullopt); break;
    case 1: Env("TEST_SRCDIR", l.top + "-missing.runfiles"); break;
    default:
      source = "@other//pkg:f.txt";
      fs::rename(l.top, l.top + "x");
      Env("TEST_SRCDIR", l.top + "x");
      break;
  }
  src.NonTrivial();
  PBT_NOTE("how", how);
  PBT_NOTE("source", source);
  const auto got = mbo::testing::RunfilesDir(source);
  PBT_CHECK(!got.ok());
  const auto r = pbt::RunChild([&] { (void)mbo::testing::RunfilesDirOrDie(source); });
  PBT_CHECK(!r.exited || r.code != 0);
}
