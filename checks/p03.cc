// P03: a glob walk reports exactly the matching file system entries.
//
// Random directory trees (files, directories, links to files, to directories, broken and self-referencing
// links, hidden and odd names, unreadable directories as an unprivileged user), patterns generated from the
// names, all root spellings and options, and a callback that continues, prunes, stops or fails. The reference
// enumerates the generated tree and the pattern model decides what matches.
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "glob_model.h"
#include "mbo/file/glob.h"
#include "pbt.h"
#include "re2/re2.h"
#include "tool.h"
#define main GlobToolMain
#include "mbo/file/glob_main.cc"
#undef main
namespace fs = std::filesystem;
using globm::Tok;
using mbo::file::GlobEntry;
using mbo::file::GlobEntryAction;
using mbo::file::GlobOptions;

namespace {

struct Ent {
  enum Kind { kFile, kDir, kLinkFile, kLinkDir, kBroken, kLoop } kind = kFile;
  std::size_t size = 0;
};
using Tree = std::map<std::string, Ent>;  // relative path -> entry

std::string ParentOf(const std::string& p) {
  const std::size_t at = p.rfind('/');
  return at == p.npos ? "" : p.substr(0, at);
}
std::string NameOf(const std::string& p) { return p.substr(p.rfind('/') + 1); }
int DepthOf(const std::string& p) { return static_cast<int>(std::count(p.begin(), p.end(), '/')); }

Tree GenTree(pbt::Src& src, const std::string& dir, bool odd, bool links, bool dir_links = true) {
  Tree t;
  std::vector<std::string> dirs = {""};
  std::size_t n = src.Size(0, 12);
  static const std::vector<std::string> kNames = {"a", "b", "ab", "a.cc", "b.h", ".a", ".git", "x.tar.gz", "file1", "dir", "A", "c d"};
  static const std::vector<std::string> kOdd = {"*", "?", "[a]", "a+b", "$x", "^y", "n", "\\d", "a\nb", "{}", "(b)", "a|b", "\xc3\xa9", "#", "-", "]", "a:"};
  for (std::size_t i = 0; i < n; ++i) {
    const std::string parent = src.Pick(dirs);
    const std::string name = odd && src.Chance(1, 3) ? src.Pick(kOdd) : src.Pick(kNames);
    const std::string rel = parent.empty() ? name : parent + "/" + name;
    if (t.contains(rel)) continue;
    Ent e;
    switch (src.Weighted({5, 5, links ? 1U : 0U, links && dir_links ? 1U : 0U, links ? 1U : 0U, links ? 1U : 0U})) {
      case 0:
        e = {Ent::kFile, src.Chance(1, 6) ? src.Size(1000, 70000) : src.Size(0, 20)};
        WriteFile(dir + "/" + rel, std::string(e.size, 'x'));
        break;
      case 1:
        e = {Ent::kDir};
        fs::create_directory(dir + "/" + rel);
        dirs.push_back(rel);
        break;
      case 2:
        e = {Ent::kLinkFile, src.Size(0, 9)};
        WriteFile(dir + ".target" + std::to_string(i), std::string(e.size, 'y'));
        fs::create_symlink(dir + ".target" + std::to_string(i), dir + "/" + rel);
        break;
      case 3:
        e = {Ent::kLinkDir};
        fs::create_directory(dir + ".dir" + std::to_string(i));
        WriteFile(dir + ".dir" + std::to_string(i) + "/in", "12345");
        fs::create_symlink(dir + ".dir" + std::to_string(i), dir + "/" + rel);
        break;
      case 4:
        e = {Ent::kBroken};
        fs::create_symlink("nowhere", dir + "/" + rel);
        break;
      default:
        e = {Ent::kLoop};
        fs::create_symlink(name, dir + "/" + rel);
        break;
    }
    t[rel] = e;
  }
  return t;
}

// A pattern made from the names of the tree.
globm::Toks GenPattern(pbt::Src& src, const Tree& t, const globm::Opts& o) {
  if (t.empty() || src.Chance(1, 8)) return globm::GenToks(src, o, 5);
  std::vector<std::string> paths;
  for (const auto& [p, e] : t) paths.push_back(p);
  const std::vector<char32_t> cps = globm::Decode(src.Pick(paths));
  globm::Toks r;
  const bool generic = src.Chance(2, 3);
  for (std::size_t i = 0; i < cps.size(); ++i) {
    const bool star = !r.empty() && (r.back().kind == Tok::kStar || r.back().kind == Tok::kStarStar);
    if (cps[i] == '/') {
      if (star && r.back().kind == Tok::kStarStar && src.Bool()) continue;
      r.push_back({.kind = Tok::kSlash, .text = "/"});
      continue;
    }
    const bool start = i == 0 || cps[i - 1] == '/';
    if (generic && src.Chance(start ? 1 : 1, start ? 2 : 4)) {
      switch (src.Draw(4)) {
        case 0: r.push_back({.kind = Tok::kAny, .text = "?"}); continue;
        case 1: if (!star) r.push_back({.kind = Tok::kStar, .text = "*"}); while (i + 1 < cps.size() && cps[i + 1] != '/' && src.Chance(3, 4)) ++i; continue;
        case 2: case 3: if (!star) r.push_back({.kind = o.star_star ? Tok::kStarStar : Tok::kStar, .text = "**"}); while (i + 1 < cps.size() && (src.Chance(1, 4) || cps[i + 1] != '/') && src.Chance(4, 5)) ++i; continue;
        default:
          if (o.ranges) {
            Tok x = globm::GenRange(src);
            if (!x.neg && !x.Has(cps[i]) && cps[i] < 128 && std::isalnum(static_cast<int>(cps[i]))) {
              x.text = std::string("[") + static_cast<char>(cps[i]) + "]";
              x.ranges = {{cps[i], cps[i]}};
              x.classes.clear();
            }
            r.push_back(x);
            continue;
          }
      }
    }
    r.push_back(globm::MakeLit(src, cps[i], o));
  }
  while (r.size() >= 3 && r[0].kind == Tok::kStarStar && r[1].kind == Tok::kSlash && r[2].kind == Tok::kStarStar) r.erase(r.begin(), r.begin() + 2);
  return r;
}
std::string ShowTree(const Tree& t) {
  std::string s;
  for (const auto& [p, e] : t) s += pbt::Quote(p) + std::string(1, "fdlLxo"[e.kind]) + " ";
  return s;
}

struct Seen {
  std::string path, rel;
  int depth;
  std::size_t size;
};

}  // namespace

PBT_PROP(walk, 20000, 400000, "some but not all entries match") {
  const std::string base = pbt::CaseDir();
  const std::string dir = base + "/root.d";
  fs::create_directory(dir);
  const Tree tree = GenTree(src, dir, src.Bool(), src.Chance(1, 3));
  const globm::Opts o{.star_star = !src.Chance(1, 8), .ranges = !src.Chance(1, 8)};
  const globm::Toks toks = src.Chance(1, 12) ? globm::Toks{} : GenPattern(src, tree, o);
  const std::string pattern = globm::Text(toks);
  mbo::file::Glob2Re2Options conv;
  conv.allow_star_star = o.star_star;
  conv.allow_ranges = o.ranges;
  GlobOptions opts;
  opts.use_rel_path = src.Bool();
  opts.recursive = !src.Chance(1, 5);
  opts.use_current_dir = !src.Chance(1, 4);
  const bool follow = src.Chance(1, 6);
  if (follow) opts.dir_options |= fs::directory_options::follow_directory_symlink;
  // The root in many spellings; `prefix` is what entry paths have to start with.
  std::string root = dir, cwd = base, prefix = dir;
  switch (src.Draw(8)) {
    case 0: root = dir + "/"; break;
    case 1: root = base + "/./root.d/."; break;
    case 2: root = base + "//root.d/../root.d"; break;
    case 3: root = "root.d"; prefix = opts.use_current_dir ? dir : "root.d"; break;
    case 4: root = "./root.d/"; prefix = opts.use_current_dir ? dir : "root.d"; break;
    case 5: root = "../" + NameOf(base) + "/root.d"; prefix = opts.use_current_dir ? dir : root; break;
    case 6: root = "."; cwd = dir; break;
    case 7: root = ""; cwd = dir; break;
    default: break;
  }
  PBT_NOTE("pattern " << pbt::Quote(pattern) << " root " << pbt::Quote(root) << (opts.use_rel_path ? " rel" : "") << (opts.recursive ? "" : " flat") << (opts.use_current_dir ? "" : " no-cwd") << (follow ? " follow" : "") << "\n" << ShowTree(tree));
  // Reference: all reachable entries; `hit` decides by the pattern.
  Tree reach = tree;
  if (follow) for (const auto& [p, e] : tree) if (e.kind == Ent::kLinkDir) reach[p + "/in"] = {Ent::kFile, 5};
  if (!opts.recursive) std::erase_if(reach, [](const auto& x) { return x.first.find('/') != std::string::npos; });
  globm::Matcher with(toks, true), without(toks, false);
  std::set<std::string> hits;
  for (const auto& [p, e] : reach) {
    const bool m = pattern.empty() || with.Match(p);
    if (!pattern.empty() && m != without.Match(p)) { src.Label("range meets slash"); return; }
    if (m) hits.insert(p);
  }
  if (!hits.empty() && hits.size() < reach.size()) src.NonTrivial();
  // What the callback answers for each entry.
  std::set<std::string> prune;
  for (const auto& h : hits) if (src.Chance(1, 5)) prune.insert(h);
  const bool limited = src.Chance(1, 5), fail = limited && src.Bool();
  const std::size_t limit = src.Size(1, 4);
  std::vector<Seen> seen;
  fs::current_path(cwd);
  auto func = [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
    const std::string path = e.entry.path().native();
    seen.push_back({path, e.rel_path ? e.rel_path->native() : "", e.depth, e.FileSize()});
    PBT_EQ(e.rel_path.has_value(), static_cast<bool>(opts.use_rel_path), "rel_path");
    PBT_EQ(std::string(e.MaybeRelativePath().native()), opts.use_rel_path ? seen.back().rel : path, "MaybeRelativePath");
    if (limited && seen.size() == limit) {
      if (fail) return absl::AbortedError("stop here");
      return GlobEntryAction::kStop;
    }
    const std::string rel = path.starts_with(prefix + "/") ? path.substr(prefix.size() + 1) : path;
    return prune.contains(rel) ? GlobEntryAction::kDoNotRecurse : GlobEntryAction::kContinue;
  };
  absl::Status status;
  switch (src.Draw(1)) {
    case 0: status = mbo::file::Glob(root, pattern, conv, opts, func); break;
    default: status = mbo::file::Glob(mbo::file::RootAndPattern{.root = root, .pattern = pattern}, conv, opts, func); break;
  }
  fs::current_path("/");
  const bool cut = limited && seen.size() >= limit;
  if (cut && fail) {
    PBT_CHECK(status == absl::AbortedError("stop here"), status);
  } else {
    PBT_CHECK(status.ok(), status);
  }
  if (cut) PBT_EQ(seen.size(), limit, "entries after the callback ended the walk");
  std::set<std::string> got;
  for (const auto& s : seen) {
    PBT_CHECK(s.path.starts_with(prefix + "/"), "entry " << pbt::Quote(s.path) << " is not below " << pbt::Quote(prefix));
    const std::string rel = s.path.substr(prefix.size() + 1);
    PBT_CHECK(hits.contains(rel), "reported but does not match or does not exist: " << pbt::Quote(rel));
    PBT_CHECK(got.insert(rel).second, "reported twice: " << pbt::Quote(rel));
    if (opts.use_rel_path) PBT_EQ(s.rel, rel, "rel_path of " << pbt::Quote(s.path));
    PBT_EQ(s.depth, DepthOf(rel), "depth of " << pbt::Quote(rel));
    const Ent& e = reach.at(rel);
    PBT_EQ(s.size, e.kind == Ent::kFile || e.kind == Ent::kLinkFile ? e.size : 0, "FileSize of " << pbt::Quote(rel));
    for (std::string a = ParentOf(rel); !a.empty(); a = ParentOf(a)) PBT_CHECK(!prune.contains(a) , "below a pruned directory: " << pbt::Quote(rel));
  }
  if (!cut) {
    for (const auto& h : hits) {
      bool pruned = false;
      for (std::string a = ParentOf(h); !a.empty(); a = ParentOf(a)) pruned |= prune.contains(a);
      PBT_CHECK(pruned || got.contains(h), "missing: " << pbt::Quote(h));
    }
  }
}

// Regular expressions instead of globs, and patterns that are split.
PBT_PROP(split_walk, 10000, 200000, "some but not all entries match") {
  const std::string base = pbt::CaseDir();
  const std::string dir = base + "/root.d";
  fs::create_directory(dir);
  const Tree tree = GenTree(src, dir, src.Bool(), false);
  const globm::Opts o{};
  globm::Toks toks;
  for (char c : dir + "/") toks.push_back(c == '/' ? globm::MakeSlash(src, o, false) : globm::MakeLit(src, static_cast<char32_t>(c), o));
  for (auto& t : GenPattern(src, tree, o)) if (!(toks.back().kind == Tok::kSlash && t.kind == Tok::kSlash)) toks.push_back(t);
  const std::string pattern = globm::Text(toks);
  const auto split = mbo::file::GlobSplit(pattern);
  PBT_NOTE("pattern " << pbt::Quote(pattern) << "\n" << ShowTree(tree));
  PBT_CHECK(split.ok(), split.status());
  bool wild = false;
  for (std::size_t i = 0; i < toks.size(); ++i) {
    // '**/**' at the start of what is left after the split: unspecified, see P02.
    if (!wild && i + 2 < toks.size() && toks[i].kind == Tok::kStarStar && toks[i + 1].kind == Tok::kSlash && toks[i + 2].kind == Tok::kStarStar) return;
    wild |= toks[i].Wild();
  }
  std::set<std::string> got;
  const absl::Status status = mbo::file::Glob(split, {}, {}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
    PBT_CHECK(got.insert(e.entry.path().native()).second, "twice");
    return GlobEntryAction::kContinue;
  });
  globm::Matcher with(toks, true), without(toks, false);
  std::set<std::string> want;
  for (const auto& [p, e] : tree) {
    const std::string full = dir + "/" + p;
    if (with.Match(full) != without.Match(full)) return;
    if (with.Match(full)) want.insert(full);
  }
  if (!wild) return;  // Without wildcards the whole path is the root and everything below it is reported.
  // A root with '.' or '..' names the directory it leads to, so that entries differ from the pattern's text.
  if (fs::path(split->root).lexically_normal() != fs::path(split->root)) return;
  // '**' at the end also matches the directory before it, which is the root of the walk or above it.
  std::erase_if(want, [&](const std::string& p) { return p.size() <= split->root.size(); });
  if (!fs::is_directory(split->root)) {
    PBT_CHECK(!status.ok(), "a missing root is not reported");
    PBT_CHECK(got.empty() && want.empty());
    return;
  }
  PBT_CHECK(status.ok(), status);
  if (!want.empty() && want.size() < tree.size()) src.NonTrivial();
  PBT_EQ(pbt::Show(std::vector<std::string>(got.begin(), got.end())), pbt::Show(std::vector<std::string>(want.begin(), want.end())), "entries of " << pbt::Quote(pattern));
}

// Errors are statuses: missing roots, files as roots, directories that cannot be read.
PBT_PROP(errors, 800, 15000, "always") {
  src.NonTrivial();
  const std::string base = pbt::CaseDir();
  const std::string dir = base + "/d";
  fs::create_directory(dir);
  WriteFile(dir + "/f", "x");
  fs::create_directory(dir + "/open");
  WriteFile(dir + "/open/g", "x");
  fs::create_directory(dir + "/locked");
  WriteFile(dir + "/locked/h", "x");
  const std::size_t kind = src.Draw(3);
  GlobOptions opts;
  opts.recursive = src.Bool();
  const bool skip = src.Bool();
  if (!skip) opts.dir_options = fs::directory_options::none;
  if (src.Bool()) opts.use_rel_path = true;
  const std::string root = kind == 0 ? dir + "/missing" : kind == 1 ? dir + "/f" : kind == 2 ? dir : dir + "/locked";
  PBT_NOTE("root " << root.substr(base.size()) << (opts.recursive ? "" : " flat") << (skip ? "" : " do not skip"));
  if (kind >= 2) chmod((dir + "/locked").c_str(), 0);
  const int fd = open(base.c_str(), O_RDONLY | O_DIRECTORY);
  const pbt::ChildResult res = pbt::RunChild([&] {
    if (fchdir(fd) != 0) _exit(9);
    if (kind >= 2 && geteuid() == 0 && (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)) _exit(9);
    opts.use_current_dir = false;
    std::string names;
    const absl::Status s = mbo::file::Glob(root.substr(base.size() + 1), "**", {}, opts, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
      names += e.entry.path().filename().native() + " ";
      return GlobEntryAction::kContinue;
    });
    std::cout << (s.ok() ? "ok " : "error ");
    if (s.code() == absl::StatusCode::kNotFound) std::cout << "notfound ";
    std::string sorted;
    std::set<std::string> set;
    std::istringstream in(names);
    for (std::string n; in >> n;) set.insert(n);
    for (const auto& n : set) std::cout << n << ' ';
    std::cout.flush();
    _exit(0);
  });
  close(fd);
  chmod((dir + "/locked").c_str(), 0755);
  if (res.exited && res.code == 9) { src.Label("cannot drop privileges"); return; }
  PBT_CHECK(res.exited && res.code == 0, "crash:\n" << res.out);
  if (kind == 0) PBT_EQ(res.out, "error notfound ", "missing root");
  if (kind == 1) PBT_EQ(res.out, "error ", "a file as root");
  if (kind == 2 && !opts.recursive) PBT_EQ(res.out, "ok f locked open ", "flat");
  if (kind == 2 && opts.recursive && skip) PBT_EQ(res.out, "ok f g locked open ", "skipping a locked directory");
  if (kind == 2 && opts.recursive && !skip) PBT_CHECK(res.out.starts_with("error "), "a directory that cannot be read is ignored: " << res.out);
  if (kind == 3) PBT_EQ(res.out, skip ? "ok " : "error ", "locked root");
}

// The tool shows and counts the same entries.
PBT_PROP(tool, 6000, 100000, "some but not all entries match") {
  const std::string base = pbt::CaseDir();
  const std::string dir = base + "/root.d";
  fs::create_directory(dir);
  Tree tree = GenTree(src, dir, false, src.Chance(1, 3), false);
  const bool nodotdir = src.Chance(1, 3), nodotfile = src.Chance(1, 3), no_recurse = src.Chance(1, 5), fast = src.Bool();
  const bool depth = src.Bool(), size = src.Bool(), type = src.Bool(), noentries = src.Chance(1, 5), sum = src.Bool(), ext = src.Chance(1, 3), re2 = src.Chance(1, 4);
  const globm::Opts o{};
  globm::Toks toks = GenPattern(src, tree, o);
  std::string pattern = globm::Text(toks);
  if (pattern.starts_with('-')) return;  // Would be a flag.
  std::vector<std::string> args;
  auto flag = [&](bool b, const char* s) { if (b) args.push_back(s); };
  flag(nodotdir, "--nodotdir"); flag(nodotfile, "--nodotfile"); flag(no_recurse, "--norecurse_match"); flag(fast, "--fast");
  flag(depth, "--depth"); flag(size, "--size"); flag(type, "--type"); flag(noentries, src.Bool() ? "--noentries" : "--entries=false"); flag(sum, "--sum"); flag(ext, "--sum_extensions");
  std::function<bool(const std::string&)> match;
  std::shared_ptr<RE2> regex;
  globm::Matcher with(toks, true), without(toks, false);
  if (re2) {
    args.push_back("--re2");
    pattern = src.PickStr({".*", "[^/]*", ".*[.](cc|h)", "a.*", "(.*/)?a.*", "", ".*/.*", "([^/]|/[^.])*[.](cc|cpp|h)"});
    regex = std::make_shared<RE2>(pattern);
    match = [&](const std::string& p) { return pattern.empty() || RE2::FullMatch(p, *regex); };
  } else {
    match = [&](const std::string& p) { return pattern.empty() || with.Match(p); };
    for (const auto& [p, e] : tree) if (match(p) != (pattern.empty() || without.Match(p))) return;
  }
  std::string cwd = base, root = dir;
  switch (src.Draw(4)) {
    case 0: root = "root.d"; break;
    case 1: root = "./root.d/"; break;
    case 2: root = "."; cwd = dir; break;
    default: break;
  }
  args.push_back(root);
  args.push_back(pattern);
  PBT_NOTE(pbt::Show(args) << "\n" << ShowTree(tree));
  const ToolResult res = RunTool(GlobToolMain, args, cwd);
  // Reference.
  std::set<std::string> shown;
  std::map<std::string, std::size_t> stats{{"Dirs", 0}, {"FileSize", 0}, {"Files", 0}, {"Links", 0}, {"MaxDepth", 0}, {"Other", 0}, {"Total", 0}};
  for (const auto& [p, e] : tree) {
    if (!match(p)) continue;
    bool hidden = nodotfile && e.kind == Ent::kFile && NameOf(p)[0] == '.';
    hidden |= nodotfile && e.kind == Ent::kLinkFile && NameOf(p)[0] == '.';
    hidden |= nodotdir && e.kind == Ent::kDir && NameOf(p)[0] == '.';
    for (std::string a = ParentOf(p); !a.empty(); a = ParentOf(a)) {
      hidden |= nodotdir && NameOf(a)[0] == '.';
      hidden |= no_recurse && match(a);
    }
    if (hidden) continue;
    shown.insert(p);
    ++stats["Total"];
    stats["MaxDepth"] = std::max(stats["MaxDepth"], static_cast<std::size_t>(DepthOf(p)));
    if (e.kind == Ent::kDir) ++stats["Dirs"];
    else if (e.kind != Ent::kFile) ++stats["Links"];
    else {
      ++stats["Files"];
      stats["FileSize"] += e.size;
      if (ext) {
        const std::string name = NameOf(p);
        const std::size_t dot = name.rfind('.');
        const std::string x = dot == name.npos ? "" : dot == 0 ? name : name.substr(dot);
        ++stats["FileExt(" + x + ")"];
        stats["FileSize(" + x + ")"] += e.size;
      }
    }
  }
  if (!shown.empty() && shown.size() < tree.size()) src.NonTrivial();
  PBT_CHECK(res.exited && res.code == 0, res.Show());
  // Read the output back.
  std::string_view rest = res.out;
  std::set<std::string> lines, want;
  auto number = [](std::string s) { std::erase_if(s, [](char c) { return !std::isdigit(static_cast<unsigned char>(c)); }); return s; };
  auto field = [](std::string_view& l) {
    while (!l.empty() && l[0] == ' ') l.remove_prefix(1);
    const std::string f(l.substr(0, l.find(' ')));
    l.remove_prefix(std::min(l.size(), f.size() + 1));
    return f;
  };
  std::size_t count = 0;
  bool in_sum = false;
  std::map<std::string, std::size_t> got_stats;
  while (!rest.empty()) {
    std::string_view line = rest.substr(0, rest.find('\n'));
    rest.remove_prefix(std::min(rest.size(), line.size() + 1));
    if (line.empty()) { PBT_CHECK(!in_sum, "empty line\n" << res.out); in_sum = true; continue; }
    if (in_sum) {
      std::string l(line);
      while (l.ends_with(' ')) l.pop_back();
      const std::size_t colon = l.rfind(':');
      PBT_CHECK(colon != l.npos, l);
      got_stats[l.substr(0, colon)] = std::stoul(number(l.substr(colon)));
      continue;
    }
    ++count;
    std::string r;
    if (size) r += number(field(line)) + "|";
    if (type) r += field(line) + "|";
    if (depth) r += number(field(line)) + "|";
    lines.insert(r + std::string(line));
  }
  for (const auto& p : shown) {
    const Ent& e = tree[p];
    std::string r;
    if (size) r += std::to_string(e.kind == Ent::kFile || e.kind == Ent::kLinkFile ? e.size : 0) + "|";
    if (type) r += std::string(e.kind == Ent::kDir ? "d" : e.kind == Ent::kFile ? "f" : "l") + "|";
    if (depth) r += std::to_string(DepthOf(p)) + "|";
    want.insert(r + p);
  }
  if (noentries && fast) src.Label("fast without entries");
  if (!(noentries && fast)) {
    PBT_EQ(count, noentries ? 0 : shown.size(), "number of entries shown\n" << res.Show());
    if (!noentries) PBT_EQ(pbt::Show(std::vector<std::string>(lines.begin(), lines.end())), pbt::Show(std::vector<std::string>(want.begin(), want.end())), "entries shown");
  }
  PBT_EQ(in_sum, sum || ext, "a summary is shown");
  if (in_sum) {
    for (const auto& [k, v] : stats) PBT_EQ(got_stats[k], v, "summary of " << k << "\n" << res.out);
    PBT_EQ(got_stats.size(), stats.size(), "summary\n" << res.out);
  }
}
