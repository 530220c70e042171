// P01: path joining and file access are faithful.
//
// Paths: a component-based reference model of normalisation and joining.
// Files: random histories of writes, reads, line-limited reads, time stamps, removals, directories and
// symbolic links against a model of the directory; injected faults (full device, file size limit,
// missing permissions as an unprivileged user, link loops, over-long names, directories).
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "pbt.h"
#include "tool.h"
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"
namespace fs = std::filesystem;
using mbo::file::Artefact;

namespace {

bool Sep(char c) { return c == '/' || c == '\\'; }

// Reference normalisation: resolve '.', '..' and repeated '/' textually, no trailing separator.
std::string NormOnce(std::string p) {
  while (p.size() > 1 && Sep(p.back())) p.pop_back();
  if (p.empty()) return p;
  const bool absolute = p[0] == '/';
  std::vector<std::string> parts;
  std::string part;
  auto flush = [&] {
    if (part == "..") {
      if (!parts.empty() && parts.back() != "..") parts.pop_back();
      else if (!absolute) parts.push_back(part);
    } else if (!part.empty() && part != ".") {
      parts.push_back(part);
    }
    part.clear();
  };
  for (char c : p) {
    if (c == '/') flush(); else part += c;
  }
  flush();
  std::string r = absolute ? "/" : "";
  for (std::size_t i = 0; i < parts.size(); ++i) r += (i ? "/" : "") + parts[i];
  return r.empty() ? "." : r;
}
std::string Norm(std::string p) {
  for (std::string next; (next = NormOnce(p)) != p; p = next) {}
  return p;
}
std::string Join2(const std::string& a, std::string b) {
  if (a.empty()) return Norm(b);
  while (!b.empty() && b[0] == '/') b.erase(0, 1);
  return Norm(a + "/" + b);
}
// All parts concatenated; or each part kept inside its own root first (both readings of "treated as relative").
std::string JoinFlat(const std::vector<std::string>& parts) {
  std::string r;
  for (const auto& p : parts) if (!p.empty()) r += r.empty() ? p : "/" + p;
  return Norm(r);
}
std::string JoinRooted(const std::vector<std::string>& parts) {
  std::string r = Norm(parts.back());
  for (std::size_t i = parts.size() - 1; i-- > 0;) r = Join2(parts[i], r);
  return r;
}
std::string JoinAbs(const std::vector<std::string>& parts) {
  std::size_t first = 0;
  for (std::size_t i = 0; i < parts.size(); ++i) if (!parts[i].empty() && parts[i][0] == '/') first = i;
  return JoinFlat({parts.begin() + static_cast<std::ptrdiff_t>(first), parts.end()});
}

// Without `back` no backslashes: whether one at the end of an inner element is a separator is unspecified.
std::string GenPath(pbt::Src& src, bool back) {
  std::string p;
  if (src.Chance(1, 8)) return p;
  if (src.Chance(1, 4)) p = src.Chance(1, 4) ? "//" : "/";
  const std::size_t n = src.Size(0, 5);
  for (std::size_t i = 0; i < n; ++i) {
    if (i) p += src.Chance(1, 6) ? "//" : "/";
    switch (src.Draw(9)) {
      case 0: case 1: p += "."; break;
      case 2: case 3: p += ".."; break;
      case 4: p += src.Str(back ? std::string_view("ab. \xff-C:\\") : std::string_view("ab. \xff-C:"), 4); break;
      case 5: p += "..."; break;
      default: p += src.Str("ab", 2); break;
    }
  }
  if (src.Chance(1, 4)) p += back ? src.PickStr({"/", "//", "\\", "\\/", "/\\", "/."}) : src.PickStr({"/", "//", "/."});
  return p;
}

std::string NormP(const std::string& p) { return mbo::file::NormalizePath(p).native(); }

template<typename F>
fs::path CallN(const std::vector<std::string>& p, F&& f) {
  switch (p.size()) {
    case 1: return f(fs::path(p[0]));
    case 2: return f(fs::path(p[0]), p[1]);
    case 3: return f(fs::path(p[0]), std::string_view(p[1]), fs::path(p[2]));
    case 4: return f(p[0], p[1].c_str(), p[2], fs::path(p[3]));
    default: return f(fs::path(p[0]), p[1], p[2], p[3], p[4]);
  }
}

}  // namespace

PBT_PROP(normalize, 40000, 2000000, "normalising changes the path") {
  const std::string p = src.Chance(1, 6) ? src.Str("/.\\a", 9) : GenPath(src, true);
  const std::string got = mbo::file::NormalizePath(p).native();
  if (got != p) src.NonTrivial();
  PBT_EQ(got, Norm(p), "NormalizePath(" << pbt::Quote(p) << ")");
  PBT_EQ(NormP(got), got, "NormalizePath is not idempotent for " << pbt::Quote(p));
  PBT_EQ(mbo::file::IsAbsolutePath(p), !p.empty() && p[0] == '/', pbt::Quote(p));
  PBT_CHECK(got.size() < 2 || !Sep(got.back()), "trailing separator left by " << pbt::Quote(p) << ": " << pbt::Quote(got));
}

PBT_PROP(join, 40000, 2000000, "at least two elements are not empty") {
  const std::size_t n = src.Size(1, 5);
  std::vector<std::string> parts;
  std::size_t full = 0;
  for (std::size_t i = 0; i < n; ++i) {
    parts.push_back(GenPath(src, false));
    full += parts.back().empty() ? 0 : 1;
  }
  if (full >= 2) src.NonTrivial();
  const std::string got = CallN(parts, [](const auto&... a) { return mbo::file::JoinPaths(a...); }).native();
  const std::string flat = JoinFlat(parts), rooted = JoinRooted(parts);
  if (flat != rooted) src.Label("readings differ");
  if (got != flat) PBT_EQ(got, rooted, "JoinPaths" << pbt::Show(parts));
  PBT_EQ(NormP(got), got, "JoinPaths" << pbt::Show(parts) << " is not normal");
  const std::string abs = CallN(parts, [](const auto&... a) { return mbo::file::JoinPathsRespectAbsolute(a...); }).native();
  PBT_EQ(abs, JoinAbs(parts), "JoinPathsRespectAbsolute" << pbt::Show(parts));
}

// ---------------------------------------------------------------------------------------------
namespace {

std::string GenContent(pbt::Src& src) {
  switch (src.Draw(7)) {
    case 0: return "";
    case 1: return src.Blob(200);
    case 2: return src.Str(std::string_view("a\n\r\0\xff\x1a", 6), 30);
    case 3: {  // Around buffer sizes.
      static const std::size_t kSizes[] = {1023, 1024, 1025, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 65535, 65536, 65537, 200000};
      std::string s = src.Blob(16);
      if (s.empty()) s = "x";
      const std::size_t n = kSizes[src.Draw(13)];
      std::string r;
      r.reserve(n + s.size());
      while (r.size() < n) r += s;
      r.resize(n);
      return r;
    }
    default: {
      std::string r;
      const std::size_t n = src.Size(0, 8);
      for (std::size_t i = 0; i < n; ++i) r += src.Str("ab \r", 4) + "\n";
      if (src.Bool()) r += src.Str("ab", 3);
      return r;
    }
  }
}
std::string FirstLines(const std::string& s, std::size_t max) {
  std::size_t pos = 0;
  for (std::size_t i = 0; i < max && pos < s.size(); ++i) {
    const std::size_t nl = s.find('\n', pos);
    if (nl == s.npos) return s;
    pos = nl + 1;
  }
  return s.substr(0, pos);
}
std::size_t GenLimit(pbt::Src& src) {
  return src.Chance(1, 10) ? std::numeric_limits<std::size_t>::max() : src.Size(0, 10);
}

struct Node {
  enum Kind { kMissing, kFile, kDir } kind = kMissing;
  std::string data;
};

}  // namespace

PBT_PROP(history, 6000, 250000, "a content is read back after an overwrite") {
  const std::string dir = pbt::CaseDir();
  static const std::vector<std::string> kNames = {"a", "b", "sub", "sub/c", "link", "with space\n", "no/where"};
  std::map<std::string, Node> model;
  std::string link;  // target name of "link"
  auto resolve = [&](const std::string& n) { return n == "link" && !link.empty() ? link : n; };
  auto node = [&](const std::string& n) -> Node { auto it = model.find(resolve(n)); return it == model.end() ? Node{} : it->second; };
  auto parent_ok = [&](const std::string& n) {
    const std::string r = resolve(n);
    if (r == "no/where") return false;
    if (r.starts_with("sub/")) return node("sub").kind == Node::kDir;
    return true;
  };
  std::string log;
  int overwritten = 0;
  const std::size_t steps = src.Size(1, 20);
  for (std::size_t step = 0; step < steps; ++step) {
    const std::string name = kNames[src.Bool() ? 0 : src.Draw(6)];
    const std::string path = dir + "/" + name;
    const Node n = node(name);
    auto op = [&](std::string what) { log += what + " " + pbt::Quote(name) + "\n"; PBT_NOTE(log); };
    switch (src.Draw(9)) {
      case 0: case 1: case 2: {
        const std::string data = GenContent(src);
        op("SetContents(" + std::to_string(data.size()) + " bytes)");
        const absl::Status status = mbo::file::SetContents(path, data);
        const bool can = parent_ok(name) && n.kind != Node::kDir;
        PBT_EQ(status.ok(), can, "SetContents: " << status << "\n" << log);
        if (can) {
          if (n.kind == Node::kFile && n.data != data) ++overwritten;
          model[resolve(name)] = {Node::kFile, data};
          PBT_EQ(ReadFile(path), data, "bytes on disk\n" << log);
        }
        break;
      }
      case 3: case 4: {
        op("GetContents");
        const auto got = mbo::file::GetContents(path);
        PBT_EQ(got.ok(), n.kind == Node::kFile, "GetContents: " << got.status() << "\n" << log);
        if (got.ok()) PBT_EQ(*got, n.data, "GetContents\n" << log);
        if (got.ok() && overwritten) src.NonTrivial();
        const absl::Status readable = mbo::file::Readable(path);
        PBT_EQ(readable.ok(), n.kind == Node::kFile, "Readable: " << readable << "\n" << log);
        if (n.kind == Node::kMissing && name != "no/where") PBT_EQ(static_cast<int>(readable.code()), static_cast<int>(absl::StatusCode::kNotFound), readable << "\n" << log);
        if (n.kind == Node::kDir) PBT_EQ(static_cast<int>(readable.code()), static_cast<int>(absl::StatusCode::kFailedPrecondition), readable << "\n" << log);
        break;
      }
      case 5: {
        const std::size_t max = GenLimit(src);
        op("GetMaxLines(" + std::to_string(max) + ")");
        const auto got = mbo::file::GetMaxLines(path, max);
        if (n.kind == Node::kFile) {
          PBT_CHECK(got.ok(), got.status() << "\n" << log);
          PBT_EQ(*got, FirstLines(n.data, max), "GetMaxLines\n" << log);
          if (overwritten) src.NonTrivial();
        } else if (max > 0 || n.kind == Node::kMissing) {
          PBT_CHECK(!got.ok(), "GetMaxLines of " << (n.kind == Node::kDir ? "a directory" : "a missing file") << ": " << pbt::Quote(*got) << "\n" << log);
        }
        break;
      }
      case 6: {
        op("mtime");
        const bool set = src.Bool();
        const std::int64_t secs = src.Chance(1, 4) ? src.Int(-2000000000, 0) : src.Int(0, 4000000000LL), nanos = src.Int(0, 999999999);
        if (set && n.kind != Node::kMissing) {
          timespec ts[2] = {{secs, nanos}, {secs, nanos}};
          PBT_CHECK(utimensat(AT_FDCWD, path.c_str(), ts, 0) == 0);
        }
        const auto got = mbo::file::GetMTime(path);
        PBT_EQ(got.ok(), n.kind != Node::kMissing, "GetMTime: " << got.status() << "\n" << log);
        if (!got.ok()) {
          PBT_EQ(static_cast<int>(got.status().code()), static_cast<int>(absl::StatusCode::kNotFound), got.status());
          break;
        }
        struct stat st{};
        PBT_CHECK(stat(path.c_str(), &st) == 0);
        PBT_EQ(absl::ToUnixNanos(*got), st.st_mtim.tv_sec * 1000000000LL + st.st_mtim.tv_nsec, "GetMTime\n" << log);
        break;
      }
      case 7: {
        Artefact::Options opt{.skip_time = src.Bool()};
        const bool limited = src.Bool();
        const std::size_t max = GenLimit(src);
        op(limited ? "Artefact::ReadMaxLines" : "Artefact::Read");
        const auto got = limited ? Artefact::ReadMaxLines(path, max, opt) : Artefact::Read(path, opt);
        if (n.kind == Node::kFile) {
          PBT_CHECK(got.ok(), got.status() << "\n" << log);
          PBT_EQ(got->data, limited ? FirstLines(n.data, max) : n.data, log);
          PBT_EQ(got->name, path, log);
          struct stat st{};
          PBT_CHECK(stat(path.c_str(), &st) == 0);
          PBT_EQ(absl::ToUnixNanos(got->time), opt.skip_time ? 0 : st.st_mtim.tv_sec * 1000000000LL + st.st_mtim.tv_nsec, "Artefact time\n" << log);
        } else if (n.kind == Node::kMissing || !limited || max > 0) {
          PBT_CHECK(!got.ok(), log);
        }
        break;
      }
      case 8: {
        if (name == "no/where") break;
        op("remove");
        std::error_code ec;
        if (name == "link") {
          fs::remove(path, ec);
          if (!link.empty()) link.clear(); else model.erase(name);
          break;
        }
        fs::remove_all(path, ec);
        model.erase(name);
        if (name == "sub") model.erase("sub/c");
        break;
      }
      default: {
        if (name == "link" && n.kind == Node::kMissing && link.empty()) {
          const std::string to(src.PickStr({"a", "sub", "sub/c"}));
          op("symlink to " + to);
          fs::create_symlink(to, path);
          link = to;
        } else if ((name == "sub" || name == "a") && n.kind == Node::kMissing) {
          op("mkdir");
          fs::create_directory(path);
          model[name] = {Node::kDir, ""};
        }
        break;
      }
    }
  }
  for (const auto& [name, n] : model) {
    if (n.kind == Node::kFile) PBT_EQ(ReadFile(dir + "/" + name), n.data, "another file changed: " << name << "\n" << log);
  }
}

// Faults never look like success.
PBT_PROP(faults, 1200, 20000, "a fault was injected") {
  const std::string dir = pbt::CaseDir();
  const std::string path = dir + "/f";
  const std::string data = GenContent(src);
  const std::size_t kind = src.Draw(5);
  src.NonTrivial();
  pbt::ChildResult res;
  auto report = [](const absl::Status& s) { std::cout << (s.ok() ? "ok" : "error") << ' ' << static_cast<int>(s.code()) << '\n'; };
  switch (kind) {
    case 0: {  // A full device.
      PBT_NOTE("write " << data.size() << " bytes to /dev/full");
      if (access("/dev/full", W_OK) != 0) { src.Label("no /dev/full"); return; }
      const absl::Status s = mbo::file::SetContents("/dev/full", data);
      if (!data.empty()) PBT_CHECK(!s.ok(), "a write to a full device succeeded");
      return;
    }
    case 1: {  // File size limit.
      const std::size_t limit = src.Size(0, data.size() + 2);
      PBT_NOTE("write " << data.size() << " bytes with a file size limit of " << limit);
      const std::string out = dir + "/limited";
      res = pbt::RunChild([&] {
        signal(SIGXFSZ, SIG_IGN);
        const rlimit lim{limit, limit};
        if (setrlimit(RLIMIT_FSIZE, &lim) != 0) _exit(9);
        const bool ok = mbo::file::SetContents(out, data).ok();
        _exit(ok ? 10 : 11);
      });
      PBT_CHECK(res.exited && (res.code == 10 || res.code == 11), res.out);
      PBT_EQ(res.code == 10, data.size() <= limit, "success reported");
      if (res.code == 10) PBT_EQ(ReadFile(out), data, "content");
      return;
    }
    case 2: {  // Permissions, as an unprivileged user.
      WriteFile(path, data);
      fs::create_directory(dir + "/locked");
      WriteFile(dir + "/locked/f", data);
      WriteFile(dir + "/ro", data);
      chmod(path.c_str(), 0000);
      chmod((dir + "/locked").c_str(), 0000);
      chmod((dir + "/ro").c_str(), 0444);
      const bool reach = src.Bool();
      const int fd = open(dir.c_str(), O_RDONLY | O_DIRECTORY);
      res = pbt::RunChild([&] {
        if (fchdir(fd) != 0) _exit(9);
        if (geteuid() == 0 && (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)) _exit(9);
        const std::string t = reach ? "f" : "locked/f";
        report(mbo::file::GetContents(t).status());
        report(mbo::file::GetMaxLines(t, 3).status());
        report(mbo::file::SetContents(t, "other"));
        report(mbo::file::Readable(t));
        report(Artefact::Read(t).status());
        report(mbo::file::SetContents("ro", "other"));
        report(reach ? absl::UnknownError("") : mbo::file::GetMTime(t).status());
        std::cout.flush();
        _exit(0);
      });
      close(fd);
      chmod((dir + "/locked").c_str(), 0755);
      chmod(path.c_str(), 0644);
      if (res.exited && res.code == 9) { src.Label("cannot drop privileges"); return; }
      PBT_CHECK(res.exited && res.code == 0, "crash on a missing permission (" << (reach ? "file" : "directory") << "):\n" << res.out);
      PBT_CHECK(res.out.find("ok") == std::string::npos, "success without permission:\n" << res.out);
      if (reach) {
        PBT_CHECK(res.out.find("error 9\n") != std::string::npos, "Readable of an unreadable file: no FailedPrecondition\n" << res.out);
      }
      PBT_EQ(ReadFile(path), data, "protected content changed");
      PBT_EQ(ReadFile(dir + "/ro"), data, "protected content changed");
      return;
    }
    case 3: case 4: {  // Link loops, over-long names, a file used as a directory.
      std::string target;
      if (src.Bool()) {
        fs::create_symlink("loop2", dir + "/loop1");
        fs::create_symlink("loop1", dir + "/loop2");
        target = dir + "/loop1";
      } else if (src.Bool()) {
        target = dir + "/" + std::string(src.Size(256, 5000), 'n');
      } else {
        WriteFile(path, data);
        target = path + "/below";
      }
      PBT_NOTE("target " << target.substr(0, 80));
      res = pbt::RunChild([&] {
        report(mbo::file::GetContents(target).status());
        report(mbo::file::GetMaxLines(target, 3).status());
        report(mbo::file::SetContents(target, data));
        report(mbo::file::Readable(target));
        report(mbo::file::GetMTime(target).status());
        report(Artefact::Read(target).status());
        report(Artefact::ReadMaxLines(target, 4).status());
        std::cout.flush();
        _exit(0);
      });
      PBT_CHECK(res.exited && res.code == 0, "crash:\n" << res.out);
      PBT_CHECK(res.out.find("ok") == std::string::npos, "success for an impossible target:\n" << res.out);
      return;
    }
    default: {  // Directories.
      PBT_NOTE("a directory");
      res = pbt::RunChild([&] {
        report(mbo::file::GetContents(dir).status());
        report(mbo::file::GetMaxLines(dir, 1 + data.size()).status());
        report(mbo::file::SetContents(dir, data));
        report(mbo::file::Readable(dir));
        report(Artefact::Read(dir).status());
        std::cout.flush();
        _exit(0);
      });
      PBT_CHECK(res.exited && res.code == 0, "crash on a directory:\n" << res.out);
      PBT_CHECK(res.out.find("ok") == std::string::npos, "success for a directory:\n" << res.out);
      return;
    }
  }
}
