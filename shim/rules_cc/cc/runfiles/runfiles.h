// Stand-in for the runfiles library of rules_cc (bzlmod aware, as of 0.1): finds runfiles by manifest or directory.
#pragma once
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <utility>
namespace rules_cc::cc::runfiles {
class Runfiles {
 public:
  static Runfiles* CreateForTest(std::string* error = nullptr) { return CreateForTest("", error); }
  static Runfiles* CreateForTest(const std::string& source_repository, std::string* error = nullptr) {
    return Create("", Env("RUNFILES_MANIFEST_FILE"), Env("TEST_SRCDIR"), source_repository, error);
  }
  static Runfiles* Create(const std::string& argv0, std::string* error = nullptr) { return Create(argv0, Env("RUNFILES_MANIFEST_FILE"), Env("RUNFILES_DIR"), "", error); }
  static Runfiles* Create(const std::string& argv0, const std::string& manifest, const std::string& directory, const std::string& source_repository, std::string* error) {
    (void)argv0;
    const bool has_manifest = !manifest.empty() && std::ifstream(manifest).good();
    const bool has_directory = !directory.empty() && std::ifstream(directory).good();
    if (!has_manifest && !has_directory) {
      if (error != nullptr) *error = "ERROR: cannot find runfiles (argv0=\"" + argv0 + "\")";
      return nullptr;
    }
    std::unique_ptr<Runfiles> r(new Runfiles);
    r->source_repository_ = source_repository;
    if (has_directory) r->directory_ = directory;
    if (has_manifest) {
      std::ifstream in(manifest);
      for (std::string line; std::getline(in, line);) {
        const auto at = line.find(' ');
        if (at == std::string::npos) r->map_[line] = line;
        else r->map_[line.substr(0, at)] = line.substr(at + 1);
      }
    }
    const std::string mapping = r->RlocationUnchecked("_repo_mapping");
    if (!mapping.empty()) {
      std::ifstream in(mapping);
      for (std::string line; std::getline(in, line);) {
        const auto a = line.find(','), b = a == std::string::npos ? a : line.find(',', a + 1);
        if (b == std::string::npos) continue;
        r->mapping_[{line.substr(0, a), line.substr(a + 1, b - a - 1)}] = line.substr(b + 1);
      }
    }
    return r.release();
  }

  std::string Rlocation(const std::string& path) const { return Rlocation(path, source_repository_); }
  std::string Rlocation(const std::string& path, const std::string& source_repo) const {
    auto starts = [&](const char* s) { return path.rfind(s, 0) == 0; };
    auto contains = [&](const char* s) { return path.find(s) != std::string::npos; };
    auto ends = [&](const std::string& s) { return path.size() >= s.size() && path.compare(path.size() - s.size(), s.size(), s) == 0; };
    if (path.empty() || starts("../") || contains("/..") || starts("./") || contains("/./") || ends("/.") || contains("//")) return "";
    if (path[0] == '/') return path;
    const auto slash = path.find('/');
    if (slash == std::string::npos) return RlocationUnchecked(path);
    const auto it = mapping_.find({source_repo, path.substr(0, slash)});
    return RlocationUnchecked(it == mapping_.end() ? path : it->second + path.substr(slash));
  }

 private:
  static std::string Env(const char* name) {
    const char* v = std::getenv(name);
    return v == nullptr ? "" : v;
  }
  std::string RlocationUnchecked(const std::string& path) const {
    const auto exact = map_.find(path);
    if (exact != map_.end()) return exact->second;
    if (!map_.empty()) {  // a prefix may name a directory
      for (auto at = path.rfind('/'); at != std::string::npos && at > 0; at = path.rfind('/', at - 1)) {
        const auto dir = map_.find(path.substr(0, at));
        if (dir != map_.end()) return dir->second + path.substr(at);
      }
    }
    return directory_.empty() ? "" : directory_ + "/" + path;
  }
  std::string directory_, source_repository_;
  std::map<std::string, std::string> map_;
  std::map<std::pair<std::string, std::string>, std::string> mapping_;
};
}  // namespace rules_cc::cc::runfiles
