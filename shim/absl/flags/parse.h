#pragma once
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "absl/flags/reflection.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> out;
  if (argc) out.push_back(argv[0]);
  auto die = [](std::string m) {
    std::fprintf(stderr, "ERROR: %s\n", m.c_str());
    std::fflush(nullptr);
    std::exit(1);
  };
  for (int i = 1; i < argc; ++i) {
    std::string_view a = argv[i];
    if (a == "--") { for (++i; i < argc; ++i) out.push_back(argv[i]); break; }
    if (a.size() < 2 || a[0] != '-') { out.push_back(argv[i]); continue; }
    a.remove_prefix(a[1] == '-' ? 2 : 1);
    std::size_t eq = a.find('=');
    std::string_view name = a.substr(0, eq), value = eq == a.npos ? std::string_view() : a.substr(eq + 1);
    CommandLineFlag* f = FindCommandLineFlag(name);
    bool neg = false;
    if (!f && name.starts_with("no")) { f = FindCommandLineFlag(name.substr(2)); neg = f != nullptr; if (neg && !f->IsBool()) f = nullptr; }
    if (!f) { die("Unknown command line flag '" + std::string(name) + "'"); continue; }
    if (neg) { if (eq != a.npos) die("Negative form with assignment is not valid for the boolean flag '" + std::string(name) + "'"); value = "false"; }
    else if (f->IsBool()) { if (eq == a.npos) value = "true"; }
    else if (eq == a.npos) {
      if (i + 1 >= argc) die("Missing the value for the flag '" + std::string(name) + "'");
      value = argv[++i];
    }
    std::string err;
    if (!f->ParseFrom(value, &err)) die("Illegal value '" + std::string(value) + "' specified for flag '" + std::string(name) + "'");
    f->MarkSpecifiedOnCommandLine();
  }
  return out;
}
}  // namespace absl
