// Runs a command line tool's main function in a forked child.
#ifndef VERIF_TOOL_H_
#define VERIF_TOOL_H_
#include <fcntl.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"
struct ToolResult {
  bool exited = false;
  int code = -1;
  std::string out, err;
  std::string Show() const { return "exit " + std::to_string(code) + (exited ? "" : " (killed)") + "\nstdout: " + pbt::Quote(out) + "\nstderr: " + pbt::Quote(err); }
};
inline void WriteFile(const std::string& path, std::string_view data) {
  std::ofstream f(path, std::ios::binary);
  f.write(data.data(), static_cast<std::streamsize>(data.size()));
}
inline std::string ReadFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
inline ToolResult RunTool(int (*tool)(int, char**), const std::vector<std::string>& args, const std::string& cwd, std::string_view input = "") {
  const std::string base = std::string(pbt::ScratchDir()) + "/io" + std::to_string(getpid());
  WriteFile(base + ".in", input);
  pbt::ChildResult c = pbt::RunChild([&] {
    int in = open((base + ".in").c_str(), O_RDONLY);
    int err = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(in, 0);
    dup2(err, 2);
    if (chdir(cwd.c_str()) != 0) _exit(97);
    std::vector<std::string> a = args;
    a.insert(a.begin(), "tool");
    std::vector<char*> argv;
    for (auto& s : a) argv.push_back(s.data());
    argv.push_back(nullptr);
    int rc = tool(static_cast<int>(a.size()), argv.data());
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    fflush(stdout);
    fflush(stderr);
    _exit(rc);
  });
  ToolResult r;
  r.exited = c.exited;
  r.code = c.exited ? c.code : -c.sig;
  r.out = c.out;
  r.err = ReadFile(base + ".err");
  return r;
}
#endif
