// Running a command line tool on files of a scratch directory.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <filesystem>
#include <fstream>
#include <string>
#include <vector>

#include "pbt.hpp"
namespace cli {
struct TempDir {
  std::string path, prefix;
  explicit TempDir(const std::string& id) : prefix("/tmp/vf-" + id + "-") {
    std::string t = prefix + "XXXXXX";
    if (!mkdtemp(t.data())) throw pbt::Discard{};
    path = t;
  }
  TempDir(const TempDir&) = delete;
  ~TempDir() {
    std::error_code ec;
    if (path.rfind(prefix, 0) == 0) std::filesystem::remove_all(path, ec);
  }
};
inline void put(const std::string& p, const std::string& b) { std::ofstream(p, std::ios::binary) << b; }
inline std::string get(const std::string& p) { return pbt::readFile(p); }
inline std::string show(const std::vector<std::string>& args) {
  std::string r = std::filesystem::path(args[0]).filename().string();
  for (size_t i = 1; i < args.size(); ++i) r += " '" + args[i] + "'";
  return r;
}
// Exit status, or 1000 + signal. 91: could not be started. 92: still running after a minute.
inline int run(const std::vector<std::string>& args, const std::string& cwd, std::string& output, const std::string& input = "", uint64_t memory = 0) {
  const std::string log = cwd + "/.log", in = cwd + "/.in";
  put(in, input);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(cwd.c_str()) != 0) _exit(91);
    const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), nul = open(in.c_str(), O_RDONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    dup2(nul, 0);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    rlimit as{memory, memory};
    if (memory) setrlimit(RLIMIT_AS, &as);
    alarm(60);
    std::vector<char*> a;
    for (auto& x : args) a.push_back(const_cast<char*>(x.c_str()));
    a.push_back(nullptr);
    execv(a[0], a.data());
    _exit(91);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  output = get(log);
  unlink(log.c_str());
  unlink(in.c_str());
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 92;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
}  // namespace cli
