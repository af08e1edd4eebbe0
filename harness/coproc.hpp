// A helper process answering requests: op(1) length(u32) payload -> length(u32) text length(u32) bytes.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <vector>
struct CoProc {
  pid_t pid = -1;
  int in = -1, out = -1;
  pid_t owner = 0;
  struct Reply {
    bool dead = false;
    std::string text;
    std::vector<uint8_t> data;
    std::vector<std::string> lines() const {
      std::vector<std::string> r;
      std::istringstream i(text);
      std::string l;
      while (std::getline(i, l)) r.push_back(l);
      return r;
    }
  };
  std::vector<std::string> argv;
  explicit CoProc(std::vector<std::string> a) : argv(std::move(a)) {}
  ~CoProc() { stop(); }
  void stop() {
    if (pid <= 0 || owner != getpid()) { if (in >= 0 && owner != getpid()) { close(in); close(out); in = out = -1; } pid = -1; return; }
    close(in);
    close(out);
    in = out = -1;
    kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    pid = -1;
  }
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
    signal(SIGPIPE, SIG_IGN);
    std::vector<char*> av;
    for (auto& s : argv) av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    owner = getpid();
  }
  bool put(const void* p, size_t n) {
    const char* c = static_cast<const char*>(p);
    while (n) {
      ssize_t k = ::write(in, c, n);
      if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
      c += k;
      n -= size_t(k);
    }
    return true;
  }
  bool get(void* p, size_t n) {
    char* c = static_cast<char*>(p);
    while (n) {
      ssize_t k = ::read(out, c, n);
      if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
      c += k;
      n -= size_t(k);
    }
    return true;
  }
  bool sendRaw(char op, const std::vector<uint8_t>& payload) {
    uint32_t n = uint32_t(payload.size());
    return put(&op, 1) && put(&n, 4) && put(payload.data(), n);
  }
  Reply call(char op, const std::vector<uint8_t>& payload) {
    if (pid <= 0 || owner != getpid()) { stop(); start(); }
    Reply r;
    uint32_t n = 0;
    if (!sendRaw(op, payload) || !get(&n, 4)) { r.dead = true; stop(); return r; }
    r.text.resize(n);
    if (!get(r.text.data(), n) || !get(&n, 4)) { r.dead = true; stop(); return r; }
    r.data.resize(n);
    if (!get(r.data.data(), n)) { r.dead = true; stop(); }
    return r;
  }
};
