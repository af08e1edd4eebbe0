// Shared by the libFuzzer targets: counts what the executions reached and writes it at exit.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
namespace fz {
struct Stats {
  uint64_t execs = 0, accepted = 0;
  std::unordered_set<uint64_t> deep;  // hashes of the inputs that got past the first parser
};
inline Stats& stats() { static Stats* s = new Stats; return *s; }
inline uint64_t hash(const uint8_t* p, size_t n) {
  uint64_t h = 1469598103934665603ULL;
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ULL;
  return h;
}
inline void write() {
  const char* f = getenv("FZ_STATS");
  if (!f) return;
  FILE* o = fopen(f, "w");
  if (!o) return;
  fprintf(o, "{\"executions\": %llu, \"accepted\": %llu, \"deep\": %zu}\n", (unsigned long long)stats().execs, (unsigned long long)stats().accepted, stats().deep.size());
  fclose(o);
}
inline void begin() {
  static bool once = [] { atexit(write); return true; }();
  (void)once;
  ++stats().execs;
}
inline void deep(const uint8_t* p, size_t n) { stats().deep.insert(hash(p, n)); }
inline void accepted() { ++stats().accepted; }
[[noreturn]] inline void violation(const std::string& what) {
  fprintf(stderr, "PROPERTY VIOLATED: %s\n", what.c_str());
  write();
  abort();
}
}  // namespace fz
