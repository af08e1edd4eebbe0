// Choice-sequence property-based testing engine (generation, isolation, shrinking, replay).
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15ULL);
  splitmix(s);
  return splitmix(s);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

// Sub-generator for bulk data, seeded by one choice.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x2545F4914F6CDD1DULL + 0x1234567) {}
  uint64_t next() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : next(); }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Fail : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

// Choices of the running case, written as they are drawn (shared memory), when set.
struct RecShm {
  uint64_t n;
  uint64_t v[210000];
};
inline RecShm*& recorder() {
  static RecShm* r = nullptr;
  return r;
}

class Src {
 public:
  explicit Src(uint64_t seed) : replay_(false), rng_(seed) {}
  explicit Src(std::vector<uint64_t> c) : replay_(true), rng_(0), in_(std::move(c)) {}
  // uniform in [0,n); n==0 means any 64-bit value. 0 is the simplest choice.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      ++pos_;
      if (n != 0 && v >= n) v = n - 1;
    } else {
      v = n ? rng_.next() % n : rng_.next();
    }
    used_.push_back(v);
    if (RecShm* r = recorder()) {
      r->v[r->n] = v;
      ++r->n;
    }
    if (used_.size() > 200000) throw Discard{};
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // false is simplest
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0;
    for (auto x : w) tot += x;
    uint64_t v = draw(tot);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  uint64_t seed() { return draw(1u << 30); }
  // 64-bit value biased to boundaries
  uint64_t u64() {
    switch (weighted({3, 3, 2, 2})) {
      case 0: return draw(256);
      case 1: {
        uint64_t b = draw(64);
        int64_t d = range(-2, 2);
        return (uint64_t{1} << b) + static_cast<uint64_t>(d);
      }
      case 2: {
        uint64_t b = draw(64);
        return ~((uint64_t{1} << b) + static_cast<uint64_t>(range(-2, 2)));
      }
      default: return draw(0);
    }
  }
  const std::vector<uint64_t>& used() const { return used_; }

 private:
  bool replay_;
  Rng rng_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> used_;
};

struct SharedStats {
  std::atomic<int> lock;
  int nlabels;
  struct L {
    char name[56];
    std::atomic<uint64_t> n;
  } labels[512];
  std::atomic<uint64_t> evals, nontrivial, discarded, checks;
};
constexpr size_t kMaxHashes = 400000;
struct WorkerSlot {
  std::atomic<uint64_t> prop, idx, start_ms, busy;
  char note[16384];
  char fail[8192];
  uint64_t nhash;
  uint64_t hashes[kMaxHashes];
  int nsamples;
  char samples[6][2600];
};

inline SharedStats*& stats() {
  static SharedStats* s = nullptr;
  return s;
}
// Notes of the running case go here (shared memory), so that they survive a crash.
inline char*& noteBuf() {
  static char* b = nullptr;
  return b;
}
constexpr size_t kNoteSize = 16384;
template <class T>
T* sharedAlloc(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<T*>(p);
}
inline uint64_t nowMs() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return uint64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}
inline void bumpLabel(const std::string& l, uint64_t by = 1) {
  SharedStats* st = stats();
  if (!st) return;
  for (int i = 0; i < st->nlabels; ++i)
    if (l == st->labels[i].name) { st->labels[i].n += by; return; }
  int exp = 0;
  while (!st->lock.compare_exchange_weak(exp, 1)) exp = 0;
  int i = 0;
  for (; i < st->nlabels; ++i)
    if (l == st->labels[i].name) break;
  if (i == st->nlabels && i < 512) {
    snprintf(st->labels[i].name, sizeof(st->labels[i].name), "%s", l.c_str());
    ++st->nlabels;
  }
  if (i < 512) st->labels[i].n += by;
  st->lock = 0;
}

// Per-case context.
class Ctx {
 public:
  bool nontriv = false;
  std::set<std::string> labels;
  void label(const std::string& l) { labels.insert(l); }
  void labelIf(bool c, const std::string& l) { if (c) labels.insert(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void check() { if (stats()) ++stats()->checks; }
  // Notes survive a crash of the worker (shared memory).
  void note(const std::string& s) {
    text_ += s;
    text_ += "\n";
    if (noteBuf()) {
      size_t n = std::min(text_.size(), kNoteSize - 1);
      memcpy(noteBuf(), text_.data(), n);
      noteBuf()[n] = 0;
    }
  }
  const std::string& text() const { return text_; }
  template <class... A>
  [[noreturn]] void fail(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Fail(o.str());
  }
  template <class... A>
  void require(bool c, const A&... a) { if (!c) fail(a...); }

 private:
  std::string text_;
};

using CaseFn = std::function<void(Src&, Ctx&)>;
struct Prop {
  std::string name;
  CaseFn fn;
  uint64_t quick = 1000, thorough = 20000;
  unsigned timeout_s = 60;
  bool schedule_dependent = false;  // a failure is reported even if it does not reproduce
};

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

enum class Kind { PASS, FAIL, CRASH, HANG, DISCARD, ENV };
inline const char* kindName(Kind k) {
  switch (k) {
    case Kind::PASS: return "pass";
    case Kind::FAIL: return "property violated";
    case Kind::CRASH: return "crash or sanitizer report";
    case Kind::HANG: return "does not terminate";
    case Kind::DISCARD: return "discarded";
    default: return "environment";
  }
}
struct Outcome {
  Kind kind = Kind::PASS;
  std::string msg, note;
  std::vector<uint64_t> used;
};

struct TrialShm {
  int kind;
  char msg[8192];
  char note[16384];
  uint64_t nused;
  uint64_t used[210000];
};

// Runs one case in this process. Returns PASS/FAIL/DISCARD.
inline Outcome runHere(const Prop& p, Src& src, Ctx& ctx) {
  Outcome o;
  try {
    p.fn(src, ctx);
  } catch (const Fail& f) {
    o.kind = Kind::FAIL;
    o.msg = f.what();
  } catch (const Discard&) {
    o.kind = Kind::DISCARD;
  } catch (const std::exception& e) {
    o.kind = Kind::FAIL;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = Kind::FAIL;
    o.msg = "unexpected exception of unknown type";
  }
  o.note = ctx.text();
  o.used = src.used();
  return o;
}

// Runs one case in a forked child with a time limit.
inline Outcome runForked(const Prop& p, const std::function<Src()>& mk, TrialShm* sh, unsigned timeout_s, bool quiet) {
  sh->kind = -1;
  sh->msg[0] = sh->note[0] = 0;
  sh->nused = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    stats() = nullptr;
    noteBuf() = sh->note;
    Ctx ctx;
    Src src = mk();
    Outcome o = runHere(p, src, ctx);
    snprintf(sh->msg, sizeof(sh->msg), "%s", o.msg.c_str());
    sh->nused = std::min<size_t>(o.used.size(), 210000);
    memcpy(sh->used, o.used.data(), sh->nused * 8);
    sh->kind = static_cast<int>(o.kind);
    _exit(0);
  }
  Outcome o;
  uint64_t t0 = nowMs();
  int st = 0;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (nowMs() - t0 > uint64_t(timeout_s) * 1000) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.kind = Kind::HANG;
      o.msg = "case did not finish within " + std::to_string(timeout_s) + " s";
      return o;
    }
    usleep(300);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->kind >= 0) {
    o.kind = static_cast<Kind>(sh->kind);
    o.msg = sh->msg;
    o.note = sh->note;
    o.used.assign(sh->used, sh->used + sh->nused);
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    o.kind = Kind::ENV;
    o.msg = "killed";
  } else {
    o.kind = Kind::CRASH;
    o.note = sh->note;
    o.msg = WIFSIGNALED(st) ? "terminated by signal " + std::to_string(WTERMSIG(st))
                            : "exited with status " + std::to_string(WEXITSTATUS(st));
  }
  return o;
}

struct Options {
  std::string tier = "quick", out, replay, replay_dir = ".";
  uint64_t seed = 1;
  unsigned workers = 8;
  double time_cap = 0;
  double scale = 1.0;
  std::string only;
};

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Outcome& bestOut, TrialShm* sh, double budget_s) {
  const uint64_t t0 = nowMs();
  int trials = 0;
  auto left = [&] { return (nowMs() - t0) < budget_s * 1000 && trials < 4000; };
  const bool wantHang = bestOut.kind == Kind::HANG;
  auto attempt = [&](std::vector<uint64_t> c) {
    if (!left()) return false;
    while (!c.empty() && c.back() == 0) c.pop_back();
    if (c == best) return false;
    ++trials;
    Outcome o = runForked(p, [&] { return Src(c); }, sh, wantHang ? 5 : std::min(p.timeout_s, 20u), true);
    bool interesting = wantHang ? o.kind == Kind::HANG : (o.kind == Kind::FAIL || o.kind == Kind::CRASH);
    if (!interesting) return false;
    if (o.kind == Kind::FAIL && o.used.size() < c.size()) c = o.used;
    while (!c.empty() && c.back() == 0) c.pop_back();
    best = c;
    bestOut = o;
    return true;
  };
  bool improved = true;
  while (improved && left()) {
    improved = false;
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
      for (size_t i = 0; i + k <= best.size() && left();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) improved = true;
        else i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
      for (size_t i = 0; i + k <= best.size() && left(); i += k) {
        auto c = best;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) { any = any || c[j]; c[j] = 0; }
        if (any && attempt(c)) improved = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && left(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && left()) {
        uint64_t midv = lo + (best[i] - lo) / 2;
        auto c = best;
        c[i] = midv;
        if (attempt(c)) improved = true;
        else lo = midv + 1;
      }
    }
  }
  return best;
}

inline std::string readFile(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

inline int run(int argc, char** argv, const std::string& id, const std::string& rule, std::vector<Prop> props) {
  Options op;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") op.tier = nx();
    else if (a == "--seed") op.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--out") op.out = nx();
    else if (a == "--replay") op.replay = nx();
    else if (a == "--replay-dir") op.replay_dir = nx();
    else if (a == "--workers") op.workers = atoi(nx().c_str());
    else if (a == "--time-cap") op.time_cap = atof(nx().c_str());
    else if (a == "--scale") op.scale = atof(nx().c_str());
    else if (a == "--only") op.only = nx();
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);

  if (!op.replay.empty()) {
    std::ifstream f(op.replay);
    std::string line, pname;
    std::vector<uint64_t> c;
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      if (line.rfind("pbt-replay", 0) == 0) {
        std::istringstream s(line);
        std::string x, i2;
        s >> x >> i2 >> pname;
        continue;
      }
      std::istringstream s(line);
      uint64_t v;
      while (s >> v) c.push_back(v);
    }
    for (auto& p : props)
      if (p.name == pname) {
        Ctx ctx;
        Src src(c);
        alarm(p.timeout_s * 4);
        Outcome o = runHere(p, src, ctx);
        printf("%s\n", ctx.text().c_str());
        if (o.kind == Kind::FAIL) {
          printf("REPRODUCED %s: %s\n", kindName(o.kind), o.msg.c_str());
          return 1;
        }
        printf("not reproduced (%s)\n", kindName(o.kind));
        return 0;
      }
    fprintf(stderr, "unknown prop in replay\n");
    return 2;
  }

  const uint64_t t0 = nowMs();
  if (!op.only.empty()) {
    std::vector<Prop> q;
    for (auto& p : props)
      if (p.name == op.only) q.push_back(p);
    props = q;
  }
  const unsigned W = op.workers;
  stats() = sharedAlloc<SharedStats>();
  std::vector<WorkerSlot*> slots(W);
  for (auto& s : slots) s = sharedAlloc<WorkerSlot>();
  auto* stop = sharedAlloc<std::atomic<int>>();
  TrialShm* sh = sharedAlloc<TrialShm>();
  const uint64_t base = mix(op.seed, hashStr(id));
  std::vector<uint64_t> counts;
  uint64_t maxc = 0;
  for (auto& p : props) {
    uint64_t n = op.tier == "thorough" ? p.thorough : p.quick;
    n = std::max<uint64_t>(1, static_cast<uint64_t>(n * op.scale));
    counts.push_back(n);
    maxc = std::max(maxc, n);
  }
  // Global order interleaves the props proportionally: position k of prop p at time (k+0.5)/count.
  std::vector<std::pair<double, std::pair<uint32_t, uint64_t>>> order;
  for (size_t pi = 0; pi < props.size(); ++pi)
    for (uint64_t k = 0; k < counts[pi]; ++k)
      order.push_back({(k + 0.5) / counts[pi], {uint32_t(pi), k}});
  std::sort(order.begin(), order.end());

  auto caseSeed = [&](size_t pi, uint64_t k) { return mix(base ^ hashStr(props[pi].name), k); };
  std::atomic<uint64_t>* cursor = sharedAlloc<std::atomic<uint64_t>>();

  auto workerMain = [&](unsigned w) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    noteBuf() = slots[w]->note;
    WorkerSlot* s = slots[w];
    while (true) {
      if (*stop) _exit(0);
      if (op.time_cap > 0 && nowMs() - t0 > op.time_cap * 1000) _exit(0);
      uint64_t pos = cursor->fetch_add(1);
      if (pos >= order.size()) _exit(0);
      auto [pi, k] = order[pos].second;
      s->prop = pi;
      s->idx = k;
      s->note[0] = 0;
      s->fail[0] = 0;
      s->start_ms = nowMs();
      s->busy = 1;
      Ctx ctx;
      Src src(caseSeed(pi, k));
      Outcome o = runHere(props[pi], src, ctx);
      if (o.kind == Kind::FAIL) {
        snprintf(s->fail, sizeof(s->fail), "%s", o.msg.c_str());
        _exit(42);
      }
      s->busy = 0;
      ++stats()->evals;
      if (o.kind == Kind::DISCARD) { ++stats()->discarded; continue; }
      for (auto& l : ctx.labels) bumpLabel(l);
      bumpLabel("prop:" + props[pi].name);
      if (ctx.nontriv) {
        ++stats()->nontrivial;
        uint64_t h = hashStr(props[pi].name);
        for (auto v : o.used) h = (h ^ v) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29;
        if (s->nhash < kMaxHashes) s->hashes[s->nhash++] = h;
        if (s->nsamples < 6 && (k % 7) == 0)
          snprintf(s->samples[s->nsamples++], sizeof(s->samples[0]), "[%s #%llu] %s", props[pi].name.c_str(),
                   (unsigned long long)k, ctx.text().c_str());
      }
    }
  };

  struct Found { uint32_t prop; uint64_t idx; Outcome out; };
  std::vector<Found> found;
  uint64_t unreproduced = 0, envKilled = 0;
  std::vector<pid_t> pids(W, 0);
  auto spawn = [&](unsigned w) {
    fflush(stdout);
    slots[w]->busy = 0;
    pid_t pid = fork();
    if (pid == 0) { workerMain(w); _exit(0); }
    pids[w] = pid;
  };
  for (unsigned w = 0; w < W; ++w) spawn(w);
  unsigned alive = W;
  bool hit = false;
  while (alive) {
    bool progress = false;
    for (unsigned w = 0; w < W; ++w) {
      if (!pids[w]) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      Outcome o;
      bool bad = false;
      if (r == pids[w]) {
        progress = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pids[w] = 0; --alive; continue; }
        bad = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { o.kind = Kind::FAIL; o.msg = slots[w]->fail; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.kind = Kind::ENV;
        else {
          o.kind = Kind::CRASH;
          o.msg = WIFSIGNALED(st) ? "terminated by signal " + std::to_string(WTERMSIG(st)) : "exited with status " + std::to_string(WEXITSTATUS(st));
        }
      } else if (slots[w]->busy && nowMs() - slots[w]->start_ms > uint64_t(props[slots[w]->prop].timeout_s) * 1000) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        o.kind = Kind::HANG;
        o.msg = "case did not finish within " + std::to_string(props[slots[w]->prop].timeout_s) + " s";
        bad = true;
        progress = true;
      }
      if (!bad) continue;
      o.note = slots[w]->note;
      uint32_t pi = slots[w]->prop;
      uint64_t k = slots[w]->idx;
      pids[w] = 0;
      --alive;
      if (hit) continue;
      if (o.kind == Kind::ENV && !slots[w]->busy) {
        ++envKilled;
        if (envKilled < 20) { spawn(w); ++alive; }
        continue;
      }
      // confirm in isolation
      Outcome c;
      bool conf = false;
      for (int t = 0; t < 3 && !conf; ++t) {
        c = runForked(props[pi], [&] { return Src(caseSeed(pi, k)); }, sh, props[pi].timeout_s * 2, t > 0);
        conf = c.kind == Kind::FAIL || c.kind == Kind::CRASH || c.kind == Kind::HANG;
      }
      if (conf || (props[pi].schedule_dependent && o.kind != Kind::ENV && o.kind != Kind::HANG)) {
        if (conf) { if (c.note.empty()) c.note = o.note; o = c; }
        found.push_back({pi, k, o});
        hit = true;
        *stop = 1;
      } else {
        if (o.kind == Kind::ENV) ++envKilled; else ++unreproduced;
        fprintf(stderr, "warning: %s case %llu: %s (%s) did not reproduce\n", props[pi].name.c_str(),
                (unsigned long long)k, kindName(o.kind), o.msg.c_str());
        if (unreproduced + envKilled < 20) { spawn(w); ++alive; }
      }
    }
    if (hit) {
      // give the others a moment, then stop them
      uint64_t ts = nowMs();
      for (unsigned w = 0; w < W; ++w)
        while (pids[w]) {
          int st;
          if (waitpid(pids[w], &st, WNOHANG) == pids[w]) { pids[w] = 0; break; }
          if (nowMs() - ts > 3000) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; break; }
          usleep(1000);
        }
      alive = 0;
    }
    if (!progress) usleep(1500);
  }

  int rc = 0;
  std::string replayPath;
  if (!found.empty()) {
    rc = 1;
    auto& f = found[0];
    auto& p = props[f.prop];
    // obtain the choice sequence
    Outcome o = f.out;
    std::vector<uint64_t> seq = o.used;
    if (seq.empty()) {
      // crash or hang: run it again, recording the choices as they are drawn
      auto* rs = sharedAlloc<RecShm>();
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        stats() = nullptr;
        noteBuf() = nullptr;
        recorder() = rs;
        Src src(caseSeed(f.prop, f.idx));
        Ctx ctx;
        runHere(p, src, ctx);
        _exit(0);
      }
      int st;
      const uint64_t ts = nowMs();
      while (waitpid(pid, &st, WNOHANG) != pid) {
        if (nowMs() - ts > uint64_t(p.timeout_s) * 1000) {
          kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
          break;
        }
        usleep(1000);
      }
      seq.assign(rs->v, rs->v + rs->n);
    }
    Outcome so = o;
    std::vector<uint64_t> small = seq;
    if (!seq.empty() && !p.schedule_dependent) {
      Outcome t = runForked(p, [&] { return Src(seq); }, sh, p.timeout_s, true);
      if (t.kind == Kind::FAIL || t.kind == Kind::CRASH || t.kind == Kind::HANG) {
        so = t;
        if (so.note.empty()) so.note = o.note;
        small = shrink(p, seq, so, sh, op.tier == "thorough" ? 120 : 40);
      }
    }
    // final run for message and note
    int reproduced = 0;
    for (int t = 0; t < 3; ++t) {
      Outcome r = runForked(p, [&] { return Src(small); }, sh, p.timeout_s, t != 0);
      if (r.kind == Kind::FAIL || r.kind == Kind::CRASH || r.kind == Kind::HANG) {
        ++reproduced;
        so.kind = r.kind;
        so.msg = r.msg;
        if (!r.note.empty()) so.note = r.note;
      }
    }
    std::ostringstream name;
    mkdir(op.replay_dir.c_str(), 0777);
    name << op.replay_dir << "/" << id << "-" << p.name << "-s" << op.seed << "-" << f.idx << ".replay";
    replayPath = name.str();
    std::ofstream rf(replayPath);
    rf << "pbt-replay " << id << " " << p.name << "\n";
    std::istringstream ms(std::string(kindName(so.kind)) + ": " + so.msg + "\nreproduced " + std::to_string(reproduced) + "/3\n" + so.note);
    std::string l;
    while (std::getline(ms, l)) rf << "# " << l << "\n";
    for (size_t i = 0; i < small.size(); ++i) rf << small[i] << (i % 16 == 15 ? "\n" : " ");
    rf << "\n";
    rf.close();
    printf("FAILURE in %s/%s case %llu (%s, reproduced %d/3, %zu choices)\n  %s\n", id.c_str(), p.name.c_str(),
           (unsigned long long)f.idx, kindName(so.kind), reproduced, small.size(), so.msg.c_str());
    printf("%s\n", so.note.c_str());
    printf("REPLAY %s\n", replayPath.c_str());
  }

  std::unordered_set<uint64_t> hs;
  for (auto* s : slots)
    for (uint64_t i = 0; i < s->nhash; ++i) hs.insert(s->hashes[i]);
  uint64_t planned = 0;
  for (auto c : counts) planned += c;
  if (!op.out.empty()) {
    std::ofstream o(op.out);
    o << "{\"evaluations\":" << stats()->evals << ",\"planned\":" << planned << ",\"nontrivial\":" << stats()->nontrivial
      << ",\"distinct_nontrivial\":" << hs.size() << ",\"discarded\":" << stats()->discarded
      << ",\"unreproduced\":" << unreproduced << ",\"env_killed\":" << envKilled
      << ",\"oracle_comparisons\":" << stats()->checks << ",\"rule\":\"" << jsonEsc(rule) << "\",\"labels\":{";
    for (int i = 0; i < stats()->nlabels; ++i)
      o << (i ? "," : "") << "\"" << jsonEsc(stats()->labels[i].name) << "\":" << stats()->labels[i].n;
    o << "},\"samples\":[";
    bool first = true;
    int ns = 0;
    for (int r = 0; r < 6; ++r)
      for (auto* s : slots)
        if (r < s->nsamples && ns < 8) {
          o << (first ? "" : ",") << "\"" << jsonEsc(s->samples[r]) << "\"";
          first = false;
          ++ns;
        }
    o << "],\"violations\":" << found.size() << ",\"replay\":\"" << jsonEsc(replayPath) << "\",\"wall_s\":" << (nowMs() - t0) / 1000.0 << "}\n";
  }
  printf("%s: %llu cases (%zu distinct non-trivial) in %.1f s, %zu failure(s)\n", id.c_str(),
         (unsigned long long)stats()->evals.load(), hs.size(), (nowMs() - t0) / 1000.0, found.size());
  return rc;
}

}  // namespace pbt
