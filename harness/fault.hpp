// Fault injection: the n-th allocation (of the armed thread, or of any other thread) or thread creation fails.
// Interposes malloc & friends (operator new and the compressors end up there) and pthread_create.
#pragma once
#include <dlfcn.h>
#include <malloc.h>
#include <stdlib.h>
#include <errno.h>
#include <pthread.h>
#include <lz4.h>
#include <unistd.h>

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <string>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace fault {
enum Cls { CALLER = 0, OTHER = 1, THREAD = 2, NONE = 3 };
inline const char* clsName(int c) {
  static const char* n[] = {"allocation in the calling thread", "allocation in another thread", "thread creation", "none"};
  return n[c];
}
inline std::atomic<int> armed{0};
inline std::atomic<long> count[3];
inline std::atomic<int> cls{NONE};
inline std::atomic<long> from{0}, len{0};
inline std::atomic<long> injected{0};
inline std::atomic<int> delay_us{0};
inline thread_local bool caller = false;
// true when the event must fail
inline bool event(int c) {
  const long i = count[c].fetch_add(1);
  if (cls.load() == c && i >= from.load() && (len.load() < 0 || i < from.load() + len.load())) {
    injected.fetch_add(1);
    return true;
  }
  return false;
}
inline bool allocEvent() {
  if (!armed.load(std::memory_order_relaxed)) return false;
  const bool other = !caller;
  if (other && delay_us.load() > 0) usleep(static_cast<useconds_t>(delay_us.load()));
  return event(other ? OTHER : CALLER);
}
struct Spec {
  int cls = NONE;
  long from = 0, len = 1;
  std::string str() const {
    return cls == NONE ? std::string("no fault") : std::string(clsName(cls)) + " #" + std::to_string(from) + (len < 0 ? " and all later ones" : len > 1 ? " and " + std::to_string(len - 1) + " more" : "");
  }
};
inline void arm(const Spec& s, int delay) {
  caller = true;
  for (auto& c : count) c = 0;
  injected = 0;
  from = s.from;
  len = s.len;
  cls = s.cls;
  delay_us = delay;
  armed = 1;
}
inline void disarm() { armed = 0; cls = NONE; }
}  // namespace fault

extern "C" {
void* malloc(size_t n) {
  if (fault::allocEvent()) { errno = ENOMEM; return nullptr; }
  return __libc_malloc(n);
}
void* calloc(size_t a, size_t b) {
  if (fault::allocEvent()) { errno = ENOMEM; return nullptr; }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (fault::allocEvent()) { errno = ENOMEM; return nullptr; }
  return __libc_realloc(p, n);
}
void* aligned_alloc(size_t al, size_t n) {
  if (fault::allocEvent()) { errno = ENOMEM; return nullptr; }
  return __libc_memalign(al, n);
}
void* memalign(size_t al, size_t n) {
  if (fault::allocEvent()) { errno = ENOMEM; return nullptr; }
  return __libc_memalign(al, n);
}
int posix_memalign(void** p, size_t al, size_t n) noexcept {
  if (fault::allocEvent()) return ENOMEM;
  *p = __libc_memalign(al, n);
  return *p ? 0 : ENOMEM;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  using Fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_create"));
  if (fault::armed.load() && fault::event(fault::THREAD)) return EAGAIN;
  return real(t, a, f, arg);
}
// The compressor of the worker runs slowly while armed, so that whatever overlaps with it can be observed.
int LZ4_compress_default(const char* src, char* dst, int n, int cap) {
  using Fn = int (*)(const char*, char*, int, int);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "LZ4_compress_default"));
  if (fault::armed.load() && !fault::caller && fault::delay_us.load() > 0) usleep(static_cast<useconds_t>(fault::delay_us.load()));
  return real(src, dst, n, cap);
}
}
