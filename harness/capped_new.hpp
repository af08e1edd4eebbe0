// operator new that refuses absurd sizes, so that an input asking for terabytes ends in std::bad_alloc.
#pragma once
#include <cstdlib>
#include <new>
#ifndef CAPPED_NEW_LIMIT
#define CAPPED_NEW_LIMIT (size_t{192} << 20)
#endif
static inline void* cappedNew(size_t n) {
  void* p = n > CAPPED_NEW_LIMIT ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return cappedNew(n); }
void* operator new[](size_t n) { return cappedNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > CAPPED_NEW_LIMIT ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > CAPPED_NEW_LIMIT ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
