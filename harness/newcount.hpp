// Array allocations of the code under test: counted, and failing on demand (storages allocate with new[] (nothrow)).
#pragma once
#include <cstdlib>
#include <new>
struct PbtNew {
  long live    = 0;
  long count   = 0;   // nothrow requests since armed
  long fail_at = -1;  // index of the nothrow request that fails
  long failed  = 0;
  std::size_t limit = (std::size_t)-1;  // larger nothrow requests fail
};
inline PbtNew &pbt_new() {
  static PbtNew n;
  return n;
}
inline long pbt_live_arrays() { return pbt_new().live; }
__attribute__((weak)) void *operator new[](std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++pbt_new().live;
  return p;
}
__attribute__((weak)) void *operator new[](std::size_t n, const std::nothrow_t &) noexcept {
  PbtNew &s = pbt_new();
  if ((s.fail_at >= 0 && s.count++ == s.fail_at) || n > s.limit) { ++s.failed; return nullptr; }
  void *p = std::malloc(n ? n : 1);
  if (p) ++s.live;
  return p;
}
__attribute__((weak)) void operator delete[](void *p) noexcept {
  if (p) --pbt_new().live;
  std::free(p);
}
__attribute__((weak)) void operator delete[](void *p, std::size_t) noexcept {
  if (p) --pbt_new().live;
  std::free(p);
}
__attribute__((weak)) void operator delete[](void *p, const std::nothrow_t &) noexcept {
  if (p) --pbt_new().live;
  std::free(p);
}
