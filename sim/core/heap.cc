// Freed memory is filled with a pattern and kept out of use for a while, so that code which uses an object after its
// deletion behaves the same in every execution of a seed, and a write to it is noticed when the block leaves the queue.
#include <malloc.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace sim {
bool heap_quarantine = false;
int heap_fill = 0xdb;
char heap_error[160];
static constexpr size_t kSlots = 1 << 16, kMax = 4096;   // blocks kept; larger blocks are freed at once
static void* ring[kSlots]; static size_t at = 0;
static void Put(void* p) {
  if (!p) return;
  if (!heap_quarantine) { free(p); return; }
  size_t n = malloc_usable_size(p);
  if (n > kMax) { free(p); return; }
  memset(p, heap_fill, n);
  void* o = ring[at]; ring[at] = p; at = (at + 1) % kSlots;
  if (!o) return;
  auto* b = (unsigned char*)o; size_t m = malloc_usable_size(o);
  for (size_t i = 0; i < m; i++) if (b[i] != heap_fill) { heap_quarantine = false; snprintf(heap_error, sizeof heap_error, " (memory was written after it was freed: block of %zu bytes, offset %zu)", m, i); abort(); }
  free(o);
}
void HeapCheck() {
  for (auto* o : ring) { if (!o) continue; auto* b = (unsigned char*)o; size_t m = malloc_usable_size(o);
    for (size_t i = 0; i < m; i++) if (b[i] != heap_fill) { heap_quarantine = false; snprintf(heap_error, sizeof heap_error, " (memory was written after it was freed: block of %zu bytes, offset %zu)", m, i); abort(); } }
}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { sim::Put(p); }
void operator delete[](void* p) noexcept { sim::Put(p); }
void operator delete(void* p, size_t) noexcept { sim::Put(p); }
void operator delete[](void* p, size_t) noexcept { sim::Put(p); }
