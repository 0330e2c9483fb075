// Global operator new/delete for harnesses built without a sanitizer: new memory and freed memory are filled with patterns that are no
// valid pointers, freed blocks stay out of use for a while, and a write to one is noticed when it comes up for reuse.
#ifndef VERIF_POISON_HPP
#define VERIF_POISON_HPP
#if defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#  define VERIF_NO_POISON
# endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
# define VERIF_NO_POISON
#endif
#include <cstdlib>
#ifndef VERIF_NO_POISON
#include <atomic>
#include <cstring>
#include <new>
namespace poison {
enum { RING = 192, MAXSZ = 768, LIVE = 0xA7, DEAD = 0xDB };
static const size_t TAGL = 0x5afe11fe00000000ull, TAGD = 0xdeadb10c00000000ull;
struct Head { size_t size, tag; };
static Head* ring[RING]; static int at = 0; static std::atomic_flag lock = ATOMIC_FLAG_INIT;
static void (*onBad)(const char*) = 0;
[[noreturn]] __attribute__((noinline)) static void bad(const char* what) { if (onBad) onBad(what); abort(); }
inline void* get(size_t n, bool thr) {
  Head* h = (Head*)malloc(sizeof(Head) + (n ? n : 1));
  if (!h) { if (thr) throw std::bad_alloc(); return 0; }
  h->size = n; h->tag = TAGL; if (n <= MAXSZ) memset(h + 1, LIVE, n); return h + 1;
}
inline void put(void* p) {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if (h->tag == TAGD) bad("memory freed twice");
  if (h->tag != TAGL) bad("free of something that is no allocated block");
  if (h->size > MAXSZ) { h->tag = TAGD; free(h); return; }
  h->tag = TAGD; memset(h + 1, DEAD, h->size);
  while (lock.test_and_set(std::memory_order_acquire)) {}
  Head* o = ring[at]; ring[at] = h; at = (at + 1) % RING;
  lock.clear(std::memory_order_release);
  if (o) {
    const unsigned char* b = (const unsigned char*)(o + 1);
    for (size_t i = 0; i < o->size; ++i) if (b[i] != DEAD) bad("write to memory already freed");
    free(o);
  }
}
}
#ifndef VERIF_OWN_NEW
void* operator new(size_t n) { return poison::get(n, true); }
void* operator new[](size_t n) { return poison::get(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return poison::get(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return poison::get(n, false); }
void operator delete(void* p) noexcept { poison::put(p); }
void operator delete[](void* p) noexcept { poison::put(p); }
void operator delete(void* p, size_t) noexcept { poison::put(p); }
void operator delete[](void* p, size_t) noexcept { poison::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { poison::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { poison::put(p); }
#endif
#else
namespace poison { inline void* get(size_t n, bool) { return malloc(n ? n : 1); } inline void put(void* p) { free(p); } }
#endif
#endif
