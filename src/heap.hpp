// Process-wide heap interposition: tracks every block allocated inside a window and can make
// allocations fail.  Calls made by the library itself arrive through the link-time wrappers, calls
// made by shared libraries (OpenSSL) through the interposed symbols.
#pragma once
#include "harness.hpp"
#include <execinfo.h>
#include <immintrin.h>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace heap {
struct Ent { void* p; size_t n; uint64_t seq; bool lib; };
static const size_t TS = 1 << 16; static Ent tab[TS]; static size_t live = 0; static const char* bad = nullptr; static void* badp = nullptr;
static volatile bool on = false; static bool inLib = false; static uint64_t allocs = 0, libAllocs = 0, frees = 0, libFrees = 0, foreign = 0, failAt = ~0ull, failFrom = ~0ull, failed = 0, failLib = ~0ull; static uint64_t state = 0;
static void (*onState)(uint64_t) = nullptr; static std::vector<uint64_t>* sites = nullptr; static bool busy = false;
static inline size_t slot(void* p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 48 & (TS - 1); }
static inline Ent* find(void* p) { for (size_t i = slot(p), k = 0; k < TS; k++, i = (i + 1) & (TS - 1)) { if (tab[i].p == p) return &tab[i]; if (!tab[i].p && !tab[i].n) return nullptr; } return nullptr; }
static inline uint64_t key(const Ent& e) { uint64_t x = e.n * 0x9E3779B97F4A7C15ull + e.lib; x ^= x >> 29; return x * 0xBF58476D1CE4E5B9ull; }
static void add(void* p, size_t n) { if (!p) return; for (size_t i = slot(p);; i = (i + 1) & (TS - 1)) if (!tab[i].p) { tab[i] = Ent{p, n ? n : 1, allocs, inLib}; live++; state += key(tab[i]); break; } if (onState) onState(state); }
static bool del(void* p) { Ent* e = find(p); if (!e) return false; state -= key(*e); e->p = nullptr; live--; if (onState) onState(state); return true; } // n stays: tombstone
static bool fails() { uint64_t k = allocs++; uint64_t l = ~0ull; if (inLib) l = libAllocs++; if (sites && !busy) { busy = true; void* f[12]; uint64_t h = 1; bool o = on; on = false; int n = backtrace(f, 12); h = fnv(f, n * sizeof f[0]); sites->push_back(h); on = o; busy = false; } if (k == failAt || k >= failFrom || (l != ~0ull && l == failLib)) { failed++; return true; } return false; }
static void reset() { memset(tab, 0, sizeof tab); live = 0; bad = nullptr; allocs = libAllocs = frees = libFrees = foreign = failed = 0; failAt = failFrom = failLib = ~0ull; state = 0; }
static void open() { reset(); on = true; }
static void close() { on = false; }
static size_t liveLib() { size_t n = 0; for (auto& e : tab) if (e.p && e.lib) n++; return n; }
static void* doAlloc(size_t n, size_t al, bool zero) { if (!on) return al ? __libc_memalign(al, n) : zero ? __libc_calloc(1, n) : __libc_malloc(n); if (fails()) { errno = ENOMEM; return nullptr; } void* p = al ? __libc_memalign(al, n) : zero ? __libc_calloc(1, n) : __libc_malloc(n); add(p, n); return p; }
static void doFree(void* p) { if (on && p) { frees++; if (inLib) libFrees++; if (!del(p)) { foreign++; if (inLib && !bad) { bad = "the library frees a block that it did not allocate in this call, or frees a block twice"; badp = p; } if (inLib) return; } } __libc_free(p); }
static void* doRealloc(void* p, size_t n) { if (!on) return __libc_realloc(p, n); if (p && !find(p)) { if (inLib) { bad = "the library reallocates a block that it did not allocate in this call"; return nullptr; } foreign++; return __libc_realloc(p, n); } if (fails()) return nullptr; if (p) del(p); void* q = __libc_realloc(p, n); if (n) add(q, n); return q; }
}
extern "C" {
void* malloc(size_t n) { return heap::doAlloc(n, 0, false); }
void* calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; return heap::doAlloc(a * b, 0, true); }
void* realloc(void* p, size_t n) { return heap::doRealloc(p, n); }
void free(void* p) { heap::doFree(p); }
void* aligned_alloc(size_t a, size_t n) { return heap::doAlloc(n, a, false); }
void* memalign(size_t a, size_t n) { return heap::doAlloc(n, a, false); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = heap::doAlloc(n, a, false); if (!p && n) return ENOMEM; *r = p; return 0; }
#define LIBSCOPE heap::inLib = true; struct X { ~X() { heap::inLib = false; } } x_;
void* __wrap_malloc(size_t n) { LIBSCOPE return heap::doAlloc(n, 0, false); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; LIBSCOPE return heap::doAlloc(a * b, 0, true); }
void* __wrap_realloc(void* p, size_t n) { LIBSCOPE return heap::doRealloc(p, n); }
void __wrap_free(void* p) { LIBSCOPE heap::doFree(p); }
void* __wrap_aligned_alloc(size_t a, size_t n) { LIBSCOPE return heap::doAlloc(n, a, false); }
void* __wrap_memalign(size_t a, size_t n) { LIBSCOPE return heap::doAlloc(n, a, false); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { LIBSCOPE void* p = heap::doAlloc(n, a, false); if (!p && n) return ENOMEM; *r = p; return 0; }
}
