// Runtime for code compiled with -fsanitize=thread instrumentation but linked without the sanitizer's
// runtime: every memory access, function entry and cryptographic backend call of the library arrives
// here.  Two real threads run one at a time under a scheduler that follows a given plan of preemptions.
#pragma once
#include "harness.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <immintrin.h>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace sched {
struct FP { uint64_t g; uint32_t mask; }; // granule (8 bytes); bit 0/1: read/written by thread 0, bit 2/3: by thread 1
static const size_t FT = 1 << 15; static const size_t ARENA = 6ull << 30, STACK = 64 << 20;
struct Plan { int start = 0; int kind = 0; /* 0 conflict points, 1 coarse points */ std::vector<uint64_t> at; }; // at[0]: point of the starting thread, at[1]: of the other one, ...
struct Thr { int id; uintptr_t slo, shi, alo, ahi, cur; void* fl[64]; sem_t sem; uint64_t pts[2]; volatile bool done; };
static Thr thr[2]; static thread_local Thr* T = nullptr; static FP* fp; static size_t fpn = 0; static bool fpOver = false;
static std::vector<uint64_t> confl; static Plan plan; static size_t planPos = 0; static bool two = false, logPts = false; static std::vector<uint64_t> ptlog[2]; static uint64_t accesses = 0, switches = 0;
static inline void rec(uint64_t g, uint32_t m) { for (size_t i = (g * 0x9E3779B97F4A7C15ull) >> 40 & (FT - 1), k = 0; k < FT; k++, i = (i + 1) & (FT - 1)) { if (fp[i].mask && fp[i].g == g) { fp[i].mask |= m; return; } if (!fp[i].mask) { if (fpn > FT / 2) { fpOver = true; return; } fpn++; fp[i].g = g; fp[i].mask = m; return; } } }
static void handover() { Thr& o = thr[1 - T->id]; if (o.done) return; switches++; sem_post(&o.sem); for (;;) { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 20; if (!sem_timedwait(&T->sem, &t)) return; if (errno == ETIMEDOUT) return; } } // a blocked partner: go on
static inline void point(int kind, uint64_t pc) { uint64_t k = T->pts[kind]++; if (!two) return; if (logPts && kind == 0 && ptlog[T->id].size() < 2000000) ptlog[T->id].push_back(pc);
  if (plan.kind != kind || planPos >= plan.at.size()) return; int turn = (plan.start + planPos) & 1; if (turn != T->id || plan.at[planPos] != k) return; planPos++; handover(); }
static inline void access(const void* p, size_t n, bool w, void* pc) { if (!T) return; uintptr_t a = (uintptr_t)p; if ((a >= T->slo && a < T->shi) || (a >= T->alo && a < T->ahi) || !n) return; accesses++;
  bool c = false; for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { rec(g, (w ? 2u : 1u) << (2 * T->id)); if (!c && !confl.empty() && std::binary_search(confl.begin(), confl.end(), g)) c = true; }
  if (c) point(0, (uint64_t)pc); }
static void* amalloc(size_t n, size_t al) { if (n < 16) n = 16; int c = 64 - __builtin_clzll((n + 15) | 1); size_t sz = (size_t)1 << c; bool cls = al <= 32; if (cls && T->fl[c]) { void* p = T->fl[c]; T->fl[c] = *(void**)p; ((uint64_t*)p)[-2] = n; return p; } if (al < 32) al = 32; uintptr_t p = (T->cur + 16 + al - 1) & ~(al - 1); if (p + sz > T->ahi) return nullptr; ((uint64_t*)p)[-1] = cls ? c : 0; ((uint64_t*)p)[-2] = n; T->cur = p + sz; return (void*)p; }
static bool inArena(void* p) { uintptr_t a = (uintptr_t)p; for (auto& t : thr) if (t.alo && a >= t.alo && a < t.ahi) return true; return false; }
static void afree(void* p) { uintptr_t a = (uintptr_t)p; if (T && a >= T->alo && a < T->ahi && ((uint64_t*)p)[-1]) { int c = ((uint64_t*)p)[-1]; *(void**)p = T->fl[c]; T->fl[c] = p; } }
static void init() { for (int i = 0; i < 2; i++) { Thr& t = thr[i]; t.id = i; if (!t.alo) { t.alo = (uintptr_t)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t.ahi = t.alo + ARENA; t.slo = (uintptr_t)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t.shi = t.slo + STACK; } t.cur = t.alo; memset(t.fl, 0, sizeof t.fl); t.pts[0] = t.pts[1] = 0; t.done = false; sem_init(&t.sem, 0, 0); } if (!fp) fp = (FP*)mmap(nullptr, FT * sizeof(FP), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(fp, 0, FT * sizeof(FP)); fpn = 0; fpOver = false; planPos = 0; accesses = switches = 0; ptlog[0].clear(); ptlog[1].clear(); }
struct Job { int id; const std::function<void()>* f; };
static void* body(void* v) { Job* j = (Job*)v; Thr& t = thr[j->id]; if (two) { while (sem_wait(&t.sem)) {} } T = &t; (*j->f)(); T = nullptr; t.done = true; if (two) sem_post(&thr[1 - j->id].sem); return nullptr; }
// run one or two operations, each in a thread of its own
static void run(const std::function<void()>* f0, const std::function<void()>* f1) { init(); two = f1 != nullptr; pthread_t p[2]; Job j[2] = {{0, f0}, {1, f1}}; for (int i = 0; i < (two ? 2 : 1); i++) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void*)thr[i].slo, STACK); if (pthread_create(&p[i], &a, body, &j[i])) throw Violation{"pthread_create"}; } if (two) sem_post(&thr[plan.start].sem); for (int i = 0; i < (two ? 2 : 1); i++) pthread_join(p[i], nullptr); }
}
extern "C" {
void* malloc(size_t n) { return sched::T ? sched::amalloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (sched::inArena(p)) sched::afree(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) { if (!sched::T) return __libc_calloc(a, b); if (b && a > (size_t)-1 / b) return nullptr; void* p = sched::amalloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* memalign(size_t a, size_t n) { return sched::T ? sched::amalloc(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!sched::inArena(p)) { if (!sched::T) return __libc_realloc(p, n); size_t o = malloc_usable_size(p); void* q = malloc(n); if (q) memcpy(q, p, o < n ? o : n); return q; } size_t o = ((uint64_t*)p)[-2]; void* q = malloc(n); if (q) { memcpy(q, p, o < n ? o : n); free(p); } return q; }
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) { if (sched::T) sched::point(1, 0); } void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_write##n(void* p) { sched::access(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true, PC); } void __tsan_read_write##n(void* p) { sched::access(p, n, false, PC); sched::access(p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { sched::access(p, n, false, PC); sched::access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { sched::access(p, n, true, PC); } void __tsan_unaligned_volatile_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { sched::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { sched::access(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { sched::access(p, n, true, PC); } void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { sched::access(s, n, false, PC); sched::access(d, n, true, PC); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { sched::access(s, n, false, PC); sched::access(d, n, true, PC); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { sched::access(d, n, true, PC); return memset(d, c, n); }
#define AT(b, t) t __tsan_atomic##b##_load(const volatile t* p, int) { sched::access((void*)p, sizeof(t), false, PC); return __atomic_load_n(p, 5); } void __tsan_atomic##b##_store(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); __atomic_store_n(p, v, 5); } t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_fetch_add(p, v, 5); } t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_fetch_sub(p, v, 5); } t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_fetch_and(p, v, 5); } t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_fetch_or(p, v, 5); } t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { sched::access((void*)p, sizeof(t), true, PC); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int, int) { sched::access((void*)p, sizeof(t), true, PC); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// library functions that touch memory without instrumentation
int __real_memcmp(const void*, const void*, size_t); int __wrap_memcmp(const void* a, const void* b, size_t n) { sched::access(a, n, false, PC); sched::access(b, n, false, PC); return __real_memcmp(a, b, n); }
void __real_explicit_bzero(void*, size_t); void __wrap_explicit_bzero(void* p, size_t n) { sched::access(p, n, true, PC); __real_explicit_bzero(p, n); }
#ifdef WRAP_EVP_EncryptUpdate
int __real_EVP_EncryptUpdate(void*, uint8_t*, int*, const uint8_t*, int); int __wrap_EVP_EncryptUpdate(void* c, uint8_t* o, int* l, const uint8_t* in, int n) { sched::access(c, 8, true, PC); if (n > 0) { sched::access(in, n, false, PC); sched::access(o, n, true, PC); } sched::access(l, 4, true, PC); if (sched::T) sched::point(1, 0); return __real_EVP_EncryptUpdate(c, o, l, in, n); }
int __real_EVP_EncryptInit_ex(void*, const void*, void*, const uint8_t*, const uint8_t*); int __wrap_EVP_EncryptInit_ex(void* c, const void* t, void* e, const uint8_t* k, const uint8_t* iv) { sched::access(c, 8, true, PC); if (k) sched::access(k, 16, false, PC); if (sched::T) sched::point(1, 0); return __real_EVP_EncryptInit_ex(c, t, e, k, iv); }
int __real_EVP_EncryptFinal_ex(void*, uint8_t*, int*); int __wrap_EVP_EncryptFinal_ex(void* c, uint8_t* o, int* l) { sched::access(c, 8, true, PC); sched::access(l, 4, true, PC); return __real_EVP_EncryptFinal_ex(c, o, l); }
int __real_EVP_CIPHER_CTX_set_padding(void*, int); int __wrap_EVP_CIPHER_CTX_set_padding(void* c, int p) { sched::access(c, 8, true, PC); return __real_EVP_CIPHER_CTX_set_padding(c, p); }
void __real_EVP_CIPHER_CTX_free(void*); void __wrap_EVP_CIPHER_CTX_free(void* c) { sched::access(c, 8, true, PC); __real_EVP_CIPHER_CTX_free(c); }
int __real_EVP_CIPHER_CTX_reset(void*); int __wrap_EVP_CIPHER_CTX_reset(void* c) { sched::access(c, 8, true, PC); return __real_EVP_CIPHER_CTX_reset(c); }
#endif
}
