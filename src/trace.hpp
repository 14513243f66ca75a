// Control-flow and address traces of the library: compiler callbacks (every basic-block edge, every memory
// access), or single-stepping of uninstrumented machine code.  The heap and the stack of a traced run are
// at fixed addresses, so two traces are equal exactly when the same edges are taken and the same locations accessed.
#pragma once
#include "harness.hpp"
#include <ucontext.h>
#include <malloc.h>
extern "C" char __executable_start, etext;
namespace trace {
struct State { volatile bool on = false; uint64_t h = 0, n = 0; uint64_t edges = 0, accs = 0; };
static State S; static std::vector<uint64_t> chk, prev; static uint64_t logFrom = ~0ull; static std::vector<std::pair<uint64_t, uint64_t>> win;
static const uint64_t CH = 1024;
static inline void event(uint64_t pc, uint64_t a) { uint64_t x = (S.h ^ pc) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x = (x ^ a) * 0xBF58476D1CE4E5B9ull; S.h = x ^ (x >> 32); if (S.n >= logFrom && win.size() < 4 * CH) win.push_back({pc, a}); if (++S.n % CH == 0) { chk.push_back(S.h); } }
static inline void acc(const void* p, size_t n, unsigned w, void* pc) { if (!S.on) return; S.accs++; event((uint64_t)pc, (uint64_t)p * 64 + n * 2 + w); }
// heap
static const size_t ARENA = 2ull << 30, STACK = 64 << 20; static uintptr_t alo = 0, acur = 0; static char* stk = nullptr;
static void* amalloc(size_t n, size_t al) { if (al < 16) al = 16; uintptr_t p = (acur + 16 + al - 1) & ~(al - 1); acur = p + n; if (acur > alo + ARENA) return nullptr; ((uint64_t*)p)[-1] = n; return (void*)p; }
static bool inArena(const void* p) { return alo && (uintptr_t)p >= alo && (uintptr_t)p < alo + ARENA; }
static ucontext_t mainc, subc; static const std::function<void()>* fn = nullptr; static std::string err; static bool failed = false;
static void stepOn() {
#ifdef STEP
  asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory");
#endif
}
static void stepOff() {
#ifdef STEP
  asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "cc", "memory");
#endif
}
static void entry() { failed = false; try { S.on = true; stepOn(); (*fn)(); stepOff(); S.on = false; } catch (Violation& v) { stepOff(); S.on = false; failed = true; err = v.msg; } }
#ifdef STEP
static uintptr_t tlo = (uintptr_t)&__executable_start, thi = (uintptr_t)&etext;
static void onTrap(int, siginfo_t*, void* u) { uint64_t ip = ((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP]; if (ip >= tlo && ip < thi && S.on) event(ip, 0); }
#endif
struct T { uint64_t h, n; };
static T run(const std::function<void()>& f) {
  if (!alo) { alo = (uintptr_t)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); stk = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
#ifdef STEP
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
#endif
  acur = alo; S.h = 0; S.n = S.accs = S.edges = 0; chk.clear(); win.clear(); fn = &f; getcontext(&subc); subc.uc_stack.ss_sp = stk; subc.uc_stack.ss_size = STACK; subc.uc_link = &mainc; makecontext(&subc, entry, 0); swapcontext(&mainc, &subc); if (failed) throw Violation{err}; return T{S.h, S.n}; }
static std::string where(uint64_t pc) { return fmt("+0x%llx", (unsigned long long)(pc - (uint64_t)&__executable_start)); }
// where do two runs part?
static std::string diff(const std::function<void()>& a, const std::function<void()>& b) { logFrom = ~0ull; run(a); auto ca = chk; run(b); auto cb = chk; size_t i = 0; while (i < ca.size() && i < cb.size() && ca[i] == cb[i]) i++; logFrom = i * CH; run(a); auto wa = win; run(b); auto wb = win; logFrom = ~0ull; size_t j = 0; while (j < wa.size() && j < wb.size() && wa[j] == wb[j]) j++;
  if (j >= wa.size() || j >= wb.size()) return fmt("one ends after event %llu", (unsigned long long)(i * CH + j)); bool br = wa[j].first != wb[j].first; return fmt("event %llu: %s at %s and %s (addresses from %s)", (unsigned long long)(i * CH + j), br ? "control flow differs" : "accessed location differs", where(wa[j].first).c_str(), where(wb[j].first).c_str(), "the executable's start"); }
}
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_memalign(size_t, size_t);
static void* zero(void* p, size_t n) { if (p) memset(p, 0, n); return p; }
void* __wrap_malloc(size_t n) { return trace::S.on ? trace::amalloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; return trace::S.on ? zero(trace::amalloc(a * b, 16), a * b) : __real_calloc(a, b); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return trace::S.on ? trace::amalloc(n, a) : __real_aligned_alloc(a, n); }
void* __wrap_memalign(size_t a, size_t n) { return trace::S.on ? trace::amalloc(n, a) : __real_memalign(a, n); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { if (!trace::S.on) return __real_posix_memalign(r, a, n); *r = trace::amalloc(n, a); return *r ? 0 : ENOMEM; }
void __wrap_free(void* p) { if (!trace::inArena(p)) __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (!trace::inArena(p) && !(trace::S.on && !p)) return __real_realloc(p, n); void* q = trace::amalloc(n, 16); if (q && p) { size_t o = ((uint64_t*)p)[-1]; memcpy(q, p, o < n ? o : n); } return q; }
#define PC __builtin_return_address(0)
void __sanitizer_cov_trace_pc() { if (trace::S.on) { trace::S.edges++; trace::event((uint64_t)PC, 1); } }
void __sanitizer_cov_trace_pc_indir(uint64_t t) { if (trace::S.on) trace::event((uint64_t)PC, t); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { trace::acc(p, n, 0, PC); } void __tsan_write##n(void* p) { trace::acc(p, n, 1, PC); } void __tsan_unaligned_read##n(void* p) { trace::acc(p, n, 0, PC); } void __tsan_unaligned_write##n(void* p) { trace::acc(p, n, 1, PC); } void __tsan_read_write##n(void* p) { trace::acc(p, n, 1, PC); } void __tsan_unaligned_read_write##n(void* p) { trace::acc(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { trace::acc(p, n, 0, PC); } void __tsan_volatile_write##n(void* p) { trace::acc(p, n, 1, PC); } void __tsan_unaligned_volatile_read##n(void* p) { trace::acc(p, n, 0, PC); } void __tsan_unaligned_volatile_write##n(void* p) { trace::acc(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { trace::acc(p, n, 0, PC); } void __tsan_write_range(void* p, size_t n) { trace::acc(p, n, 1, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { trace::acc(s, n, 0, PC); trace::acc(d, n, 1, PC); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { trace::acc(s, n, 0, PC); trace::acc(d, n, 1, PC); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { trace::acc(d, n, 1, PC); return memset(d, c, n); }
#define AT(b, t) t __tsan_atomic##b##_load(const volatile t* p, int) { trace::acc((void*)p, sizeof(t), 0, PC); return __atomic_load_n(p, 5); } void __tsan_atomic##b##_store(volatile t* p, t v, int) { trace::acc((void*)p, sizeof(t), 1, PC); __atomic_store_n(p, v, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// comparisons that stop early reveal where; string functions never belong on secrets
int __real_memcmp(const void*, const void*, size_t); int __wrap_memcmp(const void* a, const void* b, size_t n) { if (trace::S.on) { trace::stepOff(); const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; size_t k = 0; while (k < n && x[k] == y[k]) k++; trace::event((uint64_t)a, (uint64_t)b * 64 + n); trace::event(7, k); int r = __real_memcmp(a, b, n); trace::stepOn(); return r; } return __real_memcmp(a, b, n); }
}
