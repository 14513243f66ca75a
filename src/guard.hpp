// Buffers that end (or start) exactly at an inaccessible page, optionally read-only.
#pragma once
#include "harness.hpp"
struct Guard { uint8_t* base = nullptr; size_t pages = 0; uint8_t* p = nullptr; size_t n = 0;
  // atEnd: the last byte is the last accessible one; otherwise the first byte is the first accessible one
  Guard(size_t n_, bool atEnd = true, const uint8_t* init = nullptr, bool readOnly = false) : n(n_) { size_t pg = 4096; pages = (n + pg - 1) / pg; base = (uint8_t*)mmap(nullptr, (pages + 2) * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) abort();
    uint8_t* a = base + pg; if (pages) mprotect(a, pages * pg, PROT_READ | PROT_WRITE); memset(a, 0xC3, pages * pg); p = atEnd ? a + pages * pg - n : a; if (init && n) memcpy(p, init, n); if (readOnly && pages) mprotect(a, pages * pg, PROT_READ); }
  ~Guard() { munmap(base, (pages + 2) * 4096); }
  Guard(const Guard&) = delete;
  bool clean() const { for (uint8_t* q = base + 4096; q < base + 4096 + pages * 4096; q++) if ((q < p || q >= p + n) && *q != 0xC3) return false; return true; } // nothing written around the buffer
  bool untouched() const { for (size_t i = 0; i < n; i++) if (p[i] != 0xC3) return false; return clean(); }
};
// n bytes of address space showing one window over and over, with pages of their own at the end
struct Big { uint8_t* p = nullptr; size_t n, tot; int fd = -1; static const size_t WIN = 2 << 20;
  Big(size_t n, const uint8_t* w) : n(n), tot((n + WIN - 1) / WIN * WIN) { fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, 2 * WIN)) return;
    uint8_t* b = (uint8_t*)mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return;
    for (size_t o = 0; o < tot; o += WIN) if (mmap(b + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o + WIN >= tot ? WIN : 0) == MAP_FAILED) { munmap(b, tot); return; }
    memcpy(b, w, WIN); memcpy(b + tot - WIN, w, WIN); p = b; }
  ~Big() { if (p) munmap(p, tot); if (fd >= 0) close(fd); } Big(const Big&) = delete; };
