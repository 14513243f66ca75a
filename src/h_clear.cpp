// C23: clearing a private key, at every alignment, content and build mode; in dead-store form too.
#include "gen.hpp"
#include "guard.hpp"
using namespace ref; using namespace gen;
#ifndef SHARED
extern "C" int rand_bytes(uint8_t* p, size_t n) { Rng g(4242); g.fill(p, n); return 0; }
#endif
static uint8_t pat[64];
// pattern bytes that occur nowhere else; copied in a way the compiler cannot see through
__attribute__((noinline)) static void plant(uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) ((volatile uint8_t*)p)[i] = pat[i]; asm volatile("" :: "r"(p) : "memory"); }
static uint8_t* spot = nullptr; static size_t spotN = 0;
// the key is a dead local object when it is cleared: the stores must survive anyway
#define LOCALS(n) __attribute__((noinline)) static void local_##n() { uint8_t k[sizeof pat]; plant(k, sizeof k); uint8_t* q = k; asm volatile("" : "=r"(spot) : "0"(q)); faest_##n##_clear_private_key(k); } \
  __attribute__((noinline)) static void heap_##n(void* mem) { uint8_t* k = (uint8_t*)mem; plant(k, sizeof pat); faest_##n##_clear_private_key(k); }
APIALL(LOCALS)
#define LROW(n) {local_##n, heap_##n},
static struct { void (*local)(); void (*heap)(void*); } L[12] = {APIALL(LROW)};
__attribute__((noinline)) static bool residue(const uint8_t* at, size_t n, size_t* where) { for (size_t i = 0; i + 4 <= n; i++) for (size_t j = 0; j + 4 <= sizeof pat; j++) { bool same = true; for (int q = 0; q < 4; q++) if (((volatile const uint8_t*)at)[i + q] != pat[j + q]) { same = false; break; } if (same) { *where = i; return true; } } return false; }
static void snap(uint8_t* to, const uint8_t* from, size_t n) { for (size_t i = 0; i < n; i++) to[i] = ((volatile const uint8_t*)from)[i]; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 100; for (int i = 0; i < 64; i++) pat[i] = 0x81 + 2 * i + (i * i >> 3);
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Api& A = API[pi];
      for (unsigned a = 0; a < 64; a++) H.run(fmt("%s alignment %u", P.name, a), [&] {
        for (unsigned c = 0; c < 12 + (H.thorough ? 244u : 0); c++) for (int e = 0; e < 2; e++) { Guard g(64 + P.sk + 64 + (e ? 0 : 0), false); uint8_t* lo = g.base + 4096; uint8_t* hi = lo + 4096; uint8_t* k = e ? hi - a - P.sk : lo + a;
          Bytes v(P.sk); if (c < 8) std::fill(v.begin(), v.end(), (u8[]){0x00, 0xff, 0x01, 0x80, 0x55, 0xaa, 0x7f, 0xfe}[c]); else if (c == 8) v = key(P, 9).sk; else if (c == 9) for (size_t i = 0; i < v.size(); i++) v[i] = i + 1; else { Rng r(c * 64 + a); r.fill(v.data(), v.size()); }
          memcpy(k, v.data(), P.sk); A.clear(k); for (size_t i = 0; i < P.sk; i++) CHECK(k[i] == 0, "byte %zu of the %u-byte key is %02x after clearing (alignment %u, contents %u, %s of a page)", i, P.sk, k[i], a, c, e ? "end" : "start"); for (uint8_t* q = lo; q < hi; q++) CHECK((q >= k && q < k + P.sk) || *q == 0xC3, "clearing changes the byte at offset %ld of the key (alignment %u)", (long)(q - k), a);
          H.eval(fnv(v.data(), v.size(), a * 4 + e + pi * 1000)); }
        // every byte position that could be left: single nonzero byte
        if (a < 16 || H.thorough) for (unsigned b = 0; b < P.sk; b++) { uint8_t buf[256]; memset(buf, 0xC3, sizeof buf); memset(buf + 64 + a, 0, P.sk); buf[64 + a + b] = 0x80 >> (b % 8); A.clear(buf + 64 + a); for (unsigned i = 0; i < sizeof buf; i++) CHECK(buf[i] == (i >= 64 + a && i < 64 + a + P.sk ? 0 : 0xC3), "byte %u set: byte at offset %d is %02x after clearing", b, (int)i - 64 - (int)a, buf[i]); H.count("single_bytes"); } });
      H.run(fmt("%s dead objects", P.name), [&] { uint8_t* img = (uint8_t*)malloc(1 << 14); for (int r = 0; r < 3; r++) { L[pi].local(); uint8_t* s = spot; snap(img, s, P.sk); size_t w; CHECK(!residue(img, P.sk, &w), "key bytes remain at offset %zu of a cleared local key", w);
          void* m = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); L[pi].heap((u8*)m + r * 5); CHECK(!residue((u8*)m + r * 5, P.sk, &w), "key bytes remain at offset %zu of a cleared key", w); munmap(m, 8192); H.eval(pi * 10 + r + 1); } free(img); });
      H.run(fmt("%s use after clearing", P.name), [&] { for (unsigned k = 8; k < (H.thorough ? 40u : 10u); k++) { Key K = key(P, k); Bytes sk(K.sk); A.clear(sk.data()); CHECK(A.validate(K.pk.data(), sk.data()) != 0, "the cleared key validates against the original public key"); Bytes s(P.sig), m = msg(20, k), rho = msg(P.lb(), k); size_t l = P.sig; int r = A.signr(sk.data(), m.data(), m.size(), rho.data(), rho.size(), s.data(), &l); if (r == 0) CHECK(A.verify(K.pk.data(), m.data(), m.size(), s.data(), l) != 0, "a signature made with the cleared key verifies under the original public key"); H.count(r ? "cleared_key_refused" : "cleared_key_signs_for_other_public_key");
          Bytes again(sk); A.clear(again.data()); CHECK(again == sk, "clearing twice"); H.eval(pi * 100 + k + 50000); } });
    }
  });
}
