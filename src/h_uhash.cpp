// C14: universal hashes against the polynomial definitions.
#include "gen.hpp"
#include "harness.hpp"
#include "universal_hashing.h"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
typedef void (*vh_t)(uint8_t*, const uint8_t*, const uint8_t*, unsigned);
static vh_t VH[3] = {vole_hash_128, vole_hash_192, vole_hash_256};
static std::vector<Bytes> seeds(size_t n, unsigned lb, unsigned nr, bool full) {
  std::vector<Bytes> v; v.push_back(Bytes(n, 0)); v.push_back(Bytes(n, 0xff)); for (unsigned i = 0; i < nr; i++) v.push_back(msg(n, 50 + i));
  if (full) for (size_t o = 0; o < n; o += lb) { Bytes b = msg(n, 91); size_t e = std::min(n, o + lb); memset(&b[o], 0, e - o); v.push_back(b); b[o] = 1; v.push_back(b); memset(&b[o], 0, e - o); b[e - 1] = 0x80; v.push_back(b); memset(&b[o], 0xff, e - o); v.push_back(b); }
  return v;
}
static void vcheck(Harness& H, unsigned li, const Bytes& sd, const Bytes& x, unsigned ell, const char* what, size_t k, const Bytes* differFrom = nullptr) {
  unsigned lam = 128 + 64 * li, lb = lam / 8; uint8_t h[50], g[50]; memset(h, 0xC3, sizeof h); memset(g, 0xC3, sizeof g); Bytes w = voleHash(lam, sd.data(), x.data(), ell); VH[li](h, sd.data(), x.data(), ell); vole_hash(g, sd.data(), x.data(), ell, lam);
  CHECK(!memcmp(h, w.data(), lb + 2), "vole_hash_%u, ell %u, %s %zu: differs from the definition", lam, ell, what, k); CHECK(!memcmp(g, h, sizeof g), "vole_hash dispatch for %u differs from vole_hash_%u", lam, lam); for (int i = lb + 2; i < 50; i++) CHECK(h[i] == 0xC3, "vole_hash_%u writes past its output", lam);
  if (differFrom) CHECK(w != *differFrom, "vole_hash_%u, ell %u: %s %zu does not influence the output", lam, ell, what, k); H.count("vole_hashes");
}
template <int N> struct Z;
#define ZZ(N, B) template <> struct Z<N> { typedef bf##B##_t T; typedef zk_hash_##B##_ctx C; static void init(C* c, const uint8_t* sd) { zk_hash_##B##_init(c, sd); } static void upd(C* c, T v) { zk_hash_##B##_update(c, v); } static void fin(uint8_t* h, C* c, T x) { zk_hash_##B##_finalize(h, c, x); } static void all(uint8_t* h, const uint8_t* sd, const T* x, unsigned n) { zk_hash_##B(h, sd, x, n); } static T ld(const uint8_t* p) { return bf##B##_load(p); } };
ZZ(2, 128) ZZ(3, 192) ZZ(4, 256)
template <int N> static void zcheck(Harness& H, const Bytes& sd, const std::vector<F<N>>& v, const F<N>& x1, const char* what) {
  uint8_t w[8 * N], a[8 * N + 8], b[8 * N + 8]; zkHash<N>(sd.data(), v, x1).store(w); memset(a, 0xC3, sizeof a); memset(b, 0xC3, sizeof b); struct alignas(32) S { typename Z<N>::C c; }; S s; typename Z<N>::T* arr = nullptr; CHECK(posix_memalign((void**)&arr, 64, (v.size() + 1) * sizeof *arr) == 0, "mem");
  for (size_t i = 0; i <= v.size(); i++) { uint8_t t[8 * N]; (i < v.size() ? v[i] : x1).store(t); arr[i] = Z<N>::ld(t); }
  Z<N>::init(&s.c, sd.data()); for (size_t i = 0; i < v.size(); i++) Z<N>::upd(&s.c, arr[i]); Z<N>::fin(a, &s.c, arr[v.size()]); Z<N>::all(b, sd.data(), arr, v.size()); free(arr);
  CHECK(!memcmp(a, w, 8 * N), "zk_hash_%d of %zu elements (%s) differs from the definition", 64 * N, v.size(), what); CHECK(!memcmp(b, w, 8 * N), "one-shot zk_hash_%d of %zu elements (%s) differs from the definition", 64 * N, v.size(), what); for (int i = 0; i < 8; i++) CHECK(a[8 * N + i] == 0xC3, "zk_hash writes past its output"); H.count("zk_hashes");
}
template <int N> static void zk(Harness& H) {
  auto sds = seeds(24 * N + 8, 8 * N, H.thorough ? 6 : 3, true);
  for (size_t n = 0; n <= (H.thorough ? 700u : 340u); n += 1) H.run(fmt("zk_hash_%d %zu elements", 64 * N, n), [&] { for (size_t s = 0; s < sds.size(); s += n % 16 ? 5 : 1) { Rng r(n * 31 + s); std::vector<F<N>> v(n); for (auto& e : v) { uint8_t b[8 * N]; r.fill(b, sizeof b); e = F<N>::load(b); } F<N> x1; x1.w[0] = r.next(); zcheck<N>(H, sds[s], v, x1, "pseudo-random"); H.eval(fnv(sds[s].data(), sds[s].size(), n)); } });
  // every coefficient and every bit of a coefficient
  for (size_t n : {(size_t)1, (size_t)2, (size_t)200, (size_t)416, (size_t)500}) for (size_t i = 0; i < n; i += n > 100 ? (H.thorough ? 1 : 9) : 1) H.run(fmt("zk_hash_%d coefficient %zu of %zu", 64 * N, i, n), [&] { for (int b = 0; b < 64 * N; b += n > 2 ? 13 : 1) { std::vector<F<N>> v(n); v[i].setbit((b + i) % (64 * N)); zcheck<N>(H, sds[3], v, F<N>(), "single bit"); F<N> z; uint8_t w[8 * N]; CHECK(zkHash<N>(sds[3].data(), v, F<N>()) != z, "coefficient has no influence"); H.eval(i * 1000 + b + n * 1000003 + N); } std::vector<F<N>> v(n); for (auto& e : v) memset(e.w, 0xff, sizeof e.w); v[i] = F<N>(); zcheck<N>(H, sds[2], v, v[0], "all ones but one"); });
  for (size_t n : {(size_t)2, (size_t)3, (size_t)200, (size_t)500}) for (int k = 0; k < 5; k++) H.run(fmt("zk_hash_%d special coefficients %d of %zu", 64 * N, k, n), [&] { Rng r(n + k); std::vector<F<N>> v(n); for (auto& e : v) { uint8_t b[8 * N]; r.fill(b, sizeof b); e = F<N>::load(b); } for (size_t i = 0; i < n; i++) { auto t = v; F<N> x1 = v[(i + 1) % n]; if (k == 0) t[i] = F<N>(); else if (k == 1) { t[i] = F<N>(); t[i].w[0] = 1; } else if (k == 2) t[i] = t[(i + n - 1) % n]; else if (k == 3) { memset(t[i].w, 0xff, sizeof t[i].w); x1 = F<N>(); } else for (int q = 1; q < N; q++) t[i].w[q] = 0; zcheck<N>(H, sds[2 + i % (sds.size() - 2)], t, x1, "special coefficient"); H.eval(n * 5000 + i * 5 + k + 77777777ull * N); } });
  for (size_t b = 0; b < sds[0].size() * 8; b++) H.run(fmt("zk_hash_%d seed bit %zu", 64 * N, b), [&] { std::vector<F<N>> v(5); for (int i = 0; i < 5; i++) { v[i].w[0] = i + 1; v[i].w[N - 1] ^= 1ull << 63; } Bytes s = sds[2]; s[b / 8] ^= 1 << (b % 8); zcheck<N>(H, s, v, v[1], "seed bit"); Bytes e(sds[0].size(), 0); e[b / 8] = 1 << (b % 8); zcheck<N>(H, e, v, v[2], "single seed bit"); H.eval(b * 8 + N); });
}
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 100;
  return H.main([&](Harness& H) {
    for (unsigned li = 0; li < 3; li++) { unsigned lam = 128 + 64 * li, lb = lam / 8; auto sds = seeds(5 * lb + 8, lb, H.thorough ? 8 : 3, true); std::vector<unsigned> ells; for (auto& P : ALL) if (P.lambda == lam) ells.push_back(P.l); std::sort(ells.begin(), ells.end()); ells.erase(std::unique(ells.begin(), ells.end()), ells.end());
      for (unsigned ell : ells) { size_t n = (ell + 2 * lam + 16) / 8;
        for (size_t b = 0; b < n * 8; b += 64) H.run(fmt("vole_hash_%u ell %u input bits from %zu", lam, ell, b), [&] { for (size_t q = b; q < std::min(b + 64, n * 8); q++) { for (size_t s = 0; s < sds.size(); s++) { if (s >= 5 && (q + s) % (H.thorough ? 4 : 32)) continue; Bytes x(n, 0), z; x[q / 8] = 1 << (q % 8); Bytes zero(lb + 2, 0); vcheck(H, li, sds[s], x, ell, "input bit", q, s >= 2 && s < 5 ? &zero : nullptr); x = msg(n, 3); Bytes base = voleHash(lam, sds[s].data(), x.data(), ell); x[q / 8] ^= 1 << (q % 8); vcheck(H, li, sds[s], x, ell, "input bit over pseudo-random input", q, s >= 2 && s < 5 ? &base : nullptr); } H.eval(q + ell * 100000 + li); } });
        for (size_t b = 0; b < n; b += 16) H.run(fmt("vole_hash_%u ell %u runs from byte %zu", lam, ell, b), [&] { for (size_t e = b + 1; e <= n; e += 13) for (size_t s : {(size_t)1, (size_t)2, (size_t)9}) { Bytes x(n, 0); memset(&x[b], 0xff, e - b); vcheck(H, li, sds[s], x, ell, "run of ones ending at", e); H.eval(b * 10000 + e + ell * 100000000ull + s); } });
        for (size_t w : {(size_t)8, (size_t)lb}) H.run(fmt("vole_hash_%u ell %u special blocks of %zu bytes", lam, ell, w), [&] { Bytes base = msg(n, 21); for (size_t o = 0; o + w <= n; o += w) for (int k = 0; k < 4; k++) { Bytes x = base; if (k == 3) { if (!o) continue; std::copy(x.begin() + o - w, x.begin() + o, x.begin() + o); } else for (size_t i = 0; i < w; i++) x[o + i] = k == 0 ? 0 : k == 1 ? 0xff : i == 0; vcheck(H, li, sds[2 + o / w % 3], x, ell, k == 0 ? "zero block at" : k == 1 ? "all-one block at" : k == 2 ? "block one at" : "repeated block at", o); H.eval(o * 4 + k + ell * 100000ull + w); } });
        for (size_t b = 0; b < sds[0].size() * 8; b += 8) H.run(fmt("vole_hash_%u ell %u seed bits from %zu", lam, ell, b), [&] { for (size_t q = b; q < b + 8; q++) { Bytes s = sds[2], e(sds[0].size(), 0), x = msg(n, 8); s[q / 8] ^= 1 << (q % 8); e[q / 8] = 1 << (q % 8); vcheck(H, li, s, x, ell, "seed bit", q); vcheck(H, li, e, x, ell, "single seed bit", q); H.eval(q + ell * 100000 + 7777 + li); } }); }
      for (unsigned ell = 0; ell < (H.thorough ? 4200u : 1200u); ell += 8) H.run(fmt("vole_hash_%u length %u", lam, ell), [&] { size_t n = (ell + 2 * lam + 16) / 8; Bytes x = msg(n, ell), o(n, 0xff); for (size_t s = 0; s < 5; s++) { vcheck(H, li, sds[s], x, ell, "seed", s); vcheck(H, li, sds[s], o, ell, "all ones, seed", s); } for (int al = 0; al < 8; al++) { Bytes y(n + 8); memcpy(&y[al], x.data(), n); uint8_t h[64]; VH[li](h + al, sds[2].data(), &y[al], ell); CHECK(!memcmp(h + al, voleHash(lam, sds[2].data(), x.data(), ell).data(), lb + 2), "alignment %d", al); } H.eval(ell + 31 * li); }); }
    zk<2>(H); zk<3>(H); zk<4>(H);
  });
}
