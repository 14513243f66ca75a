// Input enumerations shared by the harnesses.
#pragma once
#include "api.hpp"
namespace gen {
using namespace ref;
struct Key { Bytes sk, pk; };
// key k of a set: 0.. deterministic; structured patterns first (skipping invalid ones), then pseudo-random
static inline Key key(const Params& P, unsigned k, uint64_t seed = 1) {
  static const u8 pat[] = {0x00, 0xff, 0x01, 0x80, 0x55, 0xaa, 0x0f, 0xf0}; Key r; r.sk.resize(P.sk); r.pk.resize(P.pk);
  if (k < 8) { // structured input, key with that pattern in as many bytes as validity allows
    Rng g(1000 * k + P.lambda + P.em * 7 + P.sig); memset(&r.sk[0], pat[k], P.insz()); memset(&r.sk[P.insz()], pat[7 - k], P.lb()); unsigned n = 0;
    while (!keyFrom(P, r.sk.data(), r.pk.data())) { g.fill(&r.sk[P.insz() + (n / 64) % P.lb()], 1); n++; if (n > 200) g.fill(&r.sk[P.insz()], P.lb()); }
    return r; }
  Rng g(seed * 7919 + k * 131 + P.sig); validKey(P, g, r.sk, r.pk); return r;
}
// keys with an equality between two aligned words of input||key: (width, first offset, second offset); no public key if such keys are invalid
static inline std::vector<std::array<unsigned, 3>> rels(const Params& P, unsigned minw) { std::vector<std::array<unsigned, 3>> v; for (unsigned w = 16; w >= minw; w /= 2) for (unsigned o = 0; o + w <= P.sk; o += w) for (unsigned q = o + w; q + w <= P.sk; q += w) v.push_back({w, o, q}); return v; }
static inline Key relKey(const Params& P, const std::array<unsigned, 3>& r, u64 seed = 1) { Key k; k.sk.resize(P.sk); k.pk.resize(P.pk); Rng g(seed * 31 + r[0] * 70001 + r[1] * 257 + r[2] + P.sig); unsigned n = 0; do { if (++n > 3000) { k.pk.clear(); break; } g.fill(k.sk.data(), P.sk); std::copy(k.sk.begin() + r[1], k.sk.begin() + r[1] + r[0], k.sk.begin() + r[2]); } while (!keyFrom(P, k.sk.data(), k.pk.data())); return k; }
static inline Bytes msg(size_t n, u64 s) { Rng g(s * 77 + n); return g.bytes(n); }
// interesting IVs: counter carries out of every byte, 32-bit and 64-bit words, and wraps to zero
static inline std::vector<Bytes> ivs() {
  std::vector<Bytes> v; v.push_back(Bytes(16, 0)); v.push_back(Bytes(16, 0xff));
  for (int k = 0; k < 16; k++) for (int lo : {0xff, 0xfe, 0xf1}) { Bytes b(16, 0x5a); for (int i = k; i < 16; i++) b[i] = 0xff; b[15] = lo; v.push_back(b); if (k) { b[k - 1] = 0x7f; v.push_back(b); b[k - 1] = 0; v.push_back(b); } }
  for (int k = 0; k < 16; k++) { Bytes b(16, 0); b[k] = 0x80; v.push_back(b); }
  return v;
}
// third challenges: every tree at position f(i); all-zero, all-one, single bits
static inline Bytes chalAt(const Params& P, const std::function<size_t(unsigned)>& f) { Bytes c(P.lb(), 0); for (unsigned i = 0; i < P.tau; i++) { size_t v = f(i); for (unsigned b = 0; b < P.depth(i); b++) if ((v >> b) & 1) { unsigned p = P.col0(i) + b; c[p / 8] |= 1 << (p % 8); } } return c; }
// values different from a that a weak comparison could take for a: cancelling changes, equal parts, permutations
static inline void diffs(const Bytes& a, const std::function<void(const Bytes&, const std::string&)>& f) {
  size_t n = a.size(); static const u8 dl[] = {0x80, 0xff, 1, 0x5a}; auto add = [&](const Bytes& r, const char* s) { if (r != a) f(r, s); };
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { Bytes r = a; u8 d = dl[(i * 7 + j) % 4]; r[i] ^= d; r[j] ^= d; add(r, "two bytes changed alike"); r = a; r[i]++; r[j]--; add(r, "two bytes changed by +1 and -1"); r = a; std::swap(r[i], r[j]); add(r, "two bytes swapped"); }
  for (size_t k = 0; k < n; k++) { Bytes r = a; for (size_t i = k; i < n; i++) r[i] = ~r[i]; add(r, "equal before a byte only"); r = a; for (size_t i = 0; i <= k; i++) r[i] = ~r[i]; add(r, "equal after a byte only"); r = a; std::rotate(r.begin(), r.begin() + k, r.end()); add(r, "rotated"); r = a; r[k] ^= 1; r[(k + 1) % n] ^= 2; r[(k + 5) % n] ^= 3; add(r, "three cancelling changes"); for (int v = 1; v < 256; v++) { r = a; r[k] ^= v; add(r, "one byte changed"); } }
  for (size_t w : {2, 4, 8, 16}) for (size_t o = 0; o + w <= n; o += w) { Bytes r = a; for (size_t i = 0; i < w; i++) r[o + i] ^= 0x10 << (i & 1); add(r, "word changed"); for (size_t q = o + w; q + w <= n; q += w) { Bytes s = a; std::swap_ranges(s.begin() + o, s.begin() + o + w, s.begin() + q); add(s, "words swapped"); s = r; for (size_t i = 0; i < w; i++) s[q + i] ^= 0x10 << (i & 1); add(s, "two words changed alike"); } }
  for (u8 d : {1, 0x10, 0x55, 0x80, 0xff}) { Bytes r = a; for (auto& x : r) x ^= d; add(r, "every byte changed alike"); }
}
}
