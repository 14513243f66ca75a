// Independent executable reference model of FAEST v1 (keygen, sign, verify and every building
// block), written from the specification.  It shares no code with /repo.  The circuit of the
// one-way function is written once over abstract field-valued bit wires and evaluated in three
// domains (tags, values, keys), so prover and verifier cannot drift apart inside the model.
#pragma once
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#if defined(__AES__) && defined(__PCLMUL__)
#include <immintrin.h>
#define REF_HW 1
#endif

namespace ref {
using u8 = uint8_t; using u64 = uint64_t; using Bytes = std::vector<u8>;

// ---------------------------------------------------------------- parameter sets
struct Params {
  const char* name; bool em; unsigned lambda, Nwd, Ske, R, Senc, l, Lke, Lenc, beta, tau, k0, k1, t0, t1;
  size_t sig, pk, sk; unsigned id;
  unsigned lb() const { return lambda / 8; }
  unsigned ellhat() const { return l + 2 * lambda + 16; }
  unsigned eb() const { return ellhat() / 8; }
  unsigned depth(unsigned i) const { return i < t0 ? k0 : k1; }
  unsigned col0(unsigned i) const { return i < t0 ? i * k0 : t0 * k0 + (i - t0) * k1; }
  size_t off_c(unsigned i) const { return (size_t)i * eb(); }              // i in [0,tau-1)
  size_t off_u() const { return (size_t)(tau - 1) * eb(); }
  size_t off_d() const { return off_u() + lb() + 2; }
  size_t off_a() const { return off_d() + l / 8; }
  size_t off_pdec(unsigned i) const { size_t o = off_a() + lb(); for (unsigned j = 0; j < i; j++) o += (depth(j) + 2) * lb(); return o; }
  size_t off_com(unsigned i) const { return off_pdec(i) + depth(i) * lb(); }
  size_t off_ch3() const { return sig - 16 - lb(); }
  size_t off_iv() const { return sig - 16; }
  unsigned insz() const { return pk / 2; }
};
static const Params ALL[12] = {
  //name       em   lam Nwd Ske R  Senc l     Lke  Lenc  b  tau k0  k1  t0  t1  sig    pk  sk  id
  {"128s",    false,128,4,40,10,160,1600,448,1152,1,11,12,11, 7, 4, 5006,32,32, 1},
  {"128f",    false,128,4,40,10,160,1600,448,1152,1,16, 8, 8, 0,16, 6336,32,32, 2},
  {"192s",    false,192,6,32,12,192,3264,448,1408,2,16,12,12, 0,16,12744,64,56, 3},
  {"192f",    false,192,6,32,12,192,3264,448,1408,2,24, 8, 8, 0,24,16792,64,56, 4},
  {"256s",    false,256,8,52,14,224,4000,672,1664,2,22,12,11,14, 8,22100,64,64, 5},
  {"256f",    false,256,8,52,14,224,4000,672,1664,2,32, 8, 8, 0,32,28400,64,64, 6},
  {"em_128s", true, 128,4, 0,10,160,1280,  0,1280,1,11,12,11, 7, 4, 4566,32,32, 7},
  {"em_128f", true, 128,4, 0,10,160,1280,  0,1280,1,16, 8, 8, 0,16, 5696,32,32, 8},
  {"em_192s", true, 192,6, 0,12,288,2304,  0,2304,1,16,12,12, 0,16,10824,48,48, 9},
  {"em_192f", true, 192,6, 0,12,288,2304,  0,2304,1,24, 8, 8, 0,24,13912,48,48,10},
  {"em_256s", true, 256,8, 0,14,448,3584,  0,3584,1,22,12,11,14, 8,20956,64,64,11},
  {"em_256f", true, 256,8, 0,14,448,3584,  0,3584,1,32, 8, 8, 0,32,26736,64,64,12},
};
static inline const Params& byName(const std::string& n) { for (auto& p : ALL) if (n == p.name) return p; fprintf(stderr, "no param %s\n", n.c_str()); abort(); }

// ---------------------------------------------------------------- Keccak
static inline u64 rol(u64 x, unsigned n) { return n ? (x << n) | (x >> ((64 - n) & 63)) : x; }
struct KeccakTab { u64 RC[24]; unsigned rot[25], dst[25];
  constexpr KeccakTab() : RC{}, rot{}, dst{} {
    u8 r = 1; // LFSR for the round constants
    for (int i = 0; i < 24; i++) { RC[i] = 0;
      for (int j = 0; j < 7; j++) { if (r & 1) RC[i] ^= u64(1) << ((1 << j) - 1); r = (u8)((r << 1) ^ ((r >> 7) ? 0x71 : 0)); } }
    unsigned x = 1, y = 0; rot[0] = 0;
    for (unsigned t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; unsigned nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    for (unsigned X = 0; X < 5; X++) for (unsigned Y = 0; Y < 5; Y++) dst[X + 5 * Y] = Y + 5 * ((2 * X + 3 * Y) % 5);
  } };
static constexpr KeccakTab KT;
static inline void keccakf(u64 s[25]) {
  for (int rd = 0; rd < 24; rd++) {
    u64 c[5], b[25];
    _Pragma("GCC unroll 5") for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
    u64 d[5];
    _Pragma("GCC unroll 5") for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
    _Pragma("GCC unroll 25") for (int i = 0; i < 25; i++) b[KT.dst[i]] = rol(s[i] ^ d[i % 5], KT.rot[i]);
    _Pragma("GCC unroll 5") for (int y = 0; y < 25; y += 5) { _Pragma("GCC unroll 5") for (int x = 0; x < 5; x++) s[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]); }
    s[0] ^= KT.RC[rd];
  }
}
struct Shake { // SHAKE128 (rate 168) for lambda 128, SHAKE256 (rate 136) otherwise
  u64 s[25]; unsigned rate, pos; bool sq;
  explicit Shake(unsigned bits) : rate(bits == 128 ? 168 : 136), pos(0), sq(false) { memset(s, 0, sizeof s); }
  void xb(unsigned i, u8 v) { s[i / 8] ^= u64(v) << (8 * (i % 8)); }
  Shake& add(const u8* p, size_t n) {
    while (n && pos % 8) { xb(pos++, *p++); n--; if (pos == rate) { keccakf(s); pos = 0; } }
    while (n >= 8) { u64 v; memcpy(&v, p, 8); s[pos / 8] ^= v; pos += 8; p += 8; n -= 8; if (pos == rate) { keccakf(s); pos = 0; } }
    while (n) { xb(pos++, *p++); n--; if (pos == rate) { keccakf(s); pos = 0; } }
    return *this; }
  Shake& add(const Bytes& b) { return add(b.data(), b.size()); }
  Shake& add(u8 v) { return add(&v, 1); }
  void fin() { xb(pos, 0x1f); xb(rate - 1, 0x80); keccakf(s); pos = 0; sq = true; }
  void get(u8* o, size_t n) { if (!sq) fin(); while (n--) { if (pos == rate) { keccakf(s); pos = 0; } *o++ = (u8)(s[pos / 8] >> (8 * (pos % 8))); pos++; } }
  Bytes get(size_t n) { Bytes o(n); get(o.data(), n); return o; }
};
static inline Shake H(unsigned lambda) { return Shake(lambda == 128 ? 128 : 256); }

// ---------------------------------------------------------------- GF(2^8), AES / Rijndael
static inline u8 xt(u8 a) { return (u8)((a << 1) ^ ((a >> 7) * 0x1b)); }
static inline u8 m8(u8 a, u8 b) { u8 r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
struct Tables { u8 inv[256], sbox[256];
  Tables() { inv[0] = 0; for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) if (m8(a, b) == 1) inv[a] = b;
    for (int a = 0; a < 256; a++) { u8 x = inv[a], y = 0; for (int i = 0; i < 8; i++) { u8 v = (x >> i) ^ (x >> ((i + 4) % 8)) ^ (x >> ((i + 5) % 8)) ^ (x >> ((i + 6) % 8)) ^ (x >> ((i + 7) % 8)); y |= (v & 1) << i; } sbox[a] = y ^ 0x63; } } };
static inline const Tables& T() { static const Tables t; return t; }

struct KS { unsigned Nk, Nb, R; std::vector<std::array<u8, 4>> w; unsigned zeros = 0; std::vector<unsigned> sboxed; };
static std::vector<unsigned>* zeroTrace = nullptr; // optional: indices of the zero S-box inputs, in evaluation order
static unsigned zeroIdx = 0;
static inline KS expand(const u8* key, unsigned Nk, unsigned Nb, unsigned R) {
  KS k; k.Nk = Nk; k.Nb = Nb; k.R = R; k.w.resize(Nb * (R + 1)); u8 rc = 1;
  for (unsigned i = 0; i < Nk; i++) for (int b = 0; b < 4; b++) k.w[i][b] = key[4 * i + b];
  for (unsigned i = Nk; i < Nb * (R + 1); i++) {
    auto t = k.w[i - 1]; bool sb = false;
    if (i % Nk == 0) { t = {t[1], t[2], t[3], t[0]}; sb = true; } else if (Nk > 6 && i % Nk == 4) sb = true;
    if (sb) { k.sboxed.push_back(i); for (auto& x : t) { if (!x) { k.zeros++; if (zeroTrace) zeroTrace->push_back(zeroIdx); } zeroIdx++; x = T().sbox[x]; } }
    if (i % Nk == 0) { t[0] ^= rc; rc = xt(rc); }
    for (int b = 0; b < 4; b++) k.w[i][b] = k.w[i - Nk][b] ^ t[b];
  }
  return k;
}
static inline unsigned shiftOff(unsigned Nb, unsigned r) { static const unsigned a[4] = {0, 1, 2, 3}, b[4] = {0, 1, 3, 4}; return Nb == 8 ? b[r] : a[r]; }
// encrypt; records the number of zero S-box inputs and (optionally) the states after ShiftRows of rounds 1..R-1
static inline Bytes encrypt(const KS& k, const u8* in, unsigned* zeros = nullptr, Bytes* states = nullptr) {
  unsigned Nb = k.Nb; Bytes s(in, in + 4 * Nb), t(4 * Nb);
  auto ark = [&](unsigned r) { for (unsigned i = 0; i < 4 * Nb; i++) s[i] ^= k.w[r * Nb + i / 4][i % 4]; };
  ark(0);
  for (unsigned r = 1; r <= k.R; r++) {
    for (auto& x : s) { if (!x && zeros) { ++*zeros; if (zeroTrace) zeroTrace->push_back(zeroIdx); } zeroIdx++; x = T().sbox[x]; }
    for (unsigned c = 0; c < Nb; c++) for (unsigned q = 0; q < 4; q++) t[4 * c + q] = s[4 * ((c + shiftOff(Nb, q)) % Nb) + q];
    s = t;
    if (r < k.R) {
      if (states) states->insert(states->end(), s.begin(), s.end());
      for (unsigned c = 0; c < Nb; c++) { u8* p = &s[4 * c]; u8 a = p[0], b = p[1], d = p[2], e = p[3];
        p[0] = xt(a) ^ xt(b) ^ b ^ d ^ e; p[1] = a ^ xt(b) ^ xt(d) ^ d ^ e; p[2] = a ^ b ^ xt(d) ^ xt(e) ^ e; p[3] = xt(a) ^ a ^ b ^ d ^ xt(e); }
    }
    ark(r);
  }
  return s;
}
static inline void ctrInc(u8 iv[16]) { for (int i = 15; i >= 0; i--) if (++iv[i]) break; }
static inline void prgSoft(const u8* key, const u8* iv, unsigned lambda, u8* out, size_t n) {
  KS k = expand(key, lambda / 32, 4, lambda / 32 + 6); u8 ctr[16]; memcpy(ctr, iv, 16);
  for (size_t o = 0; o < n; o += 16) { Bytes b = encrypt(k, ctr); memcpy(out + o, b.data(), n - o < 16 ? n - o : 16); ctrInc(ctr); }
}
#ifdef REF_HW
static inline void prg(const u8* key, const u8* iv, unsigned lambda, u8* out, size_t n) {
  static const bool forceSoft = getenv("REF_SOFT") != nullptr;
  if (forceSoft) { prgSoft(key, iv, lambda, out, n); return; }
  unsigned Nk = lambda / 32, R = Nk + 6; alignas(16) u8 w[4 * 60];
  memcpy(w, key, 4 * Nk); u8 rc = 1; const Tables& t = T();
  for (unsigned i = Nk; i < 4 * (R + 1); i++) {
    u8 x[4]; memcpy(x, w + 4 * (i - 1), 4);
    if (i % Nk == 0) { u8 q = x[0]; x[0] = t.sbox[x[1]] ^ rc; x[1] = t.sbox[x[2]]; x[2] = t.sbox[x[3]]; x[3] = t.sbox[q]; rc = xt(rc); }
    else if (Nk > 6 && i % Nk == 4) for (auto& v : x) v = t.sbox[v];
    for (int b = 0; b < 4; b++) w[4 * i + b] = w[4 * (i - Nk) + b] ^ x[b];
  }
  u8 ctr[16]; memcpy(ctr, iv, 16); const __m128i* rk = (const __m128i*)w;
  for (size_t o = 0; o < n; o += 16) {
    __m128i s = _mm_xor_si128(_mm_loadu_si128((const __m128i*)ctr), rk[0]);
    for (unsigned r = 1; r < R; r++) s = _mm_aesenc_si128(s, rk[r]);
    s = _mm_aesenclast_si128(s, rk[R]);
    if (n - o >= 16) _mm_storeu_si128((__m128i*)(out + o), s); else { u8 tmp[16]; _mm_storeu_si128((__m128i*)tmp, s); memcpy(out + o, tmp, n - o); }
    ctrInc(ctr);
  }
}
#else
static inline void prg(const u8* key, const u8* iv, unsigned lambda, u8* out, size_t n) { prgSoft(key, iv, lambda, out, n); }
#endif

// ---------------------------------------------------------------- OWF
static inline unsigned owf(const Params& P, const u8* key, const u8* in, u8* out) { // returns # zero S-box inputs
  unsigned z = 0;
  if (!P.em) {
    KS k = expand(key, P.Nwd, 4, P.R); z = k.zeros;
    for (unsigned b = 0; b < P.beta; b++) { Bytes c = encrypt(k, in + 16 * b, &z); memcpy(out + 16 * b, c.data(), 16); }
  } else {
    KS k = expand(in, P.Nwd, P.Nwd, P.R); Bytes c = encrypt(k, key, &z);
    for (unsigned i = 0; i < P.lb(); i++) out[i] = c[i] ^ key[i];
  }
  return z;
}
static inline Bytes witness(const Params& P, const u8* key, const u8* in) {
  Bytes w;
  if (!P.em) {
    KS k = expand(key, P.Nwd, 4, P.R); w.assign(key, key + P.lb());
    unsigned used = 0;
    for (unsigned i : k.sboxed) { if (used == P.Ske / 4) break; w.insert(w.end(), k.w[i].begin(), k.w[i].end()); used++; }
    for (unsigned b = 0; b < P.beta; b++) encrypt(k, in + 16 * b, nullptr, &w);
  } else { KS k = expand(in, P.Nwd, P.Nwd, P.R); w.assign(key, key + P.lb()); encrypt(k, key, nullptr, &w); }
  return w;
}

// ---------------------------------------------------------------- binary fields
static inline void clmul64(u64 a, u64 b, u64& lo, u64& hi) {
#ifdef REF_HW
  __m128i r = _mm_clmulepi64_si128(_mm_set_epi64x(0, (long long)a), _mm_set_epi64x(0, (long long)b), 0);
  lo = (u64)_mm_cvtsi128_si64(r); hi = (u64)_mm_extract_epi64(r, 1);
#else
  lo = hi = 0; for (int i = 0; i < 64; i++) if ((b >> i) & 1) { lo ^= a << i; if (i) hi ^= a >> (64 - i); }
#endif
}
static inline void clmul64_slow(u64 a, u64 b, u64& lo, u64& hi) { lo = hi = 0; for (int i = 0; i < 64; i++) if ((b >> i) & 1) { lo ^= a << i; if (i) hi ^= a >> (64 - i); } }
template <int N> struct F { // GF(2^(64N)), N = 1..4
  u64 w[N];
  static constexpr u64 mod() { return N == 1 ? 0x1b : N == 4 ? 0x425 : 0x87; }
  F() { memset(w, 0, sizeof w); }
  static F one() { F r; r.w[0] = 1; return r; }
  static F load(const u8* p) { F r; memcpy(r.w, p, 8 * N); return r; }
  void store(u8* p) const { memcpy(p, w, 8 * N); }
  F operator^(const F& o) const { F r; for (int i = 0; i < N; i++) r.w[i] = w[i] ^ o.w[i]; return r; }
  F& operator^=(const F& o) { for (int i = 0; i < N; i++) w[i] ^= o.w[i]; return *this; }
  bool operator==(const F& o) const { return !memcmp(w, o.w, sizeof w); }
  bool operator!=(const F& o) const { return !(*this == o); }
  static F reduce(u64* t) { // t has 2N limbs
    for (int i = 2 * N - 1; i >= N; i--) { u64 lo, hi; clmul64(t[i], mod(), lo, hi); t[i] = 0; t[i - N] ^= lo; t[i - N + 1] ^= hi; }
    if (N == 1) { u64 lo, hi; clmul64(t[1], mod(), lo, hi); t[0] ^= lo; }
    F r; memcpy(r.w, t, 8 * N); return r; }
  F operator*(const F& o) const { u64 t[2 * N + 1] = {0};
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { u64 lo, hi; clmul64(w[i], o.w[j], lo, hi); t[i + j] ^= lo; t[i + j + 1] ^= hi; }
    return reduce(t); }
  F mul64(u64 b) const { u64 t[2 * N + 1] = {0}; for (int i = 0; i < N; i++) { u64 lo, hi; clmul64(w[i], b, lo, hi); t[i] ^= lo; t[i + 1] ^= hi; } return reduce(t); }
  F dbl() const { F x; x.w[0] = 2; return *this * x; }
  F mulSlow(const F& o) const { // bit-serial, used to cross-check the fast path
    F r, a = *this; for (int i = 0; i < 64 * N; i++) { if ((o.w[i / 64] >> (i % 64)) & 1) r ^= a; u64 c = a.w[N - 1] >> 63; for (int k = N - 1; k > 0; k--) a.w[k] = (a.w[k] << 1) | (a.w[k - 1] >> 63); a.w[0] = (a.w[0] << 1) ^ (c ? mod() : 0); } return r; }
  void setbit(unsigned i) { w[i / 64] |= u64(1) << (i % 64); }
};
// image of the AES field generator x (root of x^8+x^4+x^3+x+1) fixed by the specification
template <int N> static inline F<N> alpha() {
  static const u8 a2[16] = {0x0d,0xce,0x60,0x55,0xac,0xe8,0x3f,0xa1,0x1c,0x9a,0x97,0xa9,0x55,0x85,0x3d,0x05};
  static const u8 a3[24] = {0x63,0x97,0x38,0x6f,0xd5,0xa3,0xc8,0xcc,0xea,0xbd,0x6e,0x96,0x6c,0xd7,0x65,0xe6,0x62,0x36,0x6b,0x0e,0x14,0xc8,0x0b,0x31};
  static const u8 a4[32] = {0xe7,0xfe,0xde,0x0b,0x42,0x88,0x97,0x96,0x67,0x4e,0x47,0xa0,0x38,0x8d,0xd6,0xbe,0x6a,0xe1,0xf1,0xf8,0x45,0x98,0x22,0xdf,0x33,0x58,0xc9,0x20,0xcf,0xa8,0xc9,0x04};
  return F<N>::load(N == 2 ? a2 : N == 3 ? a3 : a4);
}
template <int N> struct Alpha { F<N> p[8]; Alpha() { p[0] = F<N>::one(); for (int i = 1; i < 8; i++) p[i] = p[i - 1] * alpha<N>(); } };
template <int N> static inline const Alpha<N>& A() { static const Alpha<N> a; return a; }
template <int N> static inline F<N> embed(u8 x) { F<N> r; for (int i = 0; i < 8; i++) if ((x >> i) & 1) r ^= A<N>().p[i]; return r; }
template <int N> static inline F<N> combine(const F<N>* b) { F<N> r = b[0]; for (int i = 1; i < 8; i++) r ^= b[i] * A<N>().p[i]; return r; }
template <int N> static inline F<N> sumPoly(const F<N>* b) { F<N> r; for (int i = 64 * N - 1; i >= 0; i--) { r = r.dbl(); r ^= b[i]; } return r; }

// ---------------------------------------------------------------- universal hashes
template <int N> static Bytes voleHashT(const u8* sd, const u8* x, unsigned ell) {
  const unsigned lb = 8 * N, lam = 64 * N; F<N> r0 = F<N>::load(sd), r1 = F<N>::load(sd + lb), r2 = F<N>::load(sd + 2 * lb), r3 = F<N>::load(sd + 3 * lb), s = F<N>::load(sd + 4 * lb);
  F<1> t = F<1>::load(sd + 5 * lb);
  size_t n = (ell + lam) / 8; Bytes p(x, x + n); while (p.size() % lb) p.push_back(0);
  F<N> h0; for (size_t i = 0; i < p.size(); i += lb) h0 = (h0 * s) ^ F<N>::load(&p[i]);
  F<1> h1; for (size_t i = 0; i < p.size(); i += 8) h1 = (h1 * t) ^ F<1>::load(&p[i]);
  F<N> h2 = (r0 * h0) ^ r1.mul64(h1.w[0]), h3 = (r2 * h0) ^ r3.mul64(h1.w[0]);
  Bytes o(lb + 2), q(lb); h2.store(o.data()); h3.store(q.data()); o[lb] = q[0]; o[lb + 1] = q[1];
  for (unsigned i = 0; i < lb + 2; i++) o[i] ^= x[n + i];
  return o;
}
static inline Bytes voleHash(unsigned lambda, const u8* sd, const u8* x, unsigned ell) { return lambda == 128 ? voleHashT<2>(sd, x, ell) : lambda == 192 ? voleHashT<3>(sd, x, ell) : voleHashT<4>(sd, x, ell); }
template <int N> static F<N> zkHash(const u8* sd, const std::vector<F<N>>& v, const F<N>& x1) {
  const unsigned lb = 8 * N; F<N> r0 = F<N>::load(sd), r1 = F<N>::load(sd + lb), s = F<N>::load(sd + 2 * lb); u64 t; memcpy(&t, sd + 3 * lb, 8);
  F<N> h0, h1; for (auto& e : v) { h0 = (h0 * s) ^ e; h1 = h1.mul64(t) ^ e; }
  return (r0 * h0) ^ (r1 * h1) ^ x1;
}

// ---------------------------------------------------------------- OWF circuit over field-valued wires
template <int N> struct Con { std::vector<F<N>> x, y; }; // S-box j satisfied <=> x_j * y_j == one^2
template <int N> static Con<N> circuit(const Params& P, const std::vector<F<N>>& w, const F<N>& one, const u8* in, const u8* out) {
  using E = F<N>; Con<N> C; const E f2 = embed<N>(2), f3 = embed<N>(3);
  auto cbit = [&](bool b) { return b ? one : E(); };
  auto cbyte = [&](u8 v) { std::array<E, 8> r; for (int i = 0; i < 8; i++) r[i] = cbit((v >> i) & 1); return r; };
  auto wbyte = [&](size_t bit) { std::array<E, 8> r; for (int i = 0; i < 8; i++) r[i] = w[bit + i]; return r; };
  auto x8 = [&](std::array<E, 8> a, const std::array<E, 8>& b) { for (int i = 0; i < 8; i++) a[i] ^= b[i]; return a; };
  auto comb = [&](const std::array<E, 8>& a) { return combine<N>(a.data()); };
  auto invaff = [&](const std::array<E, 8>& s) { std::array<E, 8> y; for (int i = 0; i < 8; i++) y[i] = s[(i + 7) % 8] ^ s[(i + 5) % 8] ^ s[(i + 2) % 8]; y[0] ^= one; y[2] ^= one; return y; };
  using B8 = std::array<E, 8>;
  const unsigned Nb = P.em ? P.Nwd : 4;
  std::vector<B8> rk(4 * Nb * (P.R + 1)); // round key bytes
  size_t encBase;
  if (!P.em) {
    for (unsigned i = 0; i < 4 * P.Nwd; i++) rk[i] = wbyte(8 * i);
    size_t pos = P.lambda; u8 rc = 1; unsigned done = 0;
    for (unsigned j = P.Nwd; j < 4 * (P.R + 1); j++) {
      bool full = j % P.Nwd == 0, half = P.Nwd > 6 && j % P.Nwd == 4;
      if (full || half) {
        for (unsigned b = 0; b < 4; b++) rk[4 * j + b] = wbyte(pos + 8 * b);
        pos += 32;
        for (unsigned b = 0; b < 4; b++) {
          B8 sx = full ? rk[4 * (j - 1) + (b + 1) % 4] : rk[4 * (j - 1) + b];
          B8 sy = x8(rk[4 * j + b], rk[4 * (j - P.Nwd) + b]);
          if (full && b == 0) sy = x8(sy, cbyte(rc));
          C.x.push_back(comb(sx)); C.y.push_back(comb(invaff(sy)));
        }
        done += 4; if (full) rc = xt(rc);
      } else for (unsigned b = 0; b < 4; b++) rk[4 * j + b] = x8(rk[4 * (j - P.Nwd) + b], rk[4 * (j - 1) + b]);
    }
    assert(done == P.Ske); encBase = P.Lke;
  } else {
    KS k = expand(in, P.Nwd, P.Nwd, P.R);
    for (unsigned i = 0; i < rk.size(); i++) rk[i] = cbyte(k.w[i / 4][i % 4]);
    encBase = 0;
  }
  std::vector<E> rkc(rk.size()); for (size_t i = 0; i < rk.size(); i++) rkc[i] = comb(rk[i]);
  for (unsigned blk = 0; blk < P.beta; blk++) {
    const size_t base = encBase + (size_t)blk * P.Lenc; // AES: states start here. EM: key first, then states.
    const size_t st = P.em ? base + P.lambda : base;
    std::vector<E> cur(4 * Nb);
    for (unsigned i = 0; i < 4 * Nb; i++) cur[i] = comb(P.em ? wbyte(base + 8 * i) : cbyte(in[16 * blk + i])) ^ rkc[i];
    for (unsigned r = 0; r < P.R; r++) {
      for (unsigned c = 0; c < Nb; c++) for (unsigned q = 0; q < 4; q++) {
        unsigned dc = (c + Nb - shiftOff(Nb, q)) % Nb; // where ShiftRows moves byte (c,q)
        B8 sy;
        if (r + 1 < P.R) sy = wbyte(st + 8 * ((size_t)4 * Nb * r + 4 * dc + q));
        else { sy = x8(cbyte(out[16 * (P.em ? 0 : blk) + 4 * dc + q]), rk[4 * Nb * P.R + 4 * dc + q]); if (P.em) sy = x8(sy, wbyte(base + 8 * (4 * dc + q))); }
        C.x.push_back(cur[4 * c + q]); C.y.push_back(comb(invaff(sy)));
      }
      if (r + 1 < P.R) {
        std::vector<E> nx(4 * Nb);
        for (unsigned c = 0; c < Nb; c++) { E z[4]; for (unsigned q = 0; q < 4; q++) z[q] = comb(wbyte(st + 8 * ((size_t)4 * Nb * r + 4 * c + q)));
          for (unsigned q = 0; q < 4; q++) nx[4 * c + q] = (z[q] * f2) ^ (z[(q + 1) % 4] * f3) ^ z[(q + 2) % 4] ^ z[(q + 3) % 4] ^ rkc[4 * Nb * (r + 1) + 4 * c + q]; }
        cur = nx;
      }
    }
  }
  return C;
}
template <int N> static std::vector<F<N>> rowsOf(const Params& P, const std::vector<Bytes>& cols) { // rows 0..l+lambda-1
  std::vector<F<N>> r(P.l + P.lambda);
  for (unsigned c = 0; c < P.lambda; c++) for (unsigned i = 0; i < P.l + P.lambda; i++) if ((cols[c][i / 8] >> (i % 8)) & 1) r[i].setbit(c);
  return r;
}
template <int N> static void proveT(const Params& P, const Bytes& w, const Bytes& u, const std::vector<Bytes>& V, const u8* in, const u8* out, const u8* chall2, Bytes& a, Bytes& b, std::vector<int>* unsat) {
  using E = F<N>; auto rows = rowsOf<N>(P, V); std::vector<E> vw(rows.begin(), rows.begin() + P.l), bw(P.l);
  for (unsigned i = 0; i < P.l; i++) if ((w[i / 8] >> (i % 8)) & 1) bw[i] = E::one();
  Con<N> cv = circuit<N>(P, vw, E(), in, out), cs = circuit<N>(P, bw, E::one(), in, out);
  std::vector<E> a0, a1;
  for (size_t j = 0; j < cv.x.size(); j++) { E s = cs.x[j], sp = cs.y[j];
    if (s * sp != E::one() && unsat) unsat->push_back((int)j);
    E t = cv.x[j] * cv.y[j]; a0.push_back(t); a1.push_back(((s ^ cv.x[j]) * (sp ^ cv.y[j])) ^ E::one() ^ t); }
  E us = E::load(&u[P.l / 8]); E vs = sumPoly<N>(&rows[P.l]);
  a.resize(P.lb()); b.resize(P.lb()); zkHash<N>(chall2, a1, us).store(a.data()); zkHash<N>(chall2, a0, vs).store(b.data());
}
template <int N> static Bytes checkT(const Params& P, const u8* d, std::vector<Bytes> Q, const u8* in, const u8* out, const u8* chall2, const u8* delta, const u8* a) {
  using E = F<N>; E D = E::load(delta);
  for (unsigned c = 0; c < P.lambda; c++) if ((delta[c / 8] >> (c % 8)) & 1) for (unsigned i = 0; i < P.l / 8; i++) Q[c][i] ^= d[i];
  auto rows = rowsOf<N>(P, Q); std::vector<E> qw(rows.begin(), rows.begin() + P.l);
  Con<N> c = circuit<N>(P, qw, D, in, out); std::vector<E> b; E D2 = D * D;
  for (size_t j = 0; j < c.x.size(); j++) b.push_back((c.x[j] * c.y[j]) ^ D2);
  E q = zkHash<N>(chall2, b, sumPoly<N>(&rows[P.l])) ^ (E::load(a) * D);
  Bytes o(P.lb()); q.store(o.data()); return o;
}

// ---------------------------------------------------------------- vector commitments and VOLE
struct VC { unsigned depth, lb; Bytes k, sd, com, h; const u8* node(size_t i) const { return &k[i * lb]; } };
static inline VC vcCommit(unsigned lambda, const u8* root, const u8* iv, unsigned depth) {
  VC v; v.depth = depth; v.lb = lambda / 8; unsigned lb = v.lb; size_t n = size_t(1) << depth; v.k.resize((2 * n - 1) * lb); v.sd.resize(n * lb); v.com.resize(2 * n * lb);
  memcpy(v.k.data(), root, lb);
  for (size_t i = 0; i < n - 1; i++) prg(&v.k[i * lb], iv, lambda, &v.k[(2 * i + 1) * lb], 2 * lb);
  Shake hh = H(lambda);
  for (size_t i = 0; i < n; i++) { Shake s = H(lambda); s.add(&v.k[(n - 1 + i) * lb], lb).add(iv, 16).add((u8)0); s.get(&v.sd[i * lb], lb); s.get(&v.com[2 * i * lb], 2 * lb); hh.add(&v.com[2 * i * lb], 2 * lb); }
  hh.add((u8)1); v.h = hh.get(2 * lb); return v;
}
// opening for leaf j: sibling of the path node at every level, root-side first
static inline Bytes vcOpen(const VC& v, size_t j) { Bytes o; for (unsigned d = 1; d <= v.depth; d++) { size_t p = j >> (v.depth - d); size_t sib = (size_t(1) << d) - 1 + (p ^ 1); o.insert(o.end(), v.node(sib), v.node(sib) + v.lb); } return o; }
struct Rec { Bytes sd, com, h; };
static inline Rec vcReconstruct(unsigned lambda, const u8* iv, unsigned depth, size_t j, const u8* pdec, const u8* comj) {
  unsigned lb = lambda / 8; size_t n = size_t(1) << depth; Bytes k((2 * n - 1) * lb); Rec r; r.sd.assign(n * lb, 0); r.com.resize(2 * n * lb);
  for (unsigned d = 1; d <= depth; d++) {
    size_t path = j >> (depth - d);
    for (size_t i = 0; i < (size_t(1) << (d - 1)); i++) if (i != (path >> 1)) prg(&k[((size_t(1) << (d - 1)) - 1 + i) * lb], iv, lambda, &k[((size_t(1) << d) - 1 + 2 * i) * lb], 2 * lb);
    memcpy(&k[((size_t(1) << d) - 1 + (path ^ 1)) * lb], pdec + (d - 1) * lb, lb);
  }
  Shake hh = H(lambda);
  for (size_t i = 0; i < n; i++) {
    if (i == j) memcpy(&r.com[2 * i * lb], comj, 2 * lb);
    else { Shake s = H(lambda); s.add(&k[(n - 1 + i) * lb], lb).add(iv, 16).add((u8)0); s.get(&r.sd[i * lb], lb); s.get(&r.com[2 * i * lb], 2 * lb); }
    hh.add(&r.com[2 * i * lb], 2 * lb);
  }
  hh.add((u8)1); r.h = hh.get(2 * lb); return r;
}
// columns v_0..v_{depth-1}: v_b = XOR over x with bit b set of r_x ; u = XOR of all r_x (definition of the VOLE conversion)
static inline void xorTo(u8* a, const u8* b, size_t n) { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 x, y; memcpy(&x, a + i, 8); memcpy(&y, b + i, 8); x ^= y; memcpy(a + i, &x, 8); } for (; i < n; i++) a[i] ^= b[i]; }
static inline void convert(unsigned lambda, const u8* iv, const u8* sd, bool bot, unsigned depth, size_t outb, Bytes* u, std::vector<Bytes>& cols) {
  cols.assign(depth, Bytes(outb, 0)); Bytes acc(outb, 0), r(outb); size_t n = size_t(1) << depth;
  for (size_t x = bot ? 1 : 0; x < n; x++) { prg(sd + x * (lambda / 8), iv, lambda, r.data(), outb); xorTo(acc.data(), r.data(), outb);
    for (unsigned b = 0; b < depth; b++) if ((x >> b) & 1) xorTo(cols[b].data(), r.data(), outb); }
  if (u) *u = acc;
}
static inline size_t chalIdx(const Params& P, const u8* ch3, unsigned i) { size_t v = 0; for (unsigned b = 0; b < P.depth(i); b++) { unsigned p = P.col0(i) + b; v |= (size_t)((ch3[p / 8] >> (p % 8)) & 1) << b; } return v; }

// ---------------------------------------------------------------- sign / verify
// tap(stage, bytes) may observe or replace intermediate values; the default is the honest algorithm.
// Stages: mu rootkey iv keys com<i> hcom c u chall1 utilde hv w d chall2 a b chall3 pdec<i>
using Tap = std::function<void(const char*, unsigned, Bytes&)>;
static inline Bytes hashMu(const Params& P, const u8* pk, const u8* msg, size_t mlen) { Shake s = H(P.lambda); s.add(pk, P.pk).add(msg, mlen).add((u8)1); return s.get(2 * P.lb()); }
static inline void hashRoot(const Params& P, const u8* key, const Bytes& mu, const u8* rho, size_t rholen, Bytes& root, Bytes& iv) { Shake s = H(P.lambda); s.add(key, P.lb()).add(mu); if (rholen) s.add(rho, rholen); s.add((u8)3); root = s.get(P.lb()); iv = s.get(16); }
static inline Bytes pkOf(const Params& P, const u8* sk) { Bytes pk(P.pk); memcpy(pk.data(), sk, P.insz()); owf(P, sk + P.insz(), sk, pk.data() + P.insz()); return pk; }

struct SignInfo { std::vector<int> unsat; };
static inline Bytes signCore(const Params& P, const u8* pk, const u8* key, const u8* msg, size_t mlen, const u8* rho, size_t rholen, const Tap& tap = nullptr, SignInfo* info = nullptr) {
  const unsigned lb = P.lb(); const unsigned eb = P.eb(); auto T_ = [&](const char* s, unsigned i, Bytes& b) { if (tap) tap(s, i, b); };
  const u8* in = pk; const u8* out = pk + P.insz();
  Bytes mu = hashMu(P, pk, msg, mlen); T_("mu", 0, mu);
  Bytes root, iv; hashRoot(P, key, mu, rho, rholen, root, iv); T_("rootkey", 0, root); T_("iv", 0, iv);
  Bytes keys(P.tau * lb); prg(root.data(), iv.data(), P.lambda, keys.data(), keys.size()); T_("keys", 0, keys);
  std::vector<VC> vcs; std::vector<Bytes> V, us(P.tau); Shake hc = H(P.lambda);
  for (unsigned i = 0; i < P.tau; i++) {
    vcs.push_back(vcCommit(P.lambda, &keys[i * lb], iv.data(), P.depth(i))); T_("vch", i, vcs[i].h); hc.add(vcs[i].h);
    std::vector<Bytes> cols; convert(P.lambda, iv.data(), vcs[i].sd.data(), false, P.depth(i), eb, &us[i], cols); for (auto& c : cols) V.push_back(c);
  }
  hc.add((u8)1); Bytes hcom = hc.get(2 * lb); T_("hcom", 0, hcom);
  Bytes u = us[0], c; for (unsigned i = 1; i < P.tau; i++) for (unsigned j = 0; j < eb; j++) c.push_back(u[j] ^ us[i][j]);
  T_("u", 0, u); T_("c", 0, c);
  Shake h1 = H(P.lambda); h1.add(mu).add(hcom).add(c).add(iv).add((u8)2); Bytes ch1 = h1.get(5 * lb + 8); T_("chall1", 0, ch1);
  Bytes ut = voleHash(P.lambda, ch1.data(), u.data(), P.l); T_("utilde", 0, ut);
  Shake hvv = H(P.lambda); for (unsigned i = 0; i < P.lambda; i++) hvv.add(voleHash(P.lambda, ch1.data(), V[i].data(), P.l)); hvv.add((u8)1); Bytes hv = hvv.get(2 * lb); T_("hv", 0, hv);
  Bytes w = witness(P, key, in); T_("w", 0, w);
  Bytes d(P.l / 8); for (unsigned i = 0; i < d.size(); i++) d[i] = w[i] ^ u[i]; T_("d", 0, d);
  Shake h2 = H(P.lambda); h2.add(ch1).add(ut).add(hv).add(d).add((u8)2); Bytes ch2 = h2.get(3 * lb + 8); T_("chall2", 0, ch2);
  Bytes a, b; std::vector<int>* us_ = info ? &info->unsat : nullptr;
  if (P.lambda == 128) proveT<2>(P, w, u, V, in, out, ch2.data(), a, b, us_); else if (P.lambda == 192) proveT<3>(P, w, u, V, in, out, ch2.data(), a, b, us_); else proveT<4>(P, w, u, V, in, out, ch2.data(), a, b, us_);
  T_("a", 0, a); T_("b", 0, b);
  Shake h3 = H(P.lambda); h3.add(ch2).add(a).add(b).add((u8)2); Bytes ch3 = h3.get(lb); T_("chall3", 0, ch3);
  Bytes sig; auto put = [&](const Bytes& x) { sig.insert(sig.end(), x.begin(), x.end()); };
  put(c); put(ut); put(d); put(a);
  for (unsigned i = 0; i < P.tau; i++) { size_t j = chalIdx(P, ch3.data(), i); Bytes pd = vcOpen(vcs[i], j); T_("pdec", i, pd); put(pd); Bytes cj(&vcs[i].com[2 * j * lb], &vcs[i].com[2 * j * lb] + 2 * lb); T_("comj", i, cj); put(cj); }
  put(ch3); put(iv); assert(sig.size() == P.sig); return sig;
}
static inline Bytes sign(const Params& P, const u8* sk, const u8* msg, size_t mlen, const u8* rho, size_t rholen, const Tap& tap = nullptr, SignInfo* info = nullptr) {
  Bytes pk = pkOf(P, sk); return signCore(P, pk.data(), sk + P.insz(), msg, mlen, rho, rholen, tap, info);
}
static inline Bytes verifyChall(const Params& P, const u8* pk, const u8* msg, size_t mlen, const u8* sig, const Tap& tap = nullptr) { // recomputed chall3
  const unsigned lb = P.lb(), eb = P.eb(); const u8 *in = pk, *out = pk + P.insz(), *ch3 = sig + P.off_ch3(), *iv = sig + P.off_iv(); auto T_ = [&](const char* s, unsigned i, Bytes& b) { if (tap) tap(s, i, b); };
  Bytes mu = hashMu(P, pk, msg, mlen); T_("mu", 0, mu);
  std::vector<Bytes> Q; Shake hc = H(P.lambda);
  for (unsigned i = 0; i < P.tau; i++) {
    size_t D = chalIdx(P, ch3, i), n = size_t(1) << P.depth(i); Rec r = vcReconstruct(P.lambda, iv, P.depth(i), D, sig + P.off_pdec(i), sig + P.off_com(i)); hc.add(r.h);
    Bytes sd(n * lb, 0); for (size_t x = 1; x < n; x++) memcpy(&sd[x * lb], &r.sd[(x ^ D) * lb], lb);
    std::vector<Bytes> cols; convert(P.lambda, iv, sd.data(), true, P.depth(i), eb, nullptr, cols);
    for (unsigned b = 0; b < P.depth(i); b++) { if (i && ((D >> b) & 1)) for (unsigned j = 0; j < eb; j++) cols[b][j] ^= sig[P.off_c(i - 1) + j]; Q.push_back(cols[b]); }
  }
  hc.add((u8)1); Bytes hcom = hc.get(2 * lb); T_("hcom", 0, hcom);
  Shake h1 = H(P.lambda); h1.add(mu).add(hcom).add(sig, P.off_u()).add(iv, 16).add((u8)2); Bytes ch1 = h1.get(5 * lb + 8); T_("chall1", 0, ch1);
  Shake hvv = H(P.lambda);
  for (unsigned i = 0; i < P.lambda; i++) { Bytes t = voleHash(P.lambda, ch1.data(), Q[i].data(), P.l); if ((ch3[i / 8] >> (i % 8)) & 1) for (unsigned j = 0; j < t.size(); j++) t[j] ^= sig[P.off_u() + j]; hvv.add(t); }
  hvv.add((u8)1); Bytes hv = hvv.get(2 * lb); T_("hv", 0, hv);
  Shake h2 = H(P.lambda); h2.add(ch1).add(sig + P.off_u(), lb + 2).add(hv).add(sig + P.off_d(), P.l / 8).add((u8)2); Bytes ch2 = h2.get(3 * lb + 8); T_("chall2", 0, ch2);
  const u8* d = sig + P.off_d(); const u8* a = sig + P.off_a();
  Bytes b = P.lambda == 128 ? checkT<2>(P, d, Q, in, out, ch2.data(), ch3, a) : P.lambda == 192 ? checkT<3>(P, d, Q, in, out, ch2.data(), ch3, a) : checkT<4>(P, d, Q, in, out, ch2.data(), ch3, a);
  T_("b", 0, b);
  Shake h3 = H(P.lambda); h3.add(ch2).add(a, lb).add(b).add((u8)2); Bytes r = h3.get(lb); T_("chall3", 0, r); return r;
}
static inline bool verify(const Params& P, const u8* pk, const u8* msg, size_t mlen, const u8* sig, size_t siglen) {
  if (siglen != P.sig) return false;
  Bytes c = verifyChall(P, pk, msg, mlen, sig); return !memcmp(c.data(), sig + P.off_ch3(), P.lb());
}
// keygen from a stream of random SK-sized candidates: returns false if this candidate has a zero S-box input
static inline bool keyFrom(const Params& P, const u8* sk, u8* pk) { memcpy(pk, sk, P.insz()); return owf(P, sk + P.insz(), sk, pk + P.insz()) == 0; }

// ---------------------------------------------------------------- misc helpers
struct Rng { u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } void fill(u8* p, size_t n) { while (n) { u64 v = next(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } } Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; } };
static inline void validKey(const Params& P, Rng& r, Bytes& sk, Bytes& pk) { sk.resize(P.sk); pk.resize(P.pk); do r.fill(sk.data(), P.sk); while (!keyFrom(P, sk.data(), pk.data())); }
static inline std::string hex(const u8* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
} // namespace ref
