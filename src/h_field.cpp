// C15: field arithmetic against an independent model.
#include "gen.hpp"
#include "harness.hpp"
#include "fields.h"
#include <random>
using namespace ref;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
template <int N> struct Ops;
template <> struct Ops<1> { typedef bf64_t T; static T ld(const uint8_t* p) { return bf64_load(p); } static void st(uint8_t* p, T v) { bf64_store(p, v); } static T mul(T a, T b) { return bf64_mul(a, b); } static T add(T a, T b) { return bf64_add(a, b); } static T zero() { return bf64_zero(); } static T one() { return bf64_one(); } };
#define OPS(N, B) template <> struct Ops<N> { typedef bf##B##_t T; static T ld(const uint8_t* p) { return bf##B##_load(p); } static void st(uint8_t* p, T v) { bf##B##_store(p, v); } static T mul(T a, T b) { return bf##B##_mul(a, b); } static T add(T a, T b) { return bf##B##_add(a, b); } static T zero() { return bf##B##_zero(); } static T one() { return bf##B##_one(); } \
  static T mul64(T a, uint64_t b) { return bf##B##_mul_64(a, b); } static T from64(uint64_t b) { return bf##B##_from_bf64(b); } static T sum(const T* x) { return bf##B##_sum_poly(x); } static T comb(const T* x) { return bf##B##_byte_combine(x); } static T combBits(uint8_t x) { return bf##B##_byte_combine_bits(x); } EXT(B) };
#ifdef EXTOPS
#define EXT(B) static T mulbit(T a, uint8_t b) { return bf##B##_mul_bit(a, b); } static T from8(uint8_t b) { return bf##B##_from_bf8(b); } static T frombit(uint8_t b) { return bf##B##_from_bit(b); }
#else
#define EXT(B)
#endif
OPS(2, 128) OPS(3, 192) OPS(4, 256)
template <int N> using Fe = F<N>;
template <int N> static typename Ops<N>::T up(const Fe<N>& f) { uint8_t b[8 * N]; f.store(b); return Ops<N>::ld(b); }
template <int N> static Fe<N> dn(typename Ops<N>::T v) { uint8_t b[8 * N + 8]; memset(b, 0xC3, sizeof b); Ops<N>::st(b, v); for (int i = 0; i < 8; i++) CHECK(b[8 * N + i] == 0xC3, "store writes past the element"); return Fe<N>::load(b); }
template <int N> static std::string fh(const Fe<N>& f) { uint8_t b[8 * N]; f.store(b); return hex(b, 8 * N); }
template <int N> static void pair(Harness& H, const Fe<N>& a, const Fe<N>& b) { Fe<N> w = a * b; Fe<N> g = dn<N>(Ops<N>::mul(up<N>(a), up<N>(b))); H.count("products"); if (g != w) CHECK(false, "GF(2^%d): %s * %s = %s, should be %s", 64 * N, fh(a).c_str(), fh(b).c_str(), fh(g).c_str(), fh(w).c_str()); Fe<N> s = dn<N>(Ops<N>::add(up<N>(a), up<N>(b))); if (s != (a ^ b)) CHECK(false, "GF(2^%d): %s + %s wrong", 64 * N, fh(a).c_str(), fh(b).c_str()); }
template <int N> static std::vector<Fe<N>> structured(unsigned level) {
  std::vector<Fe<N>> v; const int B = 64 * N; Fe<N> z; v.push_back(z); auto ones = [&](int a, int b) { Fe<N> f; for (int i = a; i < b; i++) f.setbit(i); return f; };
  for (int i = 0; i < B; i += level ? 1 : 3) v.push_back(ones(i, i + 1)); // single bits
  for (int i = 1; i <= B; i += level ? 3 : 9) { v.push_back(ones(0, i)); v.push_back(ones(B - i, B)); } // runs
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { v.push_back(ones(64 * i, 64 * (j + 1))); Fe<N> f = ones(64 * i, 64 * (j + 1)) ^ ones(0, B); v.push_back(f); }
  for (int p : {0x55, 0xaa, 0x0f, 0xf0, 0x80, 0x01, 0x7f, 0xfe, 0x87, 0x25, 0x1b}) { uint8_t b[8 * N]; memset(b, p, sizeof b); v.push_back(Fe<N>::load(b)); memset(b, 0, sizeof b); b[0] = p; v.push_back(Fe<N>::load(b)); b[0] = 0; b[8 * N - 1] = p; v.push_back(Fe<N>::load(b)); }
  Fe<N> m; m.w[0] = Fe<N>::mod(); v.push_back(m); if (N > 1) { for (int i = 0; i < 8; i++) v.push_back(A<N < 2 ? 2 : N>().p[i].w[0] ? *(const Fe<N>*)&A<N < 2 ? 2 : N>().p[i] : z); }
  Rng r(N); for (int mask = 1; mask < (1 << N); mask++) for (int k = 0; k < (level ? 6 : 3); k++) { Fe<N> f; for (int i = 0; i < N; i++) if ((mask >> i) & 1) f.w[i] = k == 0 ? ~0ull : k == 1 ? 1ull << 63 : k == 2 ? 1 : r.next() >> (k == 4 ? 32 : 0) << (k == 5 ? 32 : 0); v.push_back(f); }
  if (level > 1) for (int a = 0; a < B; a += 5) for (int b = a + 2; b < B; b += 7) v.push_back(ones(a, b));
  for (int i = 0; i < (level ? 200 : 40); i++) { uint8_t b[8 * N]; r.fill(b, sizeof b); v.push_back(Fe<N>::load(b)); } return v;
}
template <int N> static void common(Harness& H) {
  const int B = 64 * N;
  for (int i = 0; i < B; i++) H.run(fmt("GF(2^%d) basis row %d", B, i), [&] { Fe<N> a; a.setbit(i); for (int j = 0; j < B; j++) { Fe<N> b; b.setbit(j); pair<N>(H, a, b); H.eval((uint64_t)N << 40 | i << 16 | j); if (j % 17 == i % 17) { Fe<N> q = a.mulSlow(b); CHECK(q == a * b, "reference model self-check failed"); } } });
  auto S = structured<N>(H.thorough ? 2 : 1); for (size_t i = 0; i < S.size(); i++) H.run(fmt("GF(2^%d) structured row %zu", B, i), [&] { for (size_t j = 0; j < S.size(); j++) pair<N>(H, S[i], S[j]); H.eval(fnv(S[i].w, 8 * N, 77 + N)); 
    uint8_t buf[8 * N + 64]; for (int al = 0; al < 32; al++) { memset(buf, 0xC3, sizeof buf); S[i].store(buf + al); Fe<N> g = dn<N>(Ops<N>::ld(buf + al)); CHECK(g == S[i], "load at alignment %d wrong", al); memset(buf, 0xC3, sizeof buf); Ops<N>::st(buf + al, up<N>(S[i])); uint8_t w[8 * N]; S[i].store(w); CHECK(!memcmp(buf + al, w, 8 * N), "store at alignment %d wrong", al); for (int k = 0; k < (int)sizeof buf; k++) if (k < al || k >= al + 8 * N) CHECK(buf[k] == 0xC3, "store touches a neighbouring byte"); } });
  std::vector<Fe<N>> few; for (size_t i = 0; i < S.size(); i += S.size() / 24 + 1) few.push_back(S[i]);
  for (int i = 0; i < B; i++) H.run(fmt("GF(2^%d) two-bit operands and runs from %d", B, i), [&] { Fe<N> run; for (int j = i; j < B; j++) { Fe<N> a; a.setbit(i); a.setbit(j); run.setbit(j); for (auto& f : few) { pair<N>(H, a, f); pair<N>(H, f, a); pair<N>(H, run, f); } pair<N>(H, a, a); pair<N>(H, run, run); pair<N>(H, run, a); H.eval((uint64_t)N << 50 | i << 16 | j); } });
  H.run(fmt("GF(2^%d) constants", B), [&] { CHECK(dn<N>(Ops<N>::zero()) == Fe<N>(), "zero wrong"); CHECK(dn<N>(Ops<N>::one()) == Fe<N>::one(), "one wrong"); H.eval(N); });
}
template <int N> static void big(Harness& H) {
  const int B = 64 * N; auto S = structured<N>(0);
  H.run(fmt("GF(2^%d) embedding", B), [&] { Fe<N> x = alpha<N>(), p = Fe<N>::one(); Fe<N> x2 = x * x, x3 = x2 * x, x4 = x2 * x2, x8 = x4 * x4; CHECK((x8 ^ x4 ^ x3 ^ x ^ p) == Fe<N>(), "reference generator is not a root of the AES polynomial");
    for (int a = 0; a < 256; a++) { Fe<N> w = embed<N>(a); Fe<N> g = dn<N>(Ops<N>::combBits(a)); CHECK(g == w, "byte_combine_bits(%d) is not the embedding of that byte", a); H.eval(a + N * 1000);
      for (int b = 0; b < 256; b += 5) { CHECK(dn<N>(Ops<N>::mul(Ops<N>::combBits(a), Ops<N>::combBits(b))) == embed<N>(m8(a, b)), "embedding is not multiplicative at %d, %d", a, b); }
#ifdef EXTOPS
      Fe<N> f; f.w[0] = a; CHECK(dn<N>(Ops<N>::from8(a)) == f, "from_bf8(%d)", a); f.w[0] = a & 1; CHECK(dn<N>(Ops<N>::frombit(a & 1)) == f, "from_bit(%d)", a);
#endif
    } });
  for (int i = 0; i < 8; i++) H.run(fmt("GF(2^%d) byte_combine slot %d", B, i), [&] { for (size_t s = 0; s < S.size(); s++) { Fe<N> x[8]; typename Ops<N>::T y[8]; for (int k = 0; k < 8; k++) { if (k == i) x[k] = S[s]; else if (s % 3 == 1) x[k] = S[(s * 7 + k) % S.size()]; y[k] = up<N>(x[k]); } CHECK(dn<N>(Ops<N>::comb(y)) == combine<N>(x), "byte_combine wrong"); H.eval(fnv(S[s].w, 8 * N, i + 8 * N)); } });
  for (int i = 0; i < 64; i++) H.run(fmt("GF(2^%d) mul_64 bit %d", B, i), [&] { std::vector<uint64_t> ys{(uint64_t)1 << i, ~((uint64_t)1 << i), ((uint64_t)1 << i) - 1, ~(((uint64_t)1 << i) - 1), Rng(i).next()}; for (auto y : ys) { Fe<N> f; f.w[0] = y; CHECK(dn<N>(Ops<N>::from64(y)) == f, "from_bf64 wrong"); for (size_t s = 0; s < S.size(); s++) { CHECK(dn<N>(Ops<N>::mul64(up<N>(S[s]), y)) == S[s].mul64(y), "GF(2^%d) mul_64(%s, %016llx) wrong", B, fh(S[s]).c_str(), (unsigned long long)y); H.count("products_64"); } for (int b = 0; b < B; b++) { Fe<N> e; e.setbit(b); CHECK(dn<N>(Ops<N>::mul64(up<N>(e), y)) == e.mul64(y), "mul_64 basis %d wrong", b); } H.eval(y ^ N); } });
  for (int i = 0; i < B; i += 4) H.run(fmt("GF(2^%d) sum_poly from slot %d", B, i), [&] { for (int q = i; q < i + 4; q++) { struct alignas(32) Al { typename Ops<N>::T t[64 * N]; }; static Al y; for (size_t s = 0; s < S.size(); s += 11) { std::vector<Fe<N>> x(B); x[q] = S[(s + q) % S.size()]; if (s == 11) for (int k = 0; k < B; k++) x[k] = S[(k * 5 + q) % S.size()]; if (s == 22) for (int k = 0; k < B; k++) x[k].setbit(k == q ? B - 1 : 0); for (int k = 0; k < B; k++) y.t[k] = up<N>(x[k]); CHECK(dn<N>(Ops<N>::sum(y.t)) == sumPoly<N>(x.data()), "sum_poly wrong"); H.count("polynomials"); } H.eval(q * 16 + N); } });
#ifdef EXTOPS
  H.run(fmt("GF(2^%d) mul_bit", B), [&] { for (auto& f : S) for (int b = 0; b < 2; b++) { CHECK(dn<N>(Ops<N>::mulbit(up<N>(f), b)) == (b ? f : Fe<N>()), "mul_bit wrong"); } H.eval(N); });
#endif
}
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 100;
  return H.main([&](Harness& H) {
    for (int a = 0; a < 256; a++) H.run(fmt("GF(2^8) row %d", a), [&] { for (int b = 0; b < 256; b++) { CHECK(bf8_mul(a, b) == m8(a, b), "GF(2^8): %d * %d = %d, should be %d", a, b, bf8_mul(a, b), m8(a, b)); CHECK(bf8_add(a, b) == (a ^ b), "GF(2^8): addition"); H.eval(a * 256 + b); } CHECK(bf8_inv(a) == T().inv[a], "GF(2^8): inverse of %d", a); uint8_t x = a, y = 0; CHECK(bf8_load(&x) == a, "load"); bf8_store(&y, a); CHECK(y == a, "store"); });
    H.run("GF(2^8) constants", [&] { CHECK(bf8_zero() == 0 && bf8_one() == 1, "constants");
#ifdef EXTOPS
      for (int b = 0; b < 2; b++) CHECK(bf8_from_bit(b) == b && bf64_from_bit(b) == (uint64_t)b, "from_bit");
#endif
    });
    common<1>(H); common<2>(H); common<3>(H); common<4>(H); big<2>(H); big<3>(H); big<4>(H);
  });
}
