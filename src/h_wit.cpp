// C25: the extended witness and the proof over it.
#include "gen.hpp"
#include "harness.hpp"
#include "instances.h"
#include "aes.h"
#include "owf.h"
#ifdef PROVE
#include "faest_aes.h"
#endif
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
static faest_paramset_t pset(const Params& P) { return faest_get_paramset((faest_paramid_t)P.id); }
static Bytes wit(const Params& P, const u8* key, const u8* in) { // inputs at the end of their own exact blocks
  faest_paramset_t p = pset(P); std::unique_ptr<u8[]> k(new u8[P.lb()]), i(new u8[P.insz()]); memcpy(k.get(), key, P.lb()); memcpy(i.get(), in, P.insz()); u8* w = aes_extend_witness(k.get(), i.get(), &p); CHECK(w, "no witness"); CHECK(!memcmp(k.get(), key, P.lb()) && !memcmp(i.get(), in, P.insz()), "aes_extend_witness changes its inputs"); Bytes r(w, w + (P.l + 7) / 8); free(w); return r; }
static void sameW(Harness& H, const Params& P, const u8* key, const u8* in) { Bytes a = wit(P, key, in), b = witness(P, key, in); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) CHECK(false, "witness byte %zu of %zu differs (key %s, input %s)", i, a.size(), hex(key, P.lb()).c_str(), hex(in, P.insz()).c_str()); H.eval(fnv(a.data(), a.size(), P.id)); H.count("witnesses"); }
#ifdef PROVE
struct Scene { Bytes w, u, vf; Bytes ch2, delta, in, out; };
static Bytes cols(const Params& P, const Bytes& f, unsigned c) { unsigned eb = (P.l + P.lambda) / 8; return Bytes(f.begin() + c * eb, f.begin() + (c + 1) * eb); }
struct Cols { std::vector<std::unique_ptr<u8[]>> b; std::vector<u8*> p; Cols(const Params& P, const Bytes& f) { // contiguous, like the callers' columns, with guard bytes at the end
    unsigned eb = (P.l + P.lambda) / 8; b.emplace_back(new u8[P.lambda * eb + 64]); memcpy(b[0].get(), f.data(), P.lambda * eb); memset(b[0].get() + P.lambda * eb, 0xC3, 64); for (unsigned i = 0; i < P.lambda; i++) p.push_back(b[0].get() + i * eb); n = P.lambda * eb; }
  bool clean() const { for (int i = 0; i < 64; i++) if (b[0][n + i] != 0xC3) return false; return true; } size_t n; };
static Bytes correlate(const Params& P, const Scene& s) { unsigned eb = (P.l + P.lambda) / 8; Bytes q(s.vf); for (unsigned c = 0; c < P.lambda; c++) if (s.delta[c / 8] >> (c % 8) & 1) for (unsigned i = 0; i < eb; i++) q[c * eb + i] ^= s.u[i]; return q; }
static void proveM(const Params& P, const Scene& s, Bytes& a, Bytes& b, std::vector<int>* un) { std::vector<Bytes> V; for (unsigned c = 0; c < P.lambda; c++) V.push_back(cols(P, s.vf, c)); if (P.lambda == 128) proveT<2>(P, s.w, s.u, V, s.in.data(), s.out.data(), s.ch2.data(), a, b, un); else if (P.lambda == 192) proveT<3>(P, s.w, s.u, V, s.in.data(), s.out.data(), s.ch2.data(), a, b, un); else proveT<4>(P, s.w, s.u, V, s.in.data(), s.out.data(), s.ch2.data(), a, b, un); }
static Bytes checkM(const Params& P, const Bytes& d, const Bytes& q, const Scene& s, const Bytes& a) { std::vector<Bytes> Q; for (unsigned c = 0; c < P.lambda; c++) Q.push_back(cols(P, q, c)); return P.lambda == 128 ? checkT<2>(P, d.data(), Q, s.in.data(), s.out.data(), s.ch2.data(), s.delta.data(), a.data()) : P.lambda == 192 ? checkT<3>(P, d.data(), Q, s.in.data(), s.out.data(), s.ch2.data(), s.delta.data(), a.data()) : checkT<4>(P, d.data(), Q, s.in.data(), s.out.data(), s.ch2.data(), s.delta.data(), a.data()); }
static void proveR(const Params& P, const Scene& s, Bytes& a, Bytes& b) { faest_paramset_t p = pset(P); Cols V(P, s.vf); a.assign(P.lb() + 8, 0xC3); b = a; Bytes w(s.w), u(s.u), in(s.in), out(s.out), ch(s.ch2); aes_prove(w.data(), u.data(), V.p.data(), in.data(), out.data(), ch.data(), a.data(), b.data(), &p);
  for (int i = 0; i < 8; i++) CHECK(a[P.lb() + i] == 0xC3 && b[P.lb() + i] == 0xC3, "aes_prove writes past its outputs"); CHECK(w == s.w && u == s.u && in == s.in && out == s.out && ch == s.ch2, "aes_prove changes an input"); CHECK(V.clean(), "aes_prove writes past the columns"); a.resize(P.lb()); b.resize(P.lb()); }
static Bytes checkR(const Params& P, const Bytes& d, const Bytes& q, const Scene& s, const Bytes& a) { faest_paramset_t p = pset(P); Cols Q(P, q); Bytes dd(d), c2(s.ch2), c3(s.delta), aa(a), in(s.in), out(s.out); u8* r = aes_verify(dd.data(), Q.p.data(), c2.data(), c3.data(), aa.data(), in.data(), out.data(), &p); CHECK(r, "aes_verify returns nothing"); Bytes o(r, r + P.lb()); free(r); CHECK(dd == d && c2 == s.ch2 && c3 == s.delta && aa == a && in == s.in && out == s.out, "aes_verify changes an input"); CHECK(Q.clean(), "aes_verify writes past the columns"); return o; }
// everything about one scene: real prover = model prover, real verifier = model verifier, and they
// agree with each other exactly when every S-box constraint is satisfied
static void scene(Harness& H, const Params& P, const Scene& s, const char* what, bool generic) {
  Bytes a, b, ma, mb; std::vector<int> un; proveR(P, s, a, b); proveM(P, s, ma, mb, &un); CHECK(a == ma, "%s: a~ differs from the specified one", what); CHECK(b == mb, "%s: b~ differs from the specified one", what);
  Bytes d(P.l / 8); for (unsigned i = 0; i < d.size(); i++) d[i] = s.w[i] ^ s.u[i]; Bytes q = correlate(P, s), r = checkR(P, d, q, s, a), mr = checkM(P, d, q, s, a); CHECK(r == mr, "%s: the verifier's value differs from the specified one", what);
  if (un.empty()) CHECK(r == b, "%s: all constraints hold but the verifier's value is not b~", what); else if (generic) CHECK(r != b, "%s: constraint %d is violated but the verifier's value is b~", what, un[0]);
  H.eval(fnv(r.data(), r.size(), fnv(b.data(), b.size(), P.id))); H.count(un.empty() ? "satisfied" : "unsatisfied"); }
static Scene base(const Params& P, unsigned k, const Key* rk = nullptr) { Key K = rk ? *rk : key(P, k); Scene s; unsigned eb = (P.l + P.lambda) / 8; s.w = witness(P, &K.sk[P.insz()], K.sk.data()); s.u = msg(eb, k + 1); s.vf = msg((size_t)eb * P.lambda, k + 2); s.ch2 = msg(3 * P.lb() + 8, k + 3); s.delta = msg(P.lb(), k + 4); s.in.assign(K.pk.begin(), K.pk.begin() + P.insz()); s.out.assign(K.pk.begin() + P.insz(), K.pk.end()); return s; }
#endif
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 200;
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); unsigned eb = (P.l + P.lambda) / 8; (void)eb;
#ifndef PROVE
      // every byte position x every byte value of key and input, over two backgrounds; structured keys; every single bit; pairs of patterns
      for (unsigned pos = 0; pos < P.sk; pos++) { if (!fast && pos % 8 && !H.thorough) continue; H.run(fmt("%s witness, byte %u", P.name, pos), [&] { for (unsigned bg = 0; bg < (H.thorough ? 6u : 2u); bg++) { Bytes s = bg < 4 && bg ? Bytes(P.sk, bg == 1 ? 0 : bg == 2 ? 0xff : 0x63) : msg(P.sk, 50 + bg); for (int v = 0; v < 256; v++) { s[pos] = v; sameW(H, P, &s[P.insz()], s.data()); } } }); }
      for (unsigned k = 0; k < (H.thorough ? 400u : 40u); k++) H.run(fmt("%s witness, key %u", P.name, k), [&] { Key K = key(P, k); sameW(H, P, &K.sk[P.insz()], K.sk.data()); for (unsigned i = 0; i < 40; i++) { Bytes s = msg(P.sk, i * 17 + k); sameW(H, P, &s[P.insz()], s.data()); } });
      for (auto& r : rels(P, fast || H.thorough ? 2 : 8)) { if (r[0] == 2 && !H.thorough && (r[1] + r[2]) % 3) continue; H.run(fmt("%s witness, equal words of %u at %u and %u", P.name, r[0], r[1], r[2]), [&] { Key K = relKey(P, r); if (K.pk.empty()) return; sameW(H, P, &K.sk[P.insz()], K.sk.data()); }); }
#else
      bool lite = getenv("LITE") != nullptr; unsigned q = H.thorough ? 1 : lite ? 12 : 1, big = H.thorough ? 1 : P.lambda / 64 - 1, sl = fast ? 1 : H.thorough ? 3 : 9; if (lite && !fast && !H.thorough) continue;
      // sweep an index space; the stride is coprime to word and block sizes
      auto sweep = [&](const char* n, unsigned total, unsigned stride, const std::function<void(unsigned)>& f) { if (stride % 2 == 0) stride++; for (unsigned c = 0; c * 16 * stride < total; c++) H.run(fmt("%s %s from %u", P.name, n, c * 16 * stride), [&] { for (unsigned i = c * 16 * stride, m = 0; i < total && m < 16; i += stride, m++) f(i); }); };
      for (unsigned k = 0; k < (H.thorough ? 40u : lite ? 2u : fast ? 10u : 2u); k++) H.run(fmt("%s proof, key %u", P.name, k), [&] { Scene s = base(P, k); scene(H, P, s, "honest", true);
          // structured masks: zero and all-one columns, zero u, zero and all-one challenge
          for (int m = 0; m < 27; m++) { Scene t = s; int x[3] = {m % 3, m / 3 % 3, m / 9}; if (x[0]) std::fill(t.u.begin(), t.u.end(), x[0] == 1 ? 0 : 0xff); if (x[1]) std::fill(t.vf.begin(), t.vf.end(), x[1] == 1 ? 0 : 0xff); if (x[2]) std::fill(t.delta.begin(), t.delta.end(), x[2] == 1 ? 0 : 0xff); scene(H, P, t, "structured masks", true); } });
      for (auto& r : rels(P, H.thorough && fast ? 2 : lite ? 16 : fast ? 8 : 16)) H.run(fmt("%s proof, equal words of %u at %u and %u", P.name, r[0], r[1], r[2]), [&] { Key K = relKey(P, r); if (K.pk.empty()) return; scene(H, P, base(P, r[1] * 64 + r[2], &K), "equal words", true); });
      static Scene s; static int sOf = -1; auto S = [&]() -> const Scene& { if (sOf != (int)pi) { s = base(P, 8); sOf = pi; } return s; };
      // every witness bit flipped: the proof must fail unless the model says the constraints still hold
      sweep("witness bits", P.l, q * sl * (big > 1 ? 3 * big - 1 : 1), [&](unsigned i) { Scene t = S(); t.w[i / 8] ^= 1 << (i % 8); scene(H, P, t, fmt("witness bit %u", i).c_str(), true); });
      // every public-key bit
      sweep("public-key bits", 8 * P.pk, q * sl * big, [&](unsigned i) { Scene t = S(); if (i < 8 * P.insz()) t.in[i / 8] ^= 1 << (i % 8); else { unsigned j = i - 8 * P.insz(); t.out[j / 8] ^= 1 << (j % 8); } scene(H, P, t, fmt("public-key bit %u", i).c_str(), true); });
      // every verification challenge bit alone, and all but it; every bit of the second challenge
      sweep("challenge bits", P.lambda, q * (fast ? 1 : sl / 3), [&](unsigned i) { Scene t = S(); std::fill(t.delta.begin(), t.delta.end(), 0); t.delta[i / 8] = 1 << (i % 8); scene(H, P, t, fmt("challenge bit %u", i).c_str(), true); if (fast && i % big == 0) { for (auto& x : t.delta) x = ~x; scene(H, P, t, fmt("challenge without bit %u", i).c_str(), true); } });
      // every tree opened at a boundary position, the others elsewhere; all trees at the same one
      { std::vector<std::array<unsigned, 2>> tp; for (unsigned t = 0; t <= P.tau; t++) for (unsigned q = 0; q < 8; q++) { if (t < P.tau && (lite || (!H.thorough && !fast && (t + q) % 4) || (!H.thorough && fast && P.lambda > 128 && (t + q) % 3))) continue; tp.push_back({t, q}); }
        sweep("boundary positions", tp.size(), 1, [&](unsigned i) { unsigned t = tp[i][0], q = tp[i][1]; Scene s = S(); Bytes c = chalAt(P, [&](unsigned k) -> size_t { size_t n = size_t(1) << P.depth(k), v[8] = {0, 1, 3, n / 2 - 1, n / 2, n - 4, n - 2, n - 1}; return k == t || t == P.tau ? v[q] : (k * 40503 + i * 7919 + 5) % n; }); s.delta = c; scene(H, P, s, fmt("position class %u of tree %u", q, t).c_str(), true); }); }
      sweep("second challenge bits", 8 * (3 * P.lb() + 8), q * sl * big * (H.thorough ? 1 : 3), [&](unsigned i) { Scene t = S(); t.ch2[i / 8] ^= 1 << (i % 8); scene(H, P, t, fmt("second challenge bit %u", i).c_str(), true); if (i % 4 == 0) { std::fill(t.ch2.begin(), t.ch2.end(), 0); t.ch2[i / 8] = 1 << (i % 8); scene(H, P, t, fmt("second challenge only bit %u", i).c_str(), false); } });
      // every row of the masks: one bit changed, and one bit alone with everything else zero
      sweep("mask rows", P.l + P.lambda, q * sl * (2 * big - 1) * (H.thorough ? 1 : 3), [&](unsigned i) { Scene t = S(); unsigned c = 7 * i % P.lambda; t.vf[c * eb + i / 8] ^= 1 << (i % 8); scene(H, P, t, fmt("mask bit (%u,%u)", i, c).c_str(), true); if (i % 2 == 0) { std::fill(t.vf.begin(), t.vf.end(), 0); t.vf[c * eb + i / 8] = 1 << (i % 8); std::fill(t.u.begin(), t.u.end(), 0); t.u[i / 8] = 1 << (i % 8); scene(H, P, t, fmt("only mask bit (%u,%u)", i, c).c_str(), true); } });
      // every column
      sweep("mask columns", P.lambda, q * sl * big * (H.thorough ? 1 : 3), [&](unsigned c) { Scene t = S(); std::fill(t.vf.begin(), t.vf.end(), 0); std::fill(t.vf.begin() + c * eb, t.vf.begin() + (c + 1) * eb, 0xff); scene(H, P, t, fmt("only column %u", c).c_str(), true); });
      // arbitrary verifier inputs, not only correlated ones
      for (unsigned k = 0; k < (H.thorough ? 16u : fast && !lite ? 4u : 1u); k++) H.run(fmt("%s uncorrelated %u", P.name, k), [&] { Scene s = base(P, 14 + k); Bytes q = msg((size_t)eb * P.lambda, k + 900), d = msg(P.l / 8, k + 901), a = msg(P.lb(), k + 902); for (int m = 0; m < 16; m++) { Bytes qq(q), dd(d), aa(a); if (m & 1) std::fill(qq.begin(), qq.end(), m & 8 ? 0xff : 0); if (m & 2) std::fill(dd.begin(), dd.end(), m & 8 ? 0xff : 0); if (m & 4) std::fill(aa.begin(), aa.end(), m & 8 ? 0xff : 0); Bytes r = checkR(P, dd, qq, s, aa), e = checkM(P, dd, qq, s, aa); CHECK(r == e, "uncorrelated inputs %d: the verifier's value differs from the specified one", m); H.eval(fnv(r.data(), r.size(), P.id)); } });
#endif
    }
  });
}
