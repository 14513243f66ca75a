// C16: block ciphers, key schedules, seed expansion and one-way functions against the model.
#include "gen.hpp"
#include "harness.hpp"
#include "aes.h"
#include "owf.h"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
struct Ci { const char* name; unsigned Nk, Nb, R; int (*init)(aes_round_keys_t*, const uint8_t*); int (*enc)(const aes_round_keys_t*, const uint8_t*, uint8_t*); };
static const Ci C[5] = {{"aes128", 4, 4, 10, aes128_init_round_keys, aes128_encrypt_block}, {"aes192", 6, 4, 12, aes192_init_round_keys, aes192_encrypt_block}, {"aes256", 8, 4, 14, aes256_init_round_keys, aes256_encrypt_block}, {"rijndael192", 6, 6, 12, rijndael192_init_round_keys, rijndael192_encrypt_block}, {"rijndael256", 8, 8, 14, rijndael256_init_round_keys, rijndael256_encrypt_block}};
static void one(Harness& H, const Ci& c, const uint8_t* key, const uint8_t* in, unsigned al = 0) {
  KS k = expand(key, c.Nk, c.Nb, c.R); unsigned z = 0; Bytes want = encrypt(k, in, &z); unsigned n = 4 * c.Nb;
  Bytes kb(c.Nk * 4 + 16), ib(n + 16), ob(n + 48, 0xC3); memcpy(&kb[al], key, 4 * c.Nk); memcpy(&ib[al], in, n); aes_round_keys_t rk; memset(&rk, al & 1 ? 0xff : 0, sizeof rk);
  int r = c.init(&rk, &kb[al]); CHECK((r != 0) == (k.zeros != 0), "%s key schedule of %s reports %d, zero S-box inputs: %u", c.name, hex(key, 4 * c.Nk).c_str(), r, k.zeros);
#ifdef RK
  for (unsigned i = 0; i < c.Nb * (c.R + 1); i++) CHECK(!memcmp(rk.round_keys[i / c.Nb][i % c.Nb], k.w[i].data(), 4), "%s key %s: round key word %u differs", c.name, hex(key, 4 * c.Nk).c_str(), i);
  aes_round_keys_t r2; memset(&r2, 0, sizeof r2); int e = expand_key(&r2, key, c.Nk, c.Nb, c.R); CHECK((e != 0) == (k.zeros != 0), "expand_key reports %d", e); for (unsigned i = 0; i < c.Nb * (c.R + 1); i++) CHECK(!memcmp(r2.round_keys[i / c.Nb][i % c.Nb], k.w[i].data(), 4), "expand_key word %u differs", i);
#endif
  int f = c.enc(&rk, &ib[al], &ob[16 + al]); CHECK(!memcmp(&ob[16 + al], want.data(), n), "%s key %s block %s: wrong ciphertext", c.name, hex(key, 4 * c.Nk).c_str(), hex(in, n).c_str());
  CHECK((f != 0) == (z != 0), "%s key %s block %s: zero flag %d, zero S-box inputs: %u", c.name, hex(key, 4 * c.Nk).c_str(), hex(in, n).c_str(), f, z);
  for (unsigned i = 0; i < ob.size(); i++) if (i < 16 + al || i >= 16 + al + n) CHECK(ob[i] == 0xC3, "%s writes outside its block", c.name);
  CHECK(!memcmp(&ib[al], in, n) && !memcmp(&kb[al], key, 4 * c.Nk), "%s changes its input", c.name);

  H.eval(fnv(want.data(), n, c.Nk * 16 + c.Nb)); H.count(k.zeros || z ? "blocks_with_zero_sbox_input" : "blocks_without");
}
static void prg1(Harness& H, unsigned lam, const uint8_t* key, const uint8_t* iv, size_t n, unsigned al) {
  Bytes want(n + 16); ref::prg(key, iv, lam, want.data(), n); Bytes o(n + 64, 0xC3), kk(key, key + lam / 8), vv(iv, iv + 16); ::prg(kk.data(), vv.data(), &o[16 + al], lam, n);
  if (memcmp(&o[16 + al], want.data(), n)) { size_t i = 0; while (o[16 + al + i] == want[i]) i++; CHECK(false, "prg level %u length %zu iv %s: byte %zu differs from AES-CTR", lam, n, hex(iv, 16).c_str(), i); }
  for (size_t i = 0; i < o.size(); i++) if (i < 16 + al || i >= 16 + al + n) CHECK(o[i] == 0xC3, "prg level %u length %zu writes at offset %ld of its output", lam, n, (long)i - 16 - al);
  CHECK(!memcmp(kk.data(), key, lam / 8) && !memcmp(vv.data(), iv, 16), "prg changes its key or iv"); H.count("prg_calls"); H.eval(fnv(want.data(), n, n * 1000 + lam));
}
typedef bool (*owf_t)(const uint8_t*, const uint8_t*, uint8_t*);
static void owf1(Harness& H, const Params& P, owf_t f, const uint8_t* key, const uint8_t* in) {
  Bytes want(P.insz()), o(P.insz() + 16, 0xC3), k(key, key + P.lb()), i(in, in + P.insz()); unsigned z = ref::owf(P, key, in, want.data()); bool r = f(k.data(), i.data(), o.data());
  CHECK(r == (z == 0), "%s one-way function: key %s input %s: reports %d with %u zero S-box inputs", P.name, hex(key, P.lb()).c_str(), hex(in, P.insz()).c_str(), r, z); CHECK(!memcmp(o.data(), want.data(), want.size()), "%s one-way function: key %s input %s: wrong output", P.name, hex(key, P.lb()).c_str(), hex(in, P.insz()).c_str());
  for (unsigned q = 0; q < 16; q++) CHECK(o[P.insz() + q] == 0xC3, "%s one-way function writes past its output", P.name); CHECK(!memcmp(k.data(), key, P.lb()) && !memcmp(i.data(), in, P.insz()), "%s one-way function changes its input", P.name); H.eval(fnv(want.data(), want.size(), P.id)); H.count("owf");
}
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 200; bool own = getenv("OWN") != nullptr;
  return H.main([&](Harness& H) {
    for (auto& c : C) { unsigned kn = 4 * c.Nk, bn = 4 * c.Nb; unsigned nb = H.thorough ? 16 : 4;
      for (unsigned p = 0; p < kn + bn; p++) H.run(fmt("%s byte %u", c.name, p), [&] { for (unsigned b = 0; b < nb; b++) for (unsigned v = 0; v < 256; v++) { Bytes k = b == 0 ? Bytes(kn, 0) : b == 1 ? Bytes(kn, 0xff) : msg(kn, b), m = b == 0 ? Bytes(bn, 0) : b == 1 ? Bytes(bn, 0xff) : msg(bn, b + 40); (p < kn ? k[p] : m[p - kn]) = v; one(H, c, k.data(), m.data(), v % 16); } });
      // inputs that hit exactly one S-box position with zero, for every position of the schedule and of the state
      unsigned pos = 0; { std::vector<unsigned> z; Bytes k(kn, 1); zeroIdx = 0; KS s = expand(k.data(), c.Nk, c.Nb, c.R); encrypt(s, k.data()); Bytes m(bn, 1); zeroIdx = 0; KS t = expand(k.data(), c.Nk, c.Nb, c.R); encrypt(t, m.data()); pos = zeroIdx; }
      for (unsigned part = 0; part < 16; part++) H.run(fmt("%s single zero S-box input, positions = %u mod 16", c.name, part), [&] { std::vector<char> hit(pos, 0); unsigned need = 0; for (unsigned i = part; i < pos; i += 16) need++; Rng g(part + 1); std::vector<unsigned> z;
        for (unsigned it = 0; it < 200000 && need; it++) { Bytes k = g.bytes(kn), m = g.bytes(bn); z.clear(); zeroTrace = &z; zeroIdx = 0; unsigned q = 0; KS s = expand(k.data(), c.Nk, c.Nb, c.R); encrypt(s, m.data(), &q); zeroTrace = nullptr; if (z.size() == 1 && z[0] % 16 == part && !hit[z[0]]) { hit[z[0]] = 1; need--; one(H, c, k.data(), m.data(), it % 16); H.count("single_zero_positions"); } }
        CHECK(!need, "generator could not reach %u positions", need); });
      for (unsigned r = 0; r < (H.thorough ? 64u : 16u); r++) H.run(fmt("%s pseudo-random %u", c.name, r), [&] { Rng g(H.seed * 100 + r); for (int i = 0; i < 200; i++) { Bytes k = g.bytes(kn), m = g.bytes(bn); one(H, c, k.data(), m.data(), i % 16); } }); }
    for (unsigned b = 0; b < 16; b++) H.run(fmt("counter increment %u", b), [&] { for (unsigned fill : {0x00u, 0xffu, 0x7fu, 0xa5u}) for (unsigned v = 0; v < 256; v++) for (unsigned lo : {0xffu, 0xfeu, 0x00u}) { Bytes c(16, fill); for (unsigned i = b + 1; i < 16; i++) c[i] = 0xff; c[15] = b == 15 ? v : lo; if (b < 15) c[b] = v; Bytes w(c), g(32, 0xC3); memcpy(&g[8], c.data(), 16); ctrInc(w.data()); aes_increment_iv(&g[8]); CHECK(!memcmp(&g[8], w.data(), 16), "increment of %s gives %s", hex(c.data(), 16).c_str(), hex(&g[8], 16).c_str()); for (int i = 0; i < 8; i++) CHECK(g[i] == 0xC3 && g[24 + i] == 0xC3, "counter increment writes outside"); H.eval(fnv(c.data(), 16)); } });
    auto iv = ivs();
    for (unsigned lam : {128u, 192u, 256u}) { size_t mx = H.thorough ? 4200 : own ? 640 : 1300;
      for (size_t n = 0; n <= mx; n += 4) H.run(fmt("prg %u length from %zu", lam, n), [&] { for (size_t L = n; L < n + 4; L++) for (unsigned q = 0; q < (own ? 2u : 8u); q++) { Bytes k = q == 0 ? Bytes(lam / 8, 0) : q == 1 ? Bytes(lam / 8, 0xff) : msg(lam / 8, q); prg1(H, lam, k.data(), iv[q < 2 ? q : (L * 7 + q * 13) % iv.size()].data(), L, (L + q) % 16); } });
      for (size_t v = 0; v < iv.size(); v++) H.run(fmt("prg %u iv %zu", lam, v), [&] { for (size_t L : {(size_t)16, (size_t)17, (size_t)32, (size_t)33, (size_t)48, (size_t)234, (size_t)256, (size_t)354, (size_t)450, (size_t)482, (size_t)566}) for (unsigned q = 0; q < 3; q++) { if (own && L > 60 && q) continue; prg1(H, lam, msg(lam / 8, q + 3).data(), iv[v].data(), L, v % 16); } });
      for (size_t L : {(size_t)4095, (size_t)4096, (size_t)4097, (size_t)65535, (size_t)65536, (size_t)65553, (size_t)1 << 20}) { if (own && L > 70000) continue; H.run(fmt("prg %u length %zu", lam, L), [&] { for (unsigned v : {0u, 1u, 9u, 12u}) prg1(H, lam, msg(lam / 8, 3).data(), iv[v].data(), L, 1); }); } }
    static const struct { unsigned pi; owf_t f; } O[6] = {{0, owf_128}, {2, owf_192}, {4, owf_256}, {6, owf_em_128}, {8, owf_em_192}, {10, owf_em_256}};
    for (auto& o : O) { const Params& P = ALL[o.pi]; unsigned kn = P.lb(), in = P.insz(); for (unsigned p = 0; p < kn + in; p++) H.run(fmt("%s owf byte %u", P.name, p), [&] { for (unsigned b = 0; b < (H.thorough ? 12u : 3u); b++) for (unsigned v = 0; v < 256; v++) { Bytes k = b == 0 ? Bytes(kn, 0) : msg(kn, b), m = b == 0 ? Bytes(in, 0) : msg(in, b + 40); (p < kn ? k[p] : m[p - kn]) = v; owf1(H, P, o.f, k.data(), m.data()); } });
      for (unsigned part = 0; part < 16; part++) H.run(fmt("%s owf single zero, positions = %u mod 16", P.name, part), [&] { Rng g(part + 1); std::vector<unsigned> z; std::vector<char> hit(2000, 0); unsigned found = 0; Bytes t(in); unsigned npos = (P.em ? 0 : P.Ske) + P.beta * 4 * (P.em ? P.Nwd : 4) * P.R, need = (npos + 15 - part) / 16, base = P.em ? 4 * 8 * 15 : 0;
        for (unsigned it = 0; it < 300000 && found < need; it++) { Bytes k = g.bytes(kn), m = g.bytes(in); z.clear(); zeroTrace = &z; zeroIdx = 0; unsigned nz = ref::owf(P, k.data(), m.data(), t.data()); zeroTrace = nullptr; if (P.em) { if (nz != 1) continue; } else if (z.size() != 1) continue; unsigned p = z.back(); if (P.em) { KS s = expand(m.data(), P.Nwd, P.Nwd, P.R); zeroIdx = 0; expand(m.data(), P.Nwd, P.Nwd, P.R); p -= zeroIdx; } if (p % 16 != part || hit[p]) continue; hit[p] = 1; found++; owf1(H, P, o.f, k.data(), m.data()); H.count("owf_single_zero_positions"); }
        CHECK(found == need, "generator reached %u of %u positions", found, need); }); }
  });
}
