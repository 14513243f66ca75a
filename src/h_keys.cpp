// C05: key generation, key-pair validation and refusal of invalid keys at every S-box position.
#include "gen.hpp"
#include "harness.hpp"
using namespace ref; using namespace gen;
static Bytes stream; static size_t off = 0; static unsigned draws = 0;
extern "C" int rand_bytes(uint8_t* p, size_t n) { draws++; for (size_t i = 0; i < n; i++) { p[i] = off < stream.size() ? stream[off] : (u8)(off * 37 + 11); off++; } return 0; }
// positions (in evaluation order) of the zero S-box inputs that count for this set
static std::vector<unsigned> zeroPos(const Params& P, const u8* sk, u8* pk) { std::vector<unsigned> z; unsigned base = 0; if (P.em) { zeroTrace = nullptr; zeroIdx = 0; expand(sk, P.Nwd, P.Nwd, P.R); base = zeroIdx; } zeroTrace = &z; zeroIdx = 0; memcpy(pk, sk, P.insz()); owf(P, sk + P.insz(), sk, pk + P.insz()); zeroTrace = nullptr; std::vector<unsigned> r; for (unsigned x : z) if (x >= base) r.push_back(x - base); return r; }
static unsigned npos(const Params& P) { return (P.em ? 0 : P.Ske) + P.beta * 4 * (P.em ? P.Nwd : 4) * P.R; }
// a key whose only zero S-box input is at position p: seeded search, all positions of residue class p % mod at once
struct Bad { Bytes sk, pk; unsigned p; };
static std::vector<Bad> badKeys(const Params& P, unsigned part, unsigned mod, uint64_t seed) {
  std::vector<Bad> r; unsigned n = npos(P), need = 0; for (unsigned i = part; i < n; i += mod) need++; std::vector<char> hit(n, 0); Rng g(seed * 1000 + part + P.id * 100000); Bytes sk(P.sk), pk(P.pk);
  for (unsigned it = 0; it < 400000 && r.size() < need; it++) { g.fill(sk.data(), P.sk); auto z = zeroPos(P, sk.data(), pk.data()); if (z.size() != 1 || z[0] % mod != part || hit[z[0]]) continue; hit[z[0]] = 1; r.push_back({sk, pk, z[0]}); }
  if (r.size() != need) throw Violation{fmt("generator reached %zu of %u positions", r.size(), need)}; return r; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 120; bool lite = getenv("LITE") != nullptr;
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Api& A = API[pi]; const unsigned mod = 16;
      auto kg = [&](const Bytes& st, size_t validAt, const std::string& what) { stream = st; off = 0; draws = 0; Bytes sk(P.sk + 32, 0xC3), pk(P.pk + 32, 0xC3); int r = A.keygen(pk.data(), sk.data()); CHECK(r == 0, "keygen returned %d (%s)", r, what.c_str()); Bytes wp(P.pk); keyFrom(P, &st[validAt], wp.data());
        CHECK(!memcmp(sk.data(), &st[validAt], P.sk), "keygen's secret key is not the first valid draw (%s): %s", what.c_str(), hex(sk.data(), P.sk).c_str()); CHECK(!memcmp(pk.data(), wp.data(), P.pk), "keygen's public key is not the one-way function of its secret key (%s)", what.c_str()); for (int i = 0; i < 32; i++) CHECK(sk[P.sk + i] == 0xC3 && pk[P.pk + i] == 0xC3, "keygen writes past its buffers");
        CHECK(off == validAt + P.sk, "keygen used %zu random bytes, expected %zu (%s)", off, validAt + P.sk, what.c_str()); H.eval(fnv(st.data(), std::min(st.size(), validAt + P.sk), pi)); H.count("keygens"); };
      auto val = [&](const Bytes& pk, const Bytes& sk, int want, const char* what, unsigned k) { Bytes p(pk), s(sk); int r = A.validate(p.data(), s.data()); CHECK(r == want, "validate returned %d instead of %d: %s %u (sk %s)", r, want, what, k, hex(sk.data(), sk.size()).c_str()); CHECK(p == pk && s == sk, "validate changes its input"); H.count("validations"); };
      for (unsigned part = 0; part < mod; part++) { if (lite && part != pi) continue; H.run(fmt("%s zero S-box input at positions = %u mod %u", P.name, part, mod), [&] {
        Bytes sig(P.sig), m = msg(10, 1), rho = msg(P.lb(), 2); Rng g(part); Bytes gsk, gpk;
        for (unsigned rep = 0; rep < (H.thorough ? 6u : 1u); rep++) { auto bad = badKeys(P, part, mod, H.seed + rep); Bytes st;
          for (auto& b : bad) {
            val(b.pk, b.sk, 1, "zero S-box input at position", b.p); Bytes q(b.pk); q[b.p % P.pk] ^= 1; val(q, b.sk, 1, "zero S-box input and different public key at position", b.p);
            for (int k = 0; k < 2; k++) { size_t sl = P.sig; std::fill(sig.begin(), sig.end(), 0xC3); int r = k ? A.sign(b.sk.data(), m.data(), m.size(), sig.data(), &sl) : A.signr(b.sk.data(), m.data(), m.size(), rho.data(), rho.size(), sig.data(), &sl); CHECK(r != 0, "%s accepts a secret key with a zero S-box input at position %u of %u (sk %s)", k ? "sign" : "sign_with_randomness", b.p, npos(P), hex(b.sk.data(), P.sk).c_str()); H.count("signings_refused"); }
            // key generation must skip this draw, alone and repeated 1..4 times
            validKey(P, g, gsk, gpk); for (unsigned n = 1; n <= (b.p % 8 == 0 || H.thorough ? 4u : 1u); n++) { Bytes s; for (unsigned i = 0; i < n; i++) s.insert(s.end(), b.sk.begin(), b.sk.end()); s.insert(s.end(), gsk.begin(), gsk.end()); kg(s, n * P.sk, fmt("%u draws with a zero S-box input at position %u, then a valid one", n, b.p)); }
            st.insert(st.end(), b.sk.begin(), b.sk.end()); H.distinct("positions", pi * 1000 + b.p); H.eval(fnv(b.sk.data(), P.sk, pi)); }
          validKey(P, g, gsk, gpk); size_t at = st.size(); st.insert(st.end(), gsk.begin(), gsk.end()); kg(st, at, "one draw per position, then a valid one"); } }); }
      for (unsigned k = 0; k < (H.thorough ? 400u : lite ? 8 : 64u); k++) H.run(fmt("%s key %u", P.name, k), [&] { Key key = gen::key(P, k, H.seed); val(key.pk, key.sk, 0, "valid pair", k); kg(key.sk, 0, "first draw valid");
        { Bytes p(P.pk + 16), s(P.sk + 16); unsigned a = k % 16; memcpy(&p[a], key.pk.data(), P.pk); memcpy(&s[(a * 5) % 16], key.sk.data(), P.sk); CHECK(A.validate(&p[a], &s[(a * 5) % 16]) == 0, "valid pair refused at alignment %u", a); }
        bool all = k < 4 || (H.thorough && k < 40);
        for (unsigned b = 0; b < 8 * P.pk; b += all ? 1 : 13) { Bytes p(key.pk); p[b / 8] ^= 1 << (b % 8); val(p, key.sk, 2, "public key bit", b); }
        for (unsigned b = 0; b < 8 * P.sk; b += all ? 1 : 13) { Bytes s(key.sk), p(P.pk); s[b / 8] ^= 1 << (b % 8); bool ok = keyFrom(P, s.data(), p.data()); val(key.pk, s, !ok ? 1 : p == key.pk ? 0 : 2, "secret key bit", b); }
        for (unsigned n = 0; n <= P.pk; n += all ? 1 : 5) { Bytes p(key.pk); std::fill(p.begin() + n, p.end(), 0); if (p != key.pk) val(p, key.sk, 2, "public key cut after byte", n); p = key.pk; std::fill(p.begin(), p.begin() + n, 0xff); if (p != key.pk) val(p, key.sk, 2, "public key set before byte", n); }
        if (k < (lite ? 2u : 8u) || H.thorough) diffs(key.pk, [&](const Bytes& p, const std::string& s) { val(p, key.sk, 2, s.c_str(), k); });
        Key o = gen::key(P, k + 1, H.seed); if (o.pk != key.pk) val(o.pk, key.sk, 2, "another key's public key", k);
        CHECK(A.validate(nullptr, key.sk.data()) < 0 && A.validate(key.pk.data(), nullptr) < 0 && A.validate(nullptr, nullptr) < 0, "null arguments"); });
      // pseudo-random keys: the decision equals the model's
      for (unsigned k = 0; k < (H.thorough ? 256u : 16u); k++) H.run(fmt("%s pseudo-random keys %u", P.name, k), [&] { Rng g(H.seed * 31 + k * 17 + pi); Bytes sk(P.sk), pk(P.pk); for (int i = 0; i < (lite ? 4 : 40); i++) { g.fill(sk.data(), P.sk); bool ok = keyFrom(P, sk.data(), pk.data()); val(pk, sk, ok ? 0 : 1, "pseudo-random key", i); H.eval(fnv(sk.data(), P.sk, pi)); if (!ok) { Bytes s2; Rng g2(i); Bytes gs, gp; validKey(P, g2, gs, gp); s2 = sk; s2.insert(s2.end(), gs.begin(), gs.end()); kg(s2, P.sk, "invalid then valid"); } } });
      for (int v = 0; v < 256; v += lite ? 51 : 1) H.run(fmt("%s constant key %d", P.name, v), [&] { Bytes sk(P.sk, v), pk(P.pk); bool ok = keyFrom(P, sk.data(), pk.data()); val(pk, sk, ok ? 0 : 1, "constant key", v); Bytes s2 = sk; Rng g2(v); Bytes gs, gp; validKey(P, g2, gs, gp); s2.insert(s2.end(), gs.begin(), gs.end()); kg(s2, ok ? 0 : P.sk, "constant draw"); }); }
  });
}
