// C01 (signatures verify) and C02 (signatures equal the reference signatures).
#include "oracle.hpp"
#include "gen.hpp"
#include "guard.hpp"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { static uint64_t c = 0; Rng g(++c + 99); g.fill(p, n); return 0; }
static bool cmpRef; // C02
static void one(Harness& H, unsigned pi, const Key& k, const Bytes& m, const Bytes& rho, bool rhoNull, const std::string& lab, const Tap& rtap = nullptr, const oracle::Tap& otap = nullptr) {
  const Params& P = ALL[pi]; const Api& A = API[pi]; oracle::reset(); Bytes sig(P.sig, 0xA5); size_t sl = P.sig;
  if (otap) { oracle::prog = otap; oracle::record = true; }
  int r = A.signr(k.sk.data(), m.empty() ? nullptr : m.data(), m.size(), rhoNull ? nullptr : rho.data(), rho.size(), sig.data(), &sl);
  CHECK(r == 0, "sign returned %d", r); CHECK(sl == P.sig, "signature length %zu, expected %u", sl, P.sig);
  unsigned np = oracle::nprog; if (otap) { oracle::prog = nullptr; H.count("oracle_answers_programmed", np); }
  if (cmpRef) {
    if (otap && !np) return; // interposition not effective: nothing to compare
    Bytes want = ref::sign(P, k.sk.data(), m.data(), m.size(), rho.data(), rho.size(), rtap);
    if (want != sig) { size_t i = 0; while (want[i] == sig[i]) i++; CHECK(false, "%s: signature differs from the specified one first at byte %zu (sk=%s mlen=%zu rho=%s)", lab.c_str(), i, hex(k.sk.data(), k.sk.size()).c_str(), m.size(), hex(rho.data(), rho.size()).c_str()); }
  } else {
    int v = A.verify(k.pk.data(), m.empty() ? nullptr : m.data(), m.size(), sig.data(), sl);
    CHECK(v == 0, "%s: honest signature rejected (%d) (sk=%s mlen=%zu rho=%s)", lab.c_str(), v, hex(k.sk.data(), k.sk.size()).c_str(), m.size(), hex(rho.data(), rho.size()).c_str());
  }
  oracle::reset(); H.eval(fnv(sig.data(), sig.size(), pi + 1)); H.count(std::string("signatures_") + P.name);
}
int main(int argc, char** argv) {
  Harness H(argc, argv); const char* pt = getenv("PART"); std::string part = pt ? pt : "api"; cmpRef = getenv("CMPREF") != nullptr; double scale = getenv("SCALE") ? atof(getenv("SCALE")) : 1; H.caseLimit = 240;
  return H.main([&](Harness& H) {
    if (part == "api" && scale == 1) for (unsigned pi : {1u, 9u, 3u, 5u}) { if (pi != 1 && !H.thorough) continue; const Params& P = ALL[pi]; // lengths that do not fit in 32 bits
      for (int v = 0; v < 2; v++) { if (!cmpRef && v && !H.thorough) continue; H.run(fmt("%s %s of more than 4 GiB", P.name, v ? "randomness" : "message"), [&] { size_t L = ((size_t)1 << 32) + 5; Bytes w = msg(Big::WIN, 5); Big m(L, w.data()); if (!m.p) { H.note("cannot map 4 GiB"); return; } Key k = key(P, 9, H.seed); Bytes s(P.sig), t(P.sig), o = msg(20, 7); size_t sl = P.sig;
        auto sg = [&](size_t n, Bytes& sig) { int r = v ? API[pi].signr(k.sk.data(), o.data(), o.size(), m.p, n, sig.data(), &sl) : API[pi].signr(k.sk.data(), m.p, n, o.data(), o.size(), sig.data(), &sl); CHECK(r == 0 && sl == P.sig, "sign failed"); };
        sg(L, s); H.eval(fnv(s.data(), s.size(), pi)); if (cmpRef) { sg(5, t); CHECK(s != t, "the same signature for a %s of 2^32+5 bytes and for its first 5 bytes", v ? "randomness" : "message"); if (H.thorough) { m.p[L - 1] ^= 1; sg(L, t); CHECK(s != t, "the last of 2^32+5 bytes is ignored"); } }
        else CHECK(API[pi].verify(k.pk.data(), v ? o.data() : m.p, v ? o.size() : L, s.data(), P.sig) == 0, "honest signature rejected"); }); } }
    for (unsigned pi0 = 0; pi0 < 12; pi0++) { static const unsigned ord[12] = {4, 10, 8, 2, 0, 6, 5, 11, 9, 3, 7, 1}; unsigned pi = ord[pi0]; const Params& P = ALL[pi]; bool fast = isFast(P);
      if (part == "api") {
        // message lengths: around every multiple of the sponge rate and of the block sizes
        size_t rate = P.lambda == 128 ? 168 : 136; std::vector<size_t> ml; size_t maxl = H.thorough ? 1100 : 2 * rate + 20;
        auto nth = [&](size_t n, size_t st) { for (size_t i = 0; i < n; i += st) ml.push_back(i); };
        if (fast) nth(maxl, H.thorough ? 1 : P.lambda == 128 ? 1 : P.lambda == 192 ? 2 : 3); else { size_t st = H.thorough ? 8 : P.lambda == 128 ? 24 : 48; nth(maxl, st); }
        for (size_t q = 1; q <= 2; q++) for (int d = -1; d <= 1; d++) { long x = (long)(q * rate) - (long)P.pk + d; if (x >= 0 && (fast || d >= 0)) ml.push_back(x); } // hash block boundary after the public key prefix
        for (size_t big : {(size_t)1023, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)1 << 20}) if (fast || big == 65537) ml.push_back(big);
        std::sort(ml.begin(), ml.end()); ml.erase(std::unique(ml.begin(), ml.end()), ml.end());
        unsigned n = 0;
        for (size_t L : ml) { n++; if (scale < 1 && (n % (unsigned)(1 / scale))) continue;
          H.run(fmt("%s message length %zu", P.name, L), [&] { Key k = key(P, n % 24, H.seed); Bytes rho = msg(n % 5 == 0 ? 0 : P.lb(), n + 5); one(H, pi, k, msg(L, H.seed + 3), rho, n % 10 == 0, "message length"); }); }
        // randomness lengths
        size_t mr = fast ? (H.thorough ? 300 : P.lambda == 128 ? 72 : 40) : (H.thorough ? 40 : 4); size_t rs = H.thorough || fast ? 1 : 3;
        std::vector<size_t> rl; for (size_t i = 0; i <= mr; i += rs) rl.push_back(i);
        for (size_t x : {(size_t)64, (size_t)87, (size_t)88, (size_t)103, (size_t)104, (size_t)105, (size_t)136, (size_t)168, (size_t)255, (size_t)256, (size_t)257, (size_t)1000, (size_t)65536}) if (fast || x == 256) rl.push_back(x);
        std::sort(rl.begin(), rl.end()); rl.erase(std::unique(rl.begin(), rl.end()), rl.end());
        for (size_t R : rl) { n++; if (scale < 1 && (n % (unsigned)(1 / scale))) continue; H.run(fmt("%s randomness length %zu", P.name, R), [&] { one(H, pi, key(P, 8 + n % 16, H.seed), msg(n % 40, 9), msg(R, 21), R == 0 && n % 2, "randomness length"); }); }
        // structured message / randomness contents and keys
        unsigned nk = fast ? (H.thorough ? 200 : 24) : (H.thorough ? 24 : 3);
        for (unsigned i = 0; i < nk; i++) { n++; if (scale < 1 && (n % (unsigned)(1 / scale))) continue; H.run(fmt("%s key %u", P.name, i), [&] { Bytes m(i * 7 % 50, (u8)(i * 85)), rho(P.lb(), i & 1 ? 0xff : 0); one(H, pi, key(P, i, H.seed + 1), m, rho, false, "key"); }); }
      }
      if (part == "api") { auto rl = rels(P, H.thorough ? 4 : 8); unsigned n = 0; for (auto& r : rl) { n++; if (!fast && !H.thorough && r[0] < 16) continue; if (scale < 1 && n % 4) continue; H.run(fmt("%s key with equal words of %u at %u and %u", P.name, r[0], r[1], r[2]), [&] { Key K = relKey(P, r); if (!K.pk.empty()) one(H, pi, K, msg(30, r[1]), msg(P.lb(), r[2]), false, "related key"); }); }
        if (scale == 1) for (unsigned i = 0; i < (fast ? 9u : 2u); i++) H.run(fmt("%s related arguments %u", P.name, i), [&] { Key k = key(P, 12 + i); Bytes K(k.sk.begin() + P.insz(), k.sk.end()); one(H, pi, k, i % 3 == 0 ? k.pk : i % 3 == 1 ? K : k.sk, i / 3 == 0 ? K : i / 3 == 1 ? k.pk : k.sk, false, "message and randomness equal to key parts"); }); }
      if (part == "lite") { // slow configurations: one signature per small set with a counter that wraps, a few more for the smallest
        if (!fast && !H.thorough) continue; auto iv = ivs(); unsigned nl = H.thorough ? 4 : P.lambda == 128 ? 3 : 1;
        for (unsigned i = 0; i < nl; i++) H.run(fmt("%s lite %u", P.name, i), [&] { const Bytes& v = iv[i == 0 ? 1 : 17 * i % iv.size()]; Bytes rho = msg(P.lb(), i);
          one(H, pi, key(P, 8 + i, H.seed), msg(33 * i, 4), rho, false, "iv", [&](const char* s, unsigned, Bytes& b) { if (!strcmp(s, "iv")) b = v; }, [&](const char* s, Bytes& b) { if (!strcmp(s, "H3iv")) b = v; }); });
      }
      if (part == "oracle") {
        auto run = [&](const std::string& what, unsigned id, const char* stage, size_t len, const Bytes& val) {
          H.run(fmt("%s %s %u", P.name, what.c_str(), id), [&] { Key k = key(P, 8 + id % 8, H.seed); Bytes m = msg(id % 60, 4), rho = msg(P.lb(), id);
            bool isiv = !strcmp(stage, "H3iv"); std::string rs = isiv ? "iv" : len == P.lb() ? "chall3" : len == 5 * P.lb() + 8 ? "chall1" : "chall2";
            auto put = [&](Bytes& b) { for (size_t i = 0; i < b.size(); i++) b[i] = val[i % val.size()]; };
            one(H, pi, k, m, rho, false, what, [&](const char* s, unsigned, Bytes& b) { if (rs == s) put(b); }, [&](const char* s, Bytes& b) { if (!strcmp(s, stage) && b.size() == len) put(b); }); }); };
        auto iv = ivs(); unsigned id = 0;
        for (auto& v : iv) { id++; if (!fast && id % (H.thorough ? 4 : P.lambda == 128 ? 16 : 32)) continue; if (!H.thorough && fast && P.lambda > 128 && id % 2) continue; if (scale < 1 && (id % (unsigned)(1 / scale))) continue; run("iv", id, "H3iv", 16, v); }
        // opening positions: every (tree, position) pair when the trees are small
        size_t n = size_t(1) << P.depth(0), st = fast ? (H.thorough ? 1 : P.lambda == 256 ? 4 : 2) : (H.thorough ? 16 : P.lambda == 128 ? 256 : 512); if (scale < 1) st = (size_t)(st / scale);
        for (size_t p = 0; p < n; p += st) run("position", p, "H2", P.lb(), chalAt(P, [&](unsigned i) { return (p + i * 2654435761u % n) & ((size_t(1) << P.depth(i)) - 1); }));
        for (unsigned q = 0; q < 8; q++) run("boundary positions", q, "H2", P.lb(), chalAt(P, [&](unsigned i) { size_t n = size_t(1) << P.depth(i), v[10] = {1, 2, 3, 4, n / 2 - 1, n / 2, n - 5, n - 4, n - 2, n / 4}; return q < 4 ? v[2 * q + i % 2] : v[(i + q) % 10]; }));
        Bytes z(P.lb(), 0), o(P.lb(), 0xff); run("chall3 all zero", 0, "H2", P.lb(), z); run("chall3 all one", 1, "H2", P.lb(), o);
        unsigned sb = fast ? (H.thorough ? 1 : 16) : (H.thorough ? 16 : P.lambda / 2); if (scale < 1) sb *= (unsigned)(1 / scale);
        for (unsigned b = 0; b < P.lambda; b += sb) { Bytes c = z; c[b / 8] |= 1 << (b % 8); run("chall3 bit set", b, "H2", P.lb(), c); c = o; c[b / 8] ^= 1 << (b % 8); run("chall3 bit clear", b, "H2", P.lb(), c); }
        for (u8 v : {0x00, 0xff, 0x80, 0x01}) { Bytes b(1, v); run("chall1 pattern", v, "H2", 5 * P.lb() + 8, b); run("chall2 pattern", v, "H2", 3 * P.lb() + 8, b); if (!fast && !H.thorough) break; }
      }
    }
  });
}
