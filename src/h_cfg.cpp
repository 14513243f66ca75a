// C19: one enumeration of calls, run by every build configuration; the first (reference) run records a
// digest per item, every other configuration must reproduce it.
#include "harness.hpp"
#include "ops.hpp"
#include <unordered_map>
#ifndef SHARED
#include "aes.h"
#endif
using namespace ref; using namespace gen;
#ifdef SHARED
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) { if (ops::source((uint8_t*)p, n)) { errno = EIO; return -1; } return n; }
extern "C" int getentropy(void* p, size_t n) { if (ops::source((uint8_t*)p, n)) { errno = EIO; return -1; } return 0; }
#else
extern "C" int rand_bytes(uint8_t* p, size_t n) { return ops::source(p, n); }
#endif
static std::unordered_map<u64, u64> tab; static int genfd = -1;
static void item(Harness& H, const std::string& label, u64 v) { u64 k = fnvs(label); H.eval(k ^ v * 31); H.count("items"); if (genfd >= 0) { u64 e[2] = {k, v}; if (write(genfd, e, 16) != 16) throw Violation{"cannot write the table"}; return; } auto it = tab.find(k); CHECK(it != tab.end(), "%s: the reference configuration gave no result", label.c_str()); CHECK(it->second == v, "%s: result differs from the reference configuration's", label.c_str()); }
static u64 fp(const ops::Result& r) { return fnv(r.out.data(), r.out.size(), r.ret + 7); }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 300; const char* w = getenv("WEIGHT"); int W = w ? atoi(w) : 0; // 0: everything; larger: fewer of the expensive items
  if (getenv("GEN")) genfd = open(getenv("GEN"), O_WRONLY | O_CREAT | O_APPEND, 0600); else { FILE* f = fopen(getenv("TABLE"), "r"); u64 e[2]; while (f && fread(e, 16, 1, f) == 1) tab[e[0]] = e[1]; if (f) fclose(f); }
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P), heavy = fast ? W < 2 || P.lambda == 128 : W < 1 || (P.lambda == 128 && W < 2); std::string N = P.name;
      for (unsigned k = 0; k < 16; k++) H.run(fmt("%s keys %u", P.name, k), [&, k] { for (unsigned i = 0; i < (W ? 6u : 30u); i++) { ops::Rand r; r.salt = k * 100 + i; if (i == 3) { Rng g(k); r.script = g.bytes(3 * P.sk); } ops::R = &r; Bytes pk(P.pk), sk(P.sk); int rc = API[pi].keygen(pk.data(), sk.data()); ops::R = nullptr; item(H, N + fmt(" keygen %u %u", k, i), fnv(pk.data(), P.pk, fnv(sk.data(), P.sk, rc)) + r.calls); Bytes z(P.sk); Rng g(k * 31 + i); g.fill(z.data(), P.sk); int v = API[pi].validate(pk.data(), z.data()); memcpy(z.data(), sk.data(), P.insz()); int v2 = API[pi].validate(pk.data(), z.data()), v3 = API[pi].validate(pk.data(), sk.data()); item(H, N + fmt(" validate %u %u", k, i), (u64)(v & 15) | (u64)(v2 & 15) << 4 | (u64)(v3 & 15) << 8); } });
      if (!heavy && !H.thorough) continue;
      std::vector<size_t> ml = {0, 1, 57, 135, 136, 167, 168, 169, 1000}; std::vector<size_t> rl = {0, 1, P.lb(), 64, 300}; if (W >= 2) { ml = {0, 168}; rl = {0, P.lb()}; } else if (W == 1 || !fast) { ml = {0, 57, 136, 168, 1000}; rl = {0, P.lb(), 300}; }
      for (size_t m : ml) for (size_t r : rl) { if (!fast && (m + r + pi) % 3 && !H.thorough) continue; if (W >= 2 && !!m != !!r) continue; H.run(fmt("%s sign %zu %zu", P.name, m, r), [&] { Key k = key(P, (m + r) % 12); Bytes M = msg(m, pi), rho = msg(r, 3), s(P.sig); size_t l = P.sig; int rc = API[pi].signr(k.sk.data(), M.data(), m, r ? rho.data() : nullptr, r, s.data(), &l); item(H, N + fmt(" sign %zu %zu", m, r), fnv(s.data(), P.sig, rc + l)); item(H, N + fmt(" verify %zu %zu", m, r), API[pi].verify(k.pk.data(), M.data(), m, s.data(), l)); if (W < 2) { s[(m * 7 + r * 13) % P.sig] ^= 1 << (m % 8); item(H, N + fmt(" reject %zu %zu", m, r), API[pi].verify(k.pk.data(), M.data(), m, s.data(), l)); } }); }
      if (W < 2 && (fast || W < 1)) { static std::map<unsigned, std::vector<ops::Op>> al; size_t n = ops::alphabet(pi, 0).size(); for (size_t i = 0; i < n; i++) H.run(fmt("%s operation %zu", P.name, i), [&] { auto& v = al[pi]; if (v.empty()) { v = ops::alphabet(pi, fast && W == 0 ? 1 : 0); } item(H, "op " + v[i].name, fp(v[i].f())); }); 
        if (fast && W == 0) for (size_t i = n; i < n + 26; i++) H.run(fmt("%s operation %zu", P.name, i), [&] { auto& v = al[pi]; if (v.empty()) v = ops::alphabet(pi, 1); if (i < v.size()) item(H, "op " + v[i].name, fp(v[i].f())); }); }
    }
#ifndef SHARED
    // seed expansion
    auto IV = ivs(); for (unsigned lam : {128u, 192u, 256u}) for (size_t iv = 0; iv < IV.size(); iv++) { if (W >= 2 && iv % 8) continue; H.run(fmt("prg %u iv %zu", lam, iv), [&] { Bytes key = msg(32, lam); std::vector<size_t> ls; for (size_t i = 0; i < (W ? 70u : 280u); i++) ls.push_back(i); for (size_t i : {511, 512, 513, 1000, 4096, 4097, 5000}) ls.push_back(i); for (size_t L : ls) { Bytes o(L + 16, 0xC3); prg(key.data(), IV[iv].data(), o.data(), lam, L); item(H, fmt("prg %u %zu %zu", lam, iv, L), fnv(o.data(), o.size())); } }); }
#endif
  });
}
