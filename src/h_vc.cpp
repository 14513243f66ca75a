// C12: vector commitments. Every depth in use, every hidden position, single-node faults, against the model.
#include "gen.hpp"
#include "harness.hpp"
#include "instances.h"
#include "vc.h"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
struct Combo { unsigned pi, depth; };
static const Params& Pof(unsigned pi) { return ALL[pi]; }
struct Com { VC v; vec_com_t c; Bytes root, iv; unsigned pi, depth; };
static faest_paramset_t par(unsigned pi) { return faest_get_paramset((faest_paramid_t)ALL[pi].id); }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 200; bool lite = getenv("LITE") != nullptr;
  return H.main([&](Harness& H) {
    std::vector<Combo> cs; for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; if (P.em && pi != 7) continue; cs.push_back({pi, P.k0}); if (P.k1 != P.k0 && P.t1) cs.push_back({pi, P.k1}); }
    std::vector<Bytes> IV = ivs(); std::vector<Bytes> ivsel; for (size_t i = 0; i < IV.size(); i += H.thorough ? 2 : 8) ivsel.push_back(IV[i]); ivsel.push_back(IV[1]);
    auto mk = [&](Com& C, unsigned pi, unsigned depth, const Bytes& root, const Bytes& iv) { C.pi = pi; C.depth = depth; C.root = root; C.iv = iv; C.v = vcCommit(ALL[pi].lambda, root.data(), iv.data(), depth); faest_paramset_t p = par(pi); memset(&C.c, 0, sizeof C.c); vector_commitment(root.data(), iv.data(), &p, ALL[pi].lambda, &C.c, depth); };
    auto eq = [&](const uint8_t* a, const uint8_t* b, size_t n, const char* what, unsigned el) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) CHECK(false, "%s differs from the specified value at entry %zu byte %zu", what, i / el, i % el); };
    for (auto& c : cs) { const Params& P = ALL[c.pi]; const unsigned lb = P.lb(); size_t n = size_t(1) << c.depth; bool deep = c.depth > 8;
      // commitments for many roots and initialisation vectors
      unsigned nr = lite ? 1 : H.thorough ? 12 : deep ? 2 : 6;
      for (unsigned r = 0; r < nr; r++) for (size_t q = 0; q < ivsel.size(); q++) { if (lite && q % 8 != 1) continue; if (deep && !H.thorough && (q + r) % 4) continue; H.run(fmt("%s depth %u commit root %u iv %zu", P.name, c.depth, r, q), [&] {
        Com C; Bytes root = r == 0 ? Bytes(lb, 0) : r == 1 ? Bytes(lb, 0xff) : msg(lb, r); mk(C, c.pi, c.depth, root, ivsel[q]); 
        eq(C.c.k, C.v.k.data(), C.v.k.size(), "tree node", lb); eq(C.c.sd, C.v.sd.data(), C.v.sd.size(), "leaf seed", lb); eq(C.c.com, C.v.com.data(), C.v.com.size(), "leaf commitment", 2 * lb); eq(C.c.h, C.v.h.data(), 2 * lb, "commitment digest", 2 * lb);
        vec_com_clear(&C.c); H.eval(fnv(C.v.h.data(), 2 * lb, c.depth)); H.count("commitments"); }); }
      // every hidden position
      size_t per = deep ? 32 : 8, step = lite ? (deep ? 409 : 37) : deep && !H.thorough && P.lambda > 128 ? 2 : 1;
      for (unsigned rr = 0; rr < (H.thorough ? 3u : deep ? 1u : 2u); rr++)
      for (size_t s = 0; s < n; s += per * step) H.run(fmt("%s depth %u tree %u positions from %zu", P.name, c.depth, rr, s), [&] {
        static std::map<unsigned, Com> cache; unsigned key_ = c.pi * 100 + c.depth * 4 + rr; if (!cache.count(key_)) mk(cache[key_], c.pi, c.depth, msg(lb, 5 + rr), rr ? IV[1] : msg(16, 6)); Com& C = cache[key_];
        for (size_t j0 = s; j0 < std::min(s + per * step, n); j0 += step) { size_t j = step > 1 && j0 + step >= n ? n - 1 : j0;
          uint8_t b[16]; CHECK(BitDec(j, c.depth, b) == 1, "BitDec failed"); for (unsigned i = 0; i < c.depth; i++) CHECK(b[i] == ((j >> i) & 1), "BitDec(%zu) bit %u is %d", j, i, b[i]); CHECK(NumRec(c.depth, b) == j, "NumRec is not inverse to BitDec at %zu", j);
          Bytes cop(c.depth * lb + 32, 0xC3), cj(2 * lb + 32, 0xC3); vector_open(C.c.k, C.c.com, b, cop.data(), cj.data(), c.depth, lb);
          Bytes want = vcOpen(C.v, j); eq(cop.data(), want.data(), want.size(), "opening node", lb); eq(cj.data(), &C.v.com[2 * j * lb], 2 * lb, "hidden leaf commitment", 2 * lb);
          for (int i = 0; i < 32; i++) CHECK(cop[c.depth * lb + i] == 0xC3 && cj[2 * lb + i] == 0xC3, "opening writes past its end");
          for (unsigned d = 0; d <= c.depth; d++) { size_t anc = (size_t(1) << d) - 1 + (j >> (c.depth - d)); for (unsigned i = 0; i < c.depth; i++) CHECK(memcmp(&cop[i * lb], C.v.node(anc), lb), "opening for %zu contains its ancestor at level %u", j, d); }
          vec_com_rec_t rec; memset(&rec, 0, sizeof rec); int v = vector_verify(C.iv.data(), cop.data(), cj.data(), b, P.lambda, c.depth, &rec, C.c.h); CHECK(v == 1, "honest opening of position %zu rejected", j);
          for (size_t x = 0; x < n; x++) if (x != j) { if (memcmp(rec.s + x * lb, &C.v.sd[x * lb], lb)) CHECK(false, "opening %zu: seed of leaf %zu wrong", j, x); if (memcmp(rec.com + 2 * x * lb, &C.v.com[2 * x * lb], 2 * lb)) CHECK(false, "opening %zu: commitment of leaf %zu wrong", j, x); }
          CHECK(!memcmp(rec.h, C.v.h.data(), 2 * lb), "opening %zu: digest wrong", j); vec_com_rec_clear(&rec);
          H.eval(fnv(want.data(), want.size(), j)); H.count("positions_opened");
          // single faults
          auto rej = [&](const char* what, unsigned k, const uint8_t* iv, const uint8_t* pd, const uint8_t* cjp, const uint8_t* bb, const uint8_t* h) { H.count("faults"); CHECK(vector_verify(iv, pd, cjp, bb, P.lambda, c.depth, nullptr, h) == 0, "position %zu: opening with a changed %s (%u) accepted", j, what, k); };
          if (!deep || j % (H.thorough ? 16 : 256) == 5) {
            bool all = H.thorough || j % 16 == 3;
            for (unsigned d = 0; d < c.depth; d++) { Bytes x(cop); for (unsigned bt : {0u, P.lambda - 1}) { if (!all && bt) continue; unsigned q = all ? bt : (j * 37 + d * 11) % P.lambda; x[d * lb + q / 8] ^= 1 << (q % 8); rej("node", d, C.iv.data(), x.data(), cj.data(), b, C.c.h); x[d * lb + q / 8] ^= 1 << (q % 8); } }
            for (unsigned q = 0; q < 2 * P.lambda; q += all ? 15 : 101) { Bytes x(cj); unsigned z = (q + j) % (2 * P.lambda); x[z / 8] ^= 1 << (z % 8); rej("leaf commitment", z, C.iv.data(), cop.data(), x.data(), b, C.c.h); Bytes h(C.c.h, C.c.h + 2 * lb); h[z / 8] ^= 1 << (z % 8); rej("digest", z, C.iv.data(), cop.data(), cj.data(), b, h.data()); }
            for (unsigned q = 0; q < 128; q += all ? 7 : 41) { Bytes x(C.iv); unsigned z = (q + j) % 128; x[z / 8] ^= 1 << (z % 8); rej("iv", z, x.data(), cop.data(), cj.data(), b, C.c.h); }
            for (unsigned q = 0; q < c.depth; q++) { uint8_t b2[16]; memcpy(b2, b, 16); b2[q] ^= 1; rej("position bit", q, C.iv.data(), cop.data(), cj.data(), b2, C.c.h); }
          } } });
      H.run(fmt("%s depth %u encodings", P.name, c.depth), [&] { uint8_t b[16]; for (size_t j = n; j < n + 5; j++) CHECK(BitDec(j, c.depth, b) == -1, "BitDec accepts the out-of-range index %zu", j);
        for (unsigned d = 0; d <= c.depth; d++) for (size_t i = 0; i < (size_t(1) << d); i++) { CHECK(getNodeIndex(d, i) == (size_t(1) << d) - 1 + i, "getNodeIndex(%u,%zu)", d, i); H.eval(d * 100000 + i); } });
    }
  });
}
