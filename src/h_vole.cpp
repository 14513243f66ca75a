// C13: VOLE commitment and reconstruction agree with the model and with each other for every challenge.
#include "gen.hpp"
#include "harness.hpp"
#include "instances.h"
#include "vc.h"
#include "vole.h"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
struct V { Bytes root, iv, hcom, c, u, vflat; std::vector<uint8_t*> v; std::vector<vec_com_t> vc; std::vector<Bytes> cols, us; };
static void commit(unsigned pi, V& S, const Bytes& root, const Bytes& iv) {
  const Params& P = ALL[pi]; faest_paramset_t p = faest_get_paramset((faest_paramid_t)P.id); unsigned eb = P.eb(); S.root = root; S.iv = iv; S.hcom.assign(2 * P.lb() + 16, 0xC3); S.c.assign(P.off_u() + 16, 0xC3); S.u.assign(eb + 16, 0xC3); S.vflat.assign(P.lambda * eb + 16, 0xC3); S.v.resize(P.lambda); for (unsigned i = 0; i < P.lambda; i++) S.v[i] = &S.vflat[i * eb]; S.vc.resize(P.tau); memset(S.vc.data(), 0, P.tau * sizeof(vec_com_t));
  vole_commit(root.data(), iv.data(), eb * 8, &p, S.hcom.data(), S.vc.data(), S.c.data(), S.u.data(), S.v.data());
  for (auto* x : {&S.hcom, &S.c, &S.u, &S.vflat}) for (int i = 0; i < 16; i++) CHECK((*x)[x->size() - 1 - i] == 0xC3, "vole_commit writes past an output");
  Bytes keys(P.tau * P.lb()); prg(root.data(), iv.data(), P.lambda, keys.data(), keys.size()); Shake hc = ref::H(P.lambda); S.us.resize(P.tau); S.cols.clear();
  for (unsigned i = 0; i < P.tau; i++) { VC x = vcCommit(P.lambda, &keys[i * P.lb()], iv.data(), P.depth(i)); hc.add(x.h); std::vector<Bytes> cl; convert(P.lambda, iv.data(), x.sd.data(), false, P.depth(i), eb, &S.us[i], cl); for (auto& q : cl) S.cols.push_back(q);
    CHECK(!memcmp(S.vc[i].sd, x.sd.data(), x.sd.size()), "tree %u: leaf seeds differ from the specified ones", i); }
  hc.add((u8)1); CHECK(!memcmp(hc.get(2 * P.lb()).data(), S.hcom.data(), 2 * P.lb()), "commitment digest differs from the specified one");
  CHECK(!memcmp(S.u.data(), S.us[0].data(), eb), "u differs from the specified one");
  for (unsigned i = 0; i < P.lambda; i++) if (memcmp(S.v[i], S.cols[i].data(), eb)) CHECK(false, "sender column %u differs from the specified one", i);
  for (unsigned i = 1; i < P.tau; i++) for (unsigned j = 0; j < eb; j++) if (S.c[(i - 1) * eb + j] != (S.us[0][j] ^ S.us[i][j])) CHECK(false, "correction %u byte %u is not u_0 xor u_%u", i, j, i);
}
static void freeV(V& S) { for (auto& x : S.vc) vec_com_clear(&x); S.vc.clear(); }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 200; bool lite = getenv("LITE") != nullptr;
  return H.main([&](Harness& H) {
    auto IV = ivs();
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); if (P.em && !fast && !H.thorough) continue; if (lite && (!fast || P.lambda > 128)) continue; unsigned eb = P.eb();
      for (unsigned r = 0; r < (lite ? 1u : fast ? (H.thorough ? 40u : 12u) : (H.thorough ? 8u : 2u)); r++) H.run(fmt("%s commit %u", P.name, r), [&] { V S; commit(pi, S, r == 0 ? Bytes(P.lb(), 0) : msg(P.lb(), r), r < 2 ? IV[r] : IV[(r * 13) % IV.size()]); freeV(S); H.eval(fnv(S.hcom.data(), 2 * P.lb(), pi)); });
      // challenges: every (tree, position) pair; structured and single-bit ones
      std::vector<std::pair<std::string, Bytes>> ch; size_t n = size_t(1) << P.k0, st = lite ? 64 : fast ? 1 : (H.thorough ? 4 : P.lambda == 128 ? 32 : 128); if (fast && !H.thorough && P.lambda == 256) st = P.em ? 4 : 2; if (fast && !H.thorough && P.em) st *= 2;
      for (size_t p = 0; p < n; p += st) ch.push_back({fmt("position %zu", p), chalAt(P, [&](unsigned i) { return (p + i * 2654435761u % n) & ((size_t(1) << P.depth(i)) - 1); })});
      for (int v : {0, 0xff, 0xaa, 0x55}) ch.push_back({fmt("all %02x", v), Bytes(P.lb(), v)});
      for (unsigned b = 0; b < P.lambda; b += lite ? 40 : fast ? 5 : 37) { Bytes c(P.lb(), 0); c[b / 8] |= 1 << (b % 8); ch.push_back({fmt("only bit %u", b), c}); for (auto& x : c) x = ~x; ch.push_back({fmt("all but bit %u", b), c}); }
      for (size_t q = 0; q < ch.size(); q++) H.run(fmt("%s challenge %s", P.name, ch[q].first.c_str()), [&] {
        static V S; static int cur = -1; if (cur != (int)pi) { if (cur >= 0) freeV(S); cur = -1; commit(pi, S, msg(P.lb(), 77), msg(16, 78)); cur = pi; }
        faest_paramset_t p = faest_get_paramset((faest_paramid_t)P.id); const Bytes& c = ch[q].second; std::vector<Bytes> pd(P.tau), cj(P.tau); std::vector<const uint8_t*> pp(P.tau), cc(P.tau); std::vector<size_t> D(P.tau);
        for (unsigned i = 0; i < P.tau; i++) { uint8_t b[16]; CHECK(ChalDec(c.data(), i, P.k0, P.t0, P.k1, P.t1, b) == 1, "ChalDec failed"); D[i] = chalIdx(P, c.data(), i); for (unsigned k = 0; k < P.depth(i); k++) CHECK(b[k] == ((D[i] >> k) & 1), "ChalDec tree %u bit %u wrong", i, k);
          pd[i].assign(P.depth(i) * P.lb(), 0); cj[i].assign(2 * P.lb(), 0); vector_open(S.vc[i].k, S.vc[i].com, b, pd[i].data(), cj[i].data(), P.depth(i), P.lb()); pp[i] = pd[i].data(); cc[i] = cj[i].data(); }
        uint8_t b[16]; for (unsigned i = P.tau; i < P.tau + 3; i++) CHECK(ChalDec(c.data(), i, P.k0, P.t0, P.k1, P.t1, b) == 0, "ChalDec accepts tree index %u", i);
        Bytes hc(2 * P.lb()), qf(P.lambda * eb + 16, 0xC3); std::vector<uint8_t*> Q(P.lambda); for (unsigned i = 0; i < P.lambda; i++) Q[i] = &qf[i * eb];
        vole_reconstruct(S.iv.data(), c.data(), pp.data(), cc.data(), hc.data(), Q.data(), eb * 8, &p); for (int i = 0; i < 16; i++) CHECK(qf[P.lambda * eb + i] == 0xC3, "vole_reconstruct writes past its output");
        CHECK(!memcmp(hc.data(), S.hcom.data(), 2 * P.lb()), "receiver's commitment digest differs from the sender's");
        for (unsigned i = 0, col = 0; i < P.tau; i++) for (unsigned k = 0; k < P.depth(i); k++, col++) for (unsigned j = 0; j < eb; j++) { u8 w = S.cols[col][j] ^ (((D[i] >> k) & 1) ? S.us[i][j] : 0); if (Q[col][j] != w) CHECK(false, "tree %u, column %u, byte %u: q != v + delta*u (position %zu)", i, col, j, D[i]); }
        H.eval(fnv(qf.data(), qf.size(), pi)); H.count("challenges"); H.count("columns", P.lambda); });
    }
    // the conversion itself for every output length
    for (unsigned pi : {1u, 3u, 5u}) { const Params& P = ALL[pi]; for (unsigned depth : {8u}) for (size_t L0 = 1; L0 <= (lite ? 40u : 340u); L0 += 20) H.run(fmt("convert %u lengths from %zu", P.lambda, L0), [&] { for (size_t L = L0; L < L0 + 20; L += P.lambda == 128 || H.thorough ? 1 : 3) {
          Bytes sd = msg((size_t(1) << depth) * P.lb(), L), iv = IV[L % IV.size()]; for (int bot = 0; bot < 2; bot++) { Bytes u(L + 8, 0xC3), v(depth * L + 8, 0xC3), ru; std::vector<Bytes> cl; ConvertToVole(iv.data(), sd.data(), bot, P.lambda, depth, L, bot ? nullptr : u.data(), v.data()); convert(P.lambda, iv.data(), sd.data(), bot, depth, L, &ru, cl);
            for (unsigned k = 0; k < depth; k++) CHECK(!memcmp(&v[k * L], cl[k].data(), L), "column %u wrong for output length %zu", k, L); if (!bot) CHECK(!memcmp(u.data(), ru.data(), L), "u wrong for output length %zu", L); for (int i = 0; i < 8; i++) CHECK(v[depth * L + i] == 0xC3 && (bot || u[L + i] == 0xC3), "conversion writes past its outputs"); H.eval(fnv(v.data(), v.size(), L + bot)); } } }); }
  });
}
