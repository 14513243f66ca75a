// C07: argument combinations, capacities and buffer discipline of the public interface.
#include "gen.hpp"
#include "guard.hpp"
using namespace ref; using namespace gen;
static unsigned draws = 0;
extern "C" int rand_bytes(uint8_t* p, size_t n) { Rng g(12345 + draws++); g.fill(p, n); return 0; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 120;
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Api& A = API[pi]; bool fast = isFast(P);
      struct Base { Key k; Bytes m, rho, sig, rndsig; bool ok = false; }; static std::map<unsigned, Base> bs;
      auto base = [&]() -> Base& { Base& b = bs[pi]; if (!b.ok) { b.k = key(P, 9); b.m = msg(23, pi); b.rho = msg(P.lb(), 7); b.sig.resize(P.sig); size_t l = P.sig; CHECK(A.signr(b.k.sk.data(), b.m.data(), b.m.size(), b.rho.data(), b.rho.size(), b.sig.data(), &l) == 0, "base signature"); b.rndsig.resize(P.sig); l = P.sig; draws = 0; CHECK(A.sign(b.k.sk.data(), b.m.data(), b.m.size(), b.rndsig.data(), &l) == 0, "base signature"); b.ok = true; } return b; };
      H.run(fmt("%s keygen and validate: null combinations", P.name), [&] { Base& b = base(); for (int c = 0; c < 4; c++) for (int e = 0; e < 2; e++) { Guard pk(P.pk, e), sk(P.sk, e); int r = A.keygen(c & 1 ? nullptr : pk.p, c & 2 ? nullptr : sk.p); if (c) { CHECK(r == -1, "keygen with null arguments (%d) returned %d", c, r); CHECK(pk.untouched() && sk.untouched(), "refused keygen writes (%d)", c); } else { CHECK(r == 0, "keygen returned %d", r); CHECK(pk.clean() && sk.clean(), "keygen writes outside its buffers"); CHECK(A.validate(pk.p, sk.p) == 0, "generated pair"); }
          Guard p2(P.pk, e, b.k.pk.data(), true), s2(P.sk, e, b.k.sk.data(), true); r = A.validate(c & 1 ? nullptr : p2.p, c & 2 ? nullptr : s2.p); CHECK(c ? r == -1 : r == 0, "validate with null arguments (%d) returned %d", c, r); H.eval(c * 2 + e + pi * 100); } });
      // sign: every combination of null pointers and capacities
      std::vector<size_t> caps; for (size_t c : {(size_t)0, (size_t)1, (size_t)16, P.sig / 2, P.sig - 16, P.sig - 1, P.sig, P.sig + 1, P.sig + 4096, (size_t)0x80000000u, (size_t)0xffffffffu, ((size_t)1 << 32), ((size_t)1 << 32) + P.sig - 1, (size_t)-1}) caps.push_back(c);
      if (P.lambda == 128 && fast) for (size_t c = 0; c < P.sig; c += H.thorough ? 1 : 37) caps.push_back(c);
      for (size_t cap : caps) for (int rnd = 0; rnd < 2; rnd++) { H.run(fmt("%s %s capacity %zu", P.name, rnd ? "sign" : "sign_with_randomness", cap), [&] { Base& b = base();
        for (int c = 0; c < (rnd ? 16 : 64); c++) { bool nsk = c & 1, nsig = c & 2, nlen = c & 4, nmsg = c & 8, nrho = c & 16, zrho = c & 32; // null message: length zero; null randomness with its length or with zero
          size_t bl = nsig ? 0 : cap < P.sig ? cap : std::min(cap, (size_t)P.sig + 64); bool bad = nsk || nsig || nlen || cap < P.sig || (nrho && !zrho); if (!bad && !fast && !H.thorough && c && c != (rnd ? 8 : 16 + 32)) continue; if (!bad && cap > P.sig + 1 && c) continue;
          Guard sk(P.sk, c & 1, b.k.sk.data(), true), m(nmsg ? 0 : b.m.size(), true, b.m.data(), true), rho(zrho ? 0 : b.rho.size(), true, b.rho.data(), true), sig(bl, true); size_t sl = cap; const uint8_t *ps = nsk ? nullptr : sk.p, *pm = nmsg ? nullptr : m.p, *pr = nrho ? nullptr : rho.p;
          draws = 0; int r = rnd ? A.sign(ps, pm, m.n, nsig ? nullptr : sig.p, nlen ? nullptr : &sl) : A.signr(ps, pm, m.n, pr, zrho ? 0 : b.rho.size(), nsig ? nullptr : sig.p, nlen ? nullptr : &sl);
          if (bad) { CHECK(r == -1, "refusable arguments (sk %s, sig %s, len %s, msg %s, rho %s/%d, capacity %zu) returned %d", nsk ? "null" : "ok", nsig ? "null" : "ok", nlen ? "null" : "ok", nmsg ? "null" : "ok", nrho ? "null" : "ok", !zrho, cap, r); CHECK(sig.untouched(), "refused signing writes to the signature buffer (capacity %zu)", cap); CHECK(sl == cap, "refused signing changes the length from %zu to %zu", cap, sl); H.count("refused"); }
          else { CHECK(r == 0, "valid arguments (combination %d, capacity %zu) refused: %d", c, cap, r); CHECK(sl == P.sig, "length %zu", sl); for (size_t i = P.sig; i < bl; i++) CHECK(sig.p[i] == 0xC3, "bytes after the signature changed"); CHECK(sig.clean(), "writes outside the signature buffer");
            if (!nmsg && !nrho && !zrho) CHECK(!memcmp(sig.p, (rnd ? b.rndsig : b.sig).data(), P.sig), "result differs from the same call with other buffers"); CHECK(A.verify(b.k.pk.data(), pm, m.n, sig.p, P.sig) == 0, "signature does not verify"); H.count("accepted"); }
          H.eval(fnv(&c, sizeof c, cap * 64 + pi + rnd * 7)); } }); }
      // verify: null combinations and every kind of wrong length; the signature buffer has exactly the claimed size
      std::vector<size_t> ls; for (size_t l : {(size_t)0, (size_t)1, (size_t)15, (size_t)16, P.lb() + (size_t)16, P.sig / 2, P.sig - 33, P.sig - 32, P.sig - 16, P.sig - 2, P.sig - 1, P.sig + 1, P.sig + 2, P.sig + 16, P.sig + 4096, 2 * P.sig}) ls.push_back(l); for (auto& q : ALL) if (q.sig != P.sig) ls.push_back(q.sig); size_t st = H.thorough ? 1 : 11; for (size_t l = pi % st; l < P.sig + 300; l += st) if (l != P.sig) ls.push_back(l);
      for (size_t c = 0; c < ls.size(); c += 64) H.run(fmt("%s verify wrong lengths %zu", P.name, c), [&] { Base& b = base(); for (size_t i = c; i < std::min(c + 64, ls.size()); i++) { Guard s(ls[i], true); memcpy(s.p, b.sig.data(), std::min((size_t)P.sig, ls[i])); int r = A.verify(b.k.pk.data(), b.m.data(), b.m.size(), s.p, ls[i]); CHECK(r == -1, "signature of length %zu: verify returned %d", ls[i], r); H.eval(ls[i] + pi * 100003); H.count("refused"); } for (size_t huge : {(size_t)-1, ((size_t)1 << 32) + P.sig, ((size_t)1 << 31) + P.sig, ((size_t)1 << 16) + P.sig, ((size_t)1 << 63) + P.sig, ((size_t)0 - P.sig)}) CHECK(A.verify(b.k.pk.data(), b.m.data(), b.m.size(), b.sig.data(), huge) == -1, "claimed length %zu accepted", huge); });
      H.run(fmt("%s verify null combinations and read-only inputs", P.name), [&] { Base& b = base(); for (int c = 0; c < 8; c++) for (int e = 0; e < 2; e++) { bool npk = c & 1, ns = c & 2, nm = c & 4; Guard pk(P.pk, e, b.k.pk.data(), true), s(P.sig, e, b.sig.data(), true), m(nm ? 0 : b.m.size(), e, b.m.data(), true); int r = A.verify(npk ? nullptr : pk.p, nm ? nullptr : m.p, m.n, ns ? nullptr : s.p, P.sig); CHECK((r == 0) == (c == 0), "verify with null combination %d returned %d", c, r); if (npk || ns) CHECK(r == -1, "verify with null combination %d returned %d", c, r); H.eval(c * 2 + e + 5000 + pi * 100003); } });
      // equal and nested input buffers, read-only, ending at an inaccessible page
      for (int e = 0; e < 2; e++) for (int v = 0; v < 6; v++) { if (!fast && !H.thorough && v) continue; H.run(fmt("%s shared input buffers %d/%d", P.name, v, e), [&] { Base& b = base(); Guard sk(P.sk, e, b.k.sk.data(), true); const uint8_t* m = v < 3 ? sk.p : sk.p + 3; size_t ml = v == 0 ? P.sk : v == 1 ? 1 : v == 2 ? P.sk - 1 : P.sk - 3; const uint8_t* rho = v & 1 ? m : sk.p + P.sk - P.lb(); size_t rl = v & 1 ? ml : v == 4 ? 0 : P.lb(); Bytes mc(m, m + ml), rc(rho, rho + rl), s1(P.sig), s2(P.sig); size_t l1 = P.sig, l2 = P.sig; int r1 = A.signr(sk.p, m, ml, rho, rl, s1.data(), &l1), r2 = A.signr(b.k.sk.data(), mc.data(), ml, rc.data(), rl, s2.data(), &l2); CHECK(r1 == 0 && r2 == 0, "sign returned %d/%d", r1, r2); CHECK(s1 == s2, "signature depends on where its inputs are stored (%d)", v);
          Guard pk(P.pk, e, b.k.pk.data(), true); Bytes pm(pk.p, pk.p + P.pk), s3(P.sig); CHECK(A.signr(sk.p, pm.data(), P.pk, rho, rl, s3.data(), &l1) == 0, "sign"); CHECK(A.verify(pk.p, pk.p, P.pk, s3.data(), P.sig) == 0, "verification with the public key as message and the same buffer"); Guard ro(P.sig, e, s3.data(), true); CHECK(A.verify(pk.p, pk.p, P.pk, ro.p, P.sig) == 0, "verification of a read-only signature"); CHECK(A.verify(pk.p, ro.p, P.sig, ro.p, P.sig) != 0, "message and signature in one buffer"); H.eval(v * 2 + e + 9000 + pi * 100003); }); }
      // the signature buffer's earlier contents and position do not matter
      for (unsigned a = 0; a < (fast ? 16u : H.thorough ? 16u : 2u); a++) H.run(fmt("%s signature buffer offset %u", P.name, a), [&] { Base& b = base(); Bytes buf(P.sig + 48, a & 1 ? 0x00 : 0xff); size_t l = P.sig; CHECK(A.signr(b.k.sk.data(), b.m.data(), b.m.size(), b.rho.data(), b.rho.size(), &buf[16 + a], &l) == 0, "sign"); CHECK(!memcmp(&buf[16 + a], b.sig.data(), P.sig), "signature depends on the contents or position of the output buffer (offset %u)", a); for (size_t i = 0; i < buf.size(); i++) if (i < 16 + a || i >= 16 + a + P.sig) CHECK(buf[i] == (a & 1 ? 0x00 : 0xff), "byte %ld relative to the signature changed", (long)i - 16 - a); H.eval(a + 12000 + pi * 100003); });
      H.run(fmt("%s invalid key", P.name), [&] { Rng g(pi); Bytes sk(P.sk), pk(P.pk); do g.fill(sk.data(), P.sk); while (keyFrom(P, sk.data(), pk.data())); Guard ro(P.sk, true, sk.data(), true); Base& b = base(); for (size_t cap : {(size_t)P.sig, (size_t)P.sig + 7}) { Guard sig(cap, true); size_t l = cap; int r = A.signr(ro.p, b.m.data(), b.m.size(), b.rho.data(), b.rho.size(), sig.p, &l); CHECK(r == -1, "invalid key: %d", r); CHECK(l == cap, "failed signing changes the length from %zu to %zu", cap, l); CHECK(sig.clean(), "writes outside"); r = A.sign(ro.p, b.m.data(), b.m.size(), sig.p, &l); CHECK(r == -1 && l == cap, "invalid key: %d, length %zu", r, l); H.eval(cap + 15000 + pi); } });
    }
  });
}
