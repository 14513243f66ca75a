// The alphabet of operations (successful and failing) shared by the history, heap and concurrency checks.
#pragma once
#include "gen.hpp"
namespace ops {
using namespace ref; using gen::Key; using gen::key; using gen::msg;
// deterministic random source that can fail; thread-local so that concurrent operations do not share it
struct Rand { Bytes script; size_t off = 0; int failAt = -1; int calls = 0; u64 salt = 1; };
static thread_local Rand* R = nullptr;
static int source(uint8_t* p, size_t n) { if (!R) { Rng g(99); g.fill(p, n); return 0; } if (R->calls++ == R->failAt) return -1; if (R->off < R->script.size()) { size_t m = std::min(n, R->script.size() - R->off); memcpy(p, &R->script[R->off], m); R->off += m; if (m < n) memset(p + m, 0x77, n - m); return 0; } Rng g(R->salt * 1000003 + R->calls); g.fill(p, n); return 0; }
static void (*enter)() = nullptr; static void (*leave)() = nullptr; // around every library call
struct Scope { Scope() { if (enter) enter(); } ~Scope() { if (leave) leave(); } };
#define LIB(e) ([&] { ops::Scope scope_; return (e); }())
// with arena on, every argument is copied to one fixed address per role, so that different contents appear at the same address
static bool arena = false; static u8 slots[6][1 << 16];
static const u8* at(int role, const Bytes& b) { if (!arena || b.size() > sizeof slots[0]) return b.data(); memcpy(slots[role], b.data(), b.size()); return slots[role]; }
static u8* outAt(Bytes& b) { if (!arena || b.size() > sizeof slots[0]) return b.data(); memcpy(slots[5], b.data(), b.size()); return slots[5]; }
static void outBack(Bytes& b) { if (arena && b.size() <= sizeof slots[0]) memcpy(b.data(), slots[5], b.size()); }
struct Base { Key sib, cous; Bytes m2, sig2, sig3, sig4; bool rel = false; Key k, other; Bytes badsk, badpk, m, rho, sig, zsig; bool ok = false; };
static Base* bases() { static Base bs[12]; return bs; }
// keys and messages only; does not call the library
static void keysOf(unsigned pi, Base& b) { const Params& P = ALL[pi]; b.k = key(P, 9); b.other = key(P, 10); b.m = msg(57, pi); b.rho = msg(P.lb(), 7); { Rng g(pi + 50); b.badsk.resize(P.sk); b.badpk.resize(P.pk); do g.fill(b.badsk.data(), P.sk); while (keyFrom(P, b.badsk.data(), b.badpk.data())); }
  Rng g(pi + 70); b.sib = b.cous = b.k; do g.fill(&b.sib.sk[P.insz()], P.lb()); while (!keyFrom(P, b.sib.sk.data(), b.sib.pk.data())); do g.fill(&b.cous.sk[0], P.insz()); while (!keyFrom(P, b.cous.sk.data(), b.cous.pk.data())); b.m2 = msg(57, pi + 100); }
static Bytes signBase(unsigned pi, const Base& b, const Key& k, const Bytes& m) { const Params& P = ALL[pi]; Bytes s(P.sig); size_t l = P.sig; if (API[pi].signr(k.sk.data(), m.data(), m.size(), b.rho.data(), b.rho.size(), s.data(), &l) != 0) throw Violation{"base signature"}; return s; }
static Base& base(unsigned pi) { Base& b = bases()[pi]; if (b.ok) return b; keysOf(pi, b); b.sig = signBase(pi, b, b.k, b.m); b.ok = true; return b; }
static Base& related(unsigned pi) { Base& b = base(pi); if (b.rel) return b; b.sig2 = signBase(pi, b, b.k, b.m2); b.sig3 = signBase(pi, b, b.sib, b.m); b.sig4 = signBase(pi, b, b.cous, b.m); b.rel = true; return b; }
struct Result { int ret; Bytes out; bool operator==(const Result& o) const { return ret == o.ret && out == o.out; } };
struct Op { std::string name; bool rejects; std::function<Result()> f; }; // rejects: must not report success
enum { WANT_ALL = 0, NO_SIGN = 1 };
// f returns (code, output bytes); output buffers are fresh and pre-filled
// operations on keys and signatures that share parts: same input and other key, same key and other input, other message
static std::vector<Op> relatedOps(unsigned pi) { const Params& P = ALL[pi]; Base* b = &related(pi); std::vector<Op> v; auto add = [&](const std::string& n, bool rej, std::function<Result()> f) { v.push_back({std::string(P.name) + " " + n, rej, f}); };
  auto va = [pi](const Bytes* pk, const Bytes* sk) { return [=]() { const u8 *p = at(0, *pk), *s = at(1, *sk); return Result{LIB(API[pi].validate(p, s)), {}}; }; };
  auto ve = [pi](const Bytes* pk, const Bytes* m, const Bytes* sg) { return [=]() { const u8 *p = at(0, *pk), *mp = at(2, *m), *s = at(4, *sg); size_t ml = m->size(), sl = sg->size(); return Result{LIB(API[pi].verify(p, mp, ml, s, sl)), {}}; }; };
  auto si = [pi](const Bytes* sk, const Bytes* m, unsigned salt) { return [=]() { const Params& P = ALL[pi]; Bytes rho = msg(P.lb(), salt); Result x; x.out.assign(P.sig, 0xC3); size_t l = P.sig; const u8 *s = at(1, *sk), *mp = at(2, *m), *rp = at(3, rho); size_t ml = m->size(), rl = rho.size(); u8* o = outAt(x.out); x.ret = LIB(API[pi].signr(s, mp, ml, rp, rl, o, &l)); outBack(x.out); if (x.ret) x.out.clear(); return x; }; };
  add("validate, same input, other key", false, va(&b->sib.pk, &b->sib.sk)); add("validate, same key, other input", false, va(&b->cous.pk, &b->cous.sk)); add("validate sibling's public key", true, va(&b->sib.pk, &b->k.sk)); add("validate cousin's public key", true, va(&b->cous.pk, &b->k.sk));
  add("verify second message", false, ve(&b->k.pk, &b->m2, &b->sig2)); add("verify sibling's", false, ve(&b->sib.pk, &b->m, &b->sig3)); add("verify cousin's", false, ve(&b->cous.pk, &b->m, &b->sig4)); add("verify second signature on first message", true, ve(&b->k.pk, &b->m, &b->sig2)); add("verify first signature on second message", true, ve(&b->k.pk, &b->m2, &b->sig)); add("verify sibling's signature under the key", true, ve(&b->k.pk, &b->m, &b->sig3)); add("verify under cousin's key", true, ve(&b->cous.pk, &b->m, &b->sig));
  add("sign second message", false, si(&b->k.sk, &b->m2, 7)); add("sign with other randomness", false, si(&b->k.sk, &b->m, 8)); add("sign with sibling", false, si(&b->sib.sk, &b->m, 7)); add("sign with cousin", false, si(&b->cous.sk, &b->m, 7));
  return v; }
// keys equal to base key b.k except in one byte, or equal to it in one run of words of the input or of the key only
static std::vector<Key> similarKeys(unsigned pi) { const Params& P = ALL[pi]; const Key& k = bases()[pi].k; std::vector<Key> v; Rng g(pi + 900);
  auto tryAdd = [&](const std::function<void(Bytes&)>& f) { for (int t = 0; t < 400; t++) { Key x = k; f(x.sk); if (x.sk != k.sk && keyFrom(P, x.sk.data(), x.pk.data())) { v.push_back(x); return; } } };
  for (unsigned i = 0; i < P.sk; i++) tryAdd([&](Bytes& s) { s[i] = g.next(); });
  for (int part = 0; part < 2; part++) { unsigned lo = part ? P.insz() : 0, n = part ? P.lb() : P.insz(); for (unsigned a = 0; a < n; a += 8) for (unsigned e = a + 8; e <= n; e += 8) for (int both = 0; both < 2; both++) { if (e - a == n && !both) continue; tryAdd([&](Bytes& s) { for (unsigned i = 0; i < P.sk; i++) { bool inPart = i >= lo && i < lo + n, keep = inPart ? i - lo >= a && i - lo < e : !both; if (!keep) s[i] = g.next(); } }); } }
  return v; }
static std::vector<Bytes> similarBytes(const Bytes& m, u64 seed) { std::vector<Bytes> v; Rng g(seed); auto add = [&](const Bytes& x) { if (x != m && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
  for (size_t i = 0; i < m.size(); i++) { Bytes x = m; x[i] ^= 1 + g.next() % 255; add(x); } for (size_t c : {m.size() - 1, m.size() / 2, (size_t)32, (size_t)16, (size_t)8, (size_t)0}) if (c < m.size()) { add(Bytes(m.begin(), m.begin() + c)); Bytes x = m; for (size_t i = c; i < x.size(); i++) x[i] = g.next(); add(x); x = m; for (size_t i = 0; i < c; i++) x[i] = g.next(); add(x); x = m; x.insert(x.end(), c + 1, 0); add(x); } return v; }
// element 0 of every group is the base operation, the others the same operation on an argument similar to the base's
static std::vector<std::vector<Op>> similarOps(unsigned pi, bool heavy, unsigned stride) { const Params& P = ALL[pi]; Base* b = &bases()[pi]; std::vector<std::vector<Op>> r; std::vector<Key> ks = similarKeys(pi); ks.insert(ks.begin(), b->k); auto S = [](const Bytes& x) { return std::make_shared<Bytes>(x); };
  auto group = [&] { r.push_back({}); }; auto add = [&](const std::string& n, std::function<Result()> f) { r.back().push_back({std::string(P.name) + " " + n, false, f}); };
  for (int kind = 0; kind < 2; kind++) { group(); unsigned n = 0; for (auto& k : ks) { auto pk = S(k.pk), sk = S(k.sk); if (kind == 0) add(fmt("keygen, similar key %u", n), [=] { const Params& P = ALL[pi]; Rand q; q.script = *sk; R = &q; Result x; x.out.assign(P.pk + P.sk, 0xC3); u8* o = outAt(x.out); x.ret = LIB(API[pi].keygen(o, o + P.pk)); outBack(x.out); R = nullptr; return x; }); else add(fmt("validate, similar key %u", n), [=] { return Result{LIB(API[pi].validate(at(0, *pk), at(1, *sk))), {}}; }); n++; } }
  if (!heavy) return r;
  auto sg = [pi, S](const Bytes& sk, const Bytes& m, const Bytes& rho) { auto a = S(sk), b2 = S(m), c = S(rho); return [=] { const Params& P = ALL[pi]; Result x; x.out.assign(P.sig, 0xC3); size_t l = P.sig; const u8 *s = at(1, *a), *mp = at(2, *b2), *rp = at(3, *c); u8* o = outAt(x.out); x.ret = LIB(API[pi].signr(s, mp, b2->size(), rp, c->size(), o, &l)); outBack(x.out); if (x.ret) x.out.clear(); return x; }; };
  auto ve = [pi, S](const Bytes& pk, const Bytes& m, const Bytes& sig) { auto a = S(pk), b2 = S(m), c = S(sig); return [=] { const u8 *kp = at(0, *a), *mp = at(2, *b2), *sp = at(4, *c); return Result{LIB(API[pi].verify(kp, mp, b2->size(), sp, c->size())), {}}; }; };
  auto thin = [&](std::vector<Op>& v) { if (stride > 1) { std::vector<Op> w; for (size_t i = 0; i < v.size(); i++) if (i == 0 || i % stride == pi % stride) w.push_back(v[i]); v = w; } };
  group(); for (size_t i = 0; i < ks.size(); i++) add(fmt("sign, similar key %zu", i), sg(ks[i].sk, b->m, b->rho)); thin(r.back());
  auto ms = similarBytes(b->m, pi), rs = similarBytes(b->rho, pi + 20), ps = similarBytes(b->k.pk, pi + 40);
  group(); add("sign, base", sg(b->k.sk, b->m, b->rho)); for (size_t i = 0; i < ms.size(); i++) add(fmt("sign, similar message %zu", i), sg(b->k.sk, ms[i], b->rho)); for (size_t i = 0; i < rs.size(); i++) add(fmt("sign, similar randomness %zu", i), sg(b->k.sk, b->m, rs[i])); thin(r.back());
  group(); add("verify, base", ve(b->k.pk, b->m, b->sig)); for (size_t i = 0; i < ms.size(); i++) add(fmt("verify, similar message %zu", i), ve(b->k.pk, ms[i], b->sig)); for (size_t i = 0; i < ps.size(); i++) if (ps[i].size() == P.pk) add(fmt("verify, similar public key %zu", i), ve(ps[i], b->m, b->sig));
  for (unsigned i = 0; i < 64; i++) { Bytes s = b->sig; s[(size_t)i * (P.sig - 1) / 63] ^= 1 << i % 8; add(fmt("verify, similar signature %u", i), ve(b->k.pk, b->m, s)); } thin(r.back());
  return r; }
static std::vector<Op> alphabet(unsigned pi, unsigned detail = 1) {
  const Params& P = ALL[pi]; const Api& A = API[pi]; std::vector<Op> v; Base* b = &base(pi);
  auto add = [&](const std::string& n, bool rej, std::function<Result()> f) { v.push_back({std::string(P.name) + " " + n, rej, f}); };
  auto kg = [pi](Bytes script, int failAt, u64 salt) { return [=]() { const Params& P = ALL[pi]; Rand r; r.script = script; r.failAt = failAt; r.salt = salt; R = &r; Result x; x.out.assign(P.pk + P.sk, 0xC3); u8* o = outAt(x.out); x.ret = LIB(API[pi].keygen(o, o + P.pk)); outBack(x.out); R = nullptr; if (x.ret) x.out.clear(); return x; }; };
  add("keygen", false, kg(b->k.sk, -1, 1)); { Bytes s(b->badsk); s.insert(s.end(), b->badsk.begin(), b->badsk.end()); s.insert(s.end(), b->k.sk.begin(), b->k.sk.end()); add("keygen after two rejected draws", false, kg(s, -1, 1)); add("keygen, source fails at second draw", true, kg(b->badsk, 1, 1)); } add("keygen, source fails", true, kg({}, 0, 1));
  add("keygen, null public key", true, [=] { Bytes s(P.sk); return Result{LIB(A.keygen(nullptr, s.data())), {}}; });
  add("validate", false, [=] { return Result{LIB(A.validate(at(0, b->k.pk), at(1, b->k.sk))), {}}; }); add("validate mismatch", true, [=] { return Result{LIB(A.validate(at(0, b->other.pk), at(1, b->k.sk))), {}}; }); add("validate invalid key", true, [=] { return Result{LIB(A.validate(at(0, b->badpk), at(1, b->badsk))), {}}; }); add("validate null", true, [=] { return Result{LIB(A.validate(nullptr, b->k.sk.data())), {}}; });
  auto sg = [pi](const Bytes* sk, size_t mlen, size_t rlen, size_t cap, bool rnd, int failAt) { return [=]() { const Params& P = ALL[pi]; Base& b = base(pi); Rand r; r.failAt = failAt; R = &r; Result x; Bytes m = msg(mlen, pi), rho = msg(rlen, 7); x.out.assign(P.sig, 0xC3); size_t l = cap; const u8 *ks = at(1, *sk), *mp = at(2, m), *rp = at(3, rho); u8* o = outAt(x.out); x.ret = LIB(rnd ? API[pi].sign(ks, mp, mlen, o, &l) : API[pi].signr(ks, mp, mlen, rlen ? rp : nullptr, rlen, o, &l)); outBack(x.out); R = nullptr; if (x.ret) x.out.clear(); else { x.out.push_back(l & 255); x.out.push_back(l >> 8 & 255); } return x; }; };
  add("sign with randomness", false, sg(&b->k.sk, 57, P.lb(), P.sig, false, -1)); add("sign", false, sg(&b->k.sk, 57, 0, P.sig, true, -1)); if (detail) { add("sign empty message, no randomness", false, sg(&b->k.sk, 0, 0, P.sig, false, -1)); add("sign with another key", false, sg(&b->other.sk, 300, 70, P.sig + 5, false, -1)); }
  add("sign, invalid key", true, sg(&b->badsk, 57, P.lb(), P.sig, false, -1)); add("sign, capacity too small", true, sg(&b->k.sk, 57, P.lb(), P.sig - 1, false, -1)); add("sign, source fails", true, sg(&b->k.sk, 57, 0, P.sig, true, 0)); add("sign, null length", true, [=] { Bytes s(P.sig); return Result{LIB(A.signr(b->k.sk.data(), nullptr, 0, nullptr, 0, s.data(), nullptr)), {}}; });
  auto vf = [pi](std::function<void(Bytes&)> ch, int what) { return [=]() { const Params& P = ALL[pi]; Base& b = base(pi); Bytes s(b.sig), m(b.m), pk(b.k.pk); if (what == 0 && ch) ch(s); if (what == 1) ch(m); if (what == 2) ch(pk); const u8 *kp = at(0, pk), *mp = at(2, m), *sp = at(4, s); size_t ml = m.size(), sl = s.size(); return Result{LIB(API[pi].verify(kp, mp, ml, sp, sl)), {}}; }; };
  add("verify", false, vf(nullptr, 0));
  auto flip = [](size_t o) { return [=](Bytes& x) { x[o] ^= 0x10; }; };
  std::vector<std::pair<std::string, size_t>> at; at.push_back({"first correction", P.off_c(0)}); at.push_back({"last correction", P.off_u() - 1}); at.push_back({"u~", P.off_u()}); at.push_back({"d", P.off_d()}); at.push_back({"end of d", P.off_a() - 1}); at.push_back({"a~", P.off_a()}); at.push_back({"first opening", P.off_pdec(0)}); at.push_back({"last opening", P.off_pdec(P.tau - 1)}); at.push_back({"first leaf commitment", P.off_com(0)}); at.push_back({"last leaf commitment", P.off_com(P.tau - 1) + 3}); at.push_back({"challenge", P.off_ch3()}); at.push_back({"end of challenge", P.off_iv() - 1}); at.push_back({"iv", P.off_iv()});
  if (detail == 0) at = {{"d", P.off_d() + 3}, {"challenge", P.off_ch3() + 2}};
  for (auto& a : at) add("verify, " + a.first + " changed", true, vf(flip(a.second), 0));
  if (detail >= 2) { for (unsigned i = 0; i < P.tau; i++) { if (i + 1 < P.tau) add(fmt("verify, correction %u changed", i), true, vf(flip(P.off_c(i) + 5), 0)); for (unsigned d = 0; d < P.depth(i); d++) add(fmt("verify, tree %u node %u changed", i, d), true, vf(flip(P.off_pdec(i) + d * P.lb() + 1), 0)); add(fmt("verify, tree %u leaf commitment changed", i), true, vf(flip(P.off_com(i) + 9), 0)); } for (unsigned i = 0; i < P.lb(); i++) add(fmt("verify, challenge byte %u changed", i), true, vf(flip(P.off_ch3() + i), 0)); }
  if (detail) for (int f : {0x00, 0xff}) { add(fmt("verify, signature all %02x", f), true, vf([f](Bytes& x) { std::fill(x.begin(), x.end(), f); }, 0)); add(fmt("verify, challenge all %02x", f), true, vf([f, &P](Bytes& x) { std::fill(x.begin() + P.off_ch3(), x.begin() + P.off_iv(), f); }, 0)); }
  add("verify, message changed", true, vf(flip(3), 1)); add("verify, message empty", true, vf([](Bytes& x) { x.clear(); }, 1)); add("verify, public key changed", true, vf(flip(P.pk - 1), 2)); if (detail) add("verify, public key input changed", true, vf(flip(0), 2)); add("verify, one byte short", true, vf([](Bytes& x) { x.pop_back(); }, 0)); add("verify, one byte long", true, vf([](Bytes& x) { x.push_back(0); }, 0)); add("verify, null signature", true, [=] { return Result{LIB(A.verify(b->k.pk.data(), nullptr, 0, nullptr, P.sig)), {}}; });
  add("clear private key", false, [=] { Bytes s(b->k.sk); LIB((A.clear(s.data()), 0)); return Result{0, s}; });
  return v;
}
}
