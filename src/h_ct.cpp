// C21: branch and address traces over enumerated secrets with the public data held equal.
#include "gen.hpp"
#include "trace.hpp"
#include "instances.h"
#include "aes.h"
#include "owf.h"
#include "vc.h"
#include "vole.h"
#include "universal_hashing.h"
#ifdef PROVE
#include "faest_aes.h"
#endif
using namespace ref; using namespace gen;
// public data are programmed: the one-way function's output, the challenges, the iv
static Bytes script; static size_t soff = 0; static const Bytes* owfOut = nullptr; static bool program = false; static unsigned h2n = 0, nprog = 0;
extern "C" int rand_bytes(uint8_t* p, size_t n) { trace::acc(p, n, 1, __builtin_return_address(0)); for (size_t i = 0; i < n; i++) p[i] = soff < script.size() ? script[soff++] : 0x77; return 0; }
#define OFF bool on_ = trace::S.on; trace::S.on = false
#define ON trace::S.on = on_
#define OWFW(n, l) extern "C" bool __real_##n(const uint8_t*, const uint8_t*, uint8_t*); extern "C" bool __wrap_##n(const uint8_t* k, const uint8_t* i, uint8_t* o) { bool r = __real_##n(k, i, o); if (owfOut && r) { OFF; memcpy(o, owfOut->data(), owfOut->size()); nprog++; ON; } return r; }
#if defined(WRAP_owf_128) && defined(WRAP_owf_em_256) && defined(WRAP_H2_final) && defined(WRAP_H1_final) && defined(WRAP_H3_final)
OWFW(owf_128, 16) OWFW(owf_192, 32) OWFW(owf_256, 32) OWFW(owf_em_128, 16) OWFW(owf_em_192, 24) OWFW(owf_em_256, 32)
extern "C" void __real_H1_final(void*, uint8_t*, size_t); extern "C" void __real_H2_final(void*, uint8_t*, size_t); extern "C" void __real_H3_final(void*, uint8_t*, size_t, uint8_t*);
extern "C" void __wrap_H1_final(void* c, uint8_t* d, size_t n) { __real_H1_final(c, d, n); if (program) { OFF; Rng(5).fill(d, n); ON; } }
extern "C" void __wrap_H2_final(void* c, uint8_t* d, size_t n) { __real_H2_final(c, d, n); if (program) { OFF; Rng(900 + h2n++).fill(d, n); nprog++; ON; } }
extern "C" void __wrap_H3_final(void* c, uint8_t* d, size_t n, uint8_t* iv) { __real_H3_final(c, d, n, iv); if (program) { OFF; Rng(6).fill(iv, 16); ON; } }
#define API_TRACES 1
#endif
static u8 slot[8][1 << 17] __attribute__((aligned(64)));
typedef bool (*owf_t)(const uint8_t*, const uint8_t*, uint8_t*);
typedef std::function<void()> Fn; typedef std::function<Fn(unsigned)> Gen; // Gen: place secret number i, return the call to trace
// secret number i of n bytes: patterns, every byte with other values around a base, pseudo-random
static Bytes secret(unsigned n, unsigned i) { static const u8 pat[] = {0x00, 0xff, 0x01, 0x80, 0x55, 0xaa, 0x0f, 0xf0}; if (i < 8) return Bytes(n, pat[i]); i -= 8; if (i < 8) return msg(n, 40 + i); i -= 8; Bytes b = msg(n, 40); static const u8 x[] = {0x01, 0x80, 0xff, 0x10, 0x02, 0x40, 0x08, 0x20, 0x04, 0x55}; unsigned v = i / n; b[i % n] ^= v < 10 ? x[v] : (u8)(v * 37 + 11); if (v >= 200) b[i % n] = v % 2 ? 0 : 0xff; return b; }
struct Sec { std::vector<Bytes> v; };
// valid keys with a given input
static Bytes vkey(const Params& P, const Bytes& in, unsigned i) { for (unsigned t = 0;; t++) { Bytes k = secret(P.lb(), i); if (t) { Rng g(i * 1000 + t); unsigned pos = i < 16 ? t % P.lb() : ((i - 16) % P.lb() + 1 + t) % P.lb(); if (t < 400) { u8 x; g.fill(&x, 1); k[pos] ^= x | 1; } else g.fill(k.data(), k.size()); } u8 o[32]; if (ref::owf(P, k.data(), in.data(), o) == 0) return k; } }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 300; bool lite = getenv("LITE"), own = getenv("OWN"); const char* only = getenv("ONLY"); std::string part = getenv("PART") ? getenv("PART") : "all";
  return H.main([&](Harness& H) {
    // the first secret's trace is the reference of the group
    struct Ref { trace::T t; bool ok = false; }; static std::map<std::string, Ref> refs;
#ifdef STEP
    bool step1 = !H.thorough;
#else
    bool step1 = false;
#endif
    auto warm = [&](const Fn& f) { static std::map<void*, int> w; f(); };
    auto group = [&](const std::string& name, unsigned n, unsigned per, Gen g) { for (unsigned a = 1; a < n; a += per) H.run(fmt("%s, secrets %u to %u", name.c_str(), a, std::min(n, a + per) - 1), [&, a] {
        Ref& r = refs[name]; if (!r.ok) { g(0)(); r.t = trace::run(g(0)); trace::T again = step1 ? r.t : trace::run(g(0)); CHECK(r.t.h == again.h && r.t.n == again.n, "the trace is not even a function of the secret: %s", trace::diff(g(0), g(0)).c_str()); CHECK(r.t.n > 2, "nothing was traced"); r.ok = true; H.distinct("model_states", r.t.h); }
        for (unsigned i = a; i < std::min(n, a + per); i++) { trace::T t = trace::run(g(i)); H.eval(fnv(&i, sizeof i, fnvs(name))); H.count("events", t.n); H.distinct("traces", t.h); if (t.h != r.t.h || t.n != r.t.n) { Fn x = g(0); (void)x; throw Violation{fmt("%s: secret %u: branches or accessed locations differ from those of secret 0: ", name.c_str(), i) + trace::diff([&] { g(0)(); }, [&] { g(i)(); })}; } } }); };
    // diff() above re-places the secrets inside the traced call: keep placement untraced
    unsigned big = H.thorough ? 16 + 256 * 16 : 0;
    // ---- building blocks
    if (part != "api") {
    struct Ci { const char* name; unsigned k, b; int (*init)(aes_round_keys_t*, const uint8_t*); int (*enc)(const aes_round_keys_t*, const uint8_t*, uint8_t*); }; static const Ci C[5] = {{"aes128", 16, 16, aes128_init_round_keys, aes128_encrypt_block}, {"aes192", 24, 16, aes192_init_round_keys, aes192_encrypt_block}, {"aes256", 32, 16, aes256_init_round_keys, aes256_encrypt_block}, {"rijndael192", 24, 24, rijndael192_init_round_keys, rijndael192_encrypt_block}, {"rijndael256", 32, 32, rijndael256_init_round_keys, rijndael256_encrypt_block}};
    static aes_round_keys_t rk;
    auto put = [&](int s, const Bytes& b) { OFF; memcpy(slot[s], b.data(), b.size()); ON; };
    unsigned ns = lite ? 60 : H.thorough ? 6000 : 1500, per = lite ? 60 : 300;
#ifdef STEP
    ns = H.thorough ? 200 : 3; per = H.thorough ? 4 : 60; bool step = true;
#else
    bool step = false;
#endif
    for (auto& c : C) { if (step && c.b > 16 && !H.thorough) continue; group(fmt("%s key", c.name), ns, per, [&, put](unsigned i) { put(0, secret(c.k, i)); put(1, msg(32, 1)); return [&] { c.init(&rk, slot[0]); c.enc(&rk, slot[1], slot[2]); }; }); group(fmt("%s block", c.name), ns, per, [&, put](unsigned i) { put(0, msg(32, 2)); put(1, secret(c.b, i)); return [&] { c.init(&rk, slot[0]); c.enc(&rk, slot[1], slot[2]); }; }); }
    for (unsigned lam : {128u, 192u, 256u}) for (unsigned len : {lam / 8, 16u * 5 + 7}) if (!step || H.thorough || lam == 128 && len == 16) group(fmt("seed expansion level %u to %u bytes", lam, len), step ? 3 : lite ? 20 : 60, step ? 1 : 20, [=](unsigned i) { put(0, secret(lam / 8, i)); put(1, msg(16, 1)); return [=] { ::prg(slot[0], slot[1], slot[2], lam, len); }; });
    static const owf_t F[12] = {owf_128, owf_128, owf_192, owf_192, owf_256, owf_256, owf_em_128, owf_em_128, owf_em_192, owf_em_192, owf_em_256, owf_em_256};
    for (unsigned pi = 1; pi < 12; pi += 2) { const Params& P = ALL[pi]; Bytes in = key(P, 9).sk; in.resize(P.insz()); faest_paramset_t* ps = new faest_paramset_t(faest_get_paramset((faest_paramid_t)P.id));
      group(fmt("%s one-way function", P.name), ns, per, [=, &P](unsigned i) { put(0, vkey(P, in, i)); put(1, in); return [=] { owfOut = nullptr; F[pi](slot[0], slot[1], slot[2]); }; });
      group(fmt("%s witness", P.name), step ? 2 : lite ? 40 : ns, per, [=, &P](unsigned i) { put(0, vkey(P, in, i)); put(1, in); return [=] { free(aes_extend_witness(slot[0], slot[1], ps)); }; });
      if (!own || step) {
      // universal hashes of secret strings
      unsigned lb = P.lb(), eb = P.eb(), L = P.l; auto vh = P.lambda == 128 ? vole_hash_128 : P.lambda == 192 ? vole_hash_192 : vole_hash_256; auto zh = P.lambda == 128 ? (void*)zk_hash_128 : P.lambda == 192 ? (void*)zk_hash_192 : (void*)zk_hash_256; (void)zh;
      group(fmt("%s vole_hash", P.name), step ? (H.thorough ? 100 : P.lambda == 128 ? 9 : 3) : lite ? 30 : 16 + eb, step ? 12 : 40, [=](unsigned i) { put(0, msg(5 * lb + 8, 1)); put(1, secret(eb, i)); return [=] { vh(slot[2], slot[0], slot[1], L); }; });
      // a tree and its conversion, for secret roots; the opened position is public
      for (unsigned d : {step ? 2u : 4u, P.depth(P.tau - 1)}) { if (d == 12 || step && d > 4) continue; group(fmt("%s vector commitment depth %u", P.name, d), step ? 3 : lite ? 12 : 40, step ? 3 : 12, [=, &P](unsigned i) { put(0, secret(lb, i)); put(1, msg(16, 3)); return [=, &P] { vec_com_t vc; vector_commitment(slot[0], slot[1], ps, P.lambda, &vc, d); u8 b[16]; BitDec(5 % (1u << d), d, b); vector_open(vc.k, vc.com, b, slot[2], slot[3], d, lb); vec_com_clear(&vc); }; });
        group(fmt("%s seed conversion depth %u", P.name, d), step ? 3 : lite ? 12 : 40, step ? 3 : 12, [=, &P](unsigned i) { put(0, secret(lb << d, i % 16 + (i >= 16 ? i * 16 : 0))); put(1, msg(16, 3)); return [=, &P] { ConvertToVole(slot[1], slot[0], false, P.lambda, d, eb, slot[2], slot[3]); }; }); }
#ifdef PROVE
      group(fmt("%s proof, witness and masks", P.name), lite ? 8 : 48, 8, [=, &P](unsigned i) { unsigned j = i ? i - 1 : 0; put(0, i % 3 == 0 || !i ? msg(L / 8, 7 + (i ? 0 : 0)) : secret(L / 8, i % 3 == 1 ? 8 + j : j)); put(1, i % 3 == 1 ? secret(eb, j) : msg(eb, 8)); put(2, i % 3 == 2 ? msg((size_t)eb * P.lambda, i + 50) : msg((size_t)eb * P.lambda, 9)); put(3, msg(3 * lb + 8, 4)); put(4, in); put(5, msg(P.insz(), 3)); return [=, &P] { static u8* V[256]; for (unsigned c = 0; c < P.lambda; c++) V[c] = slot[2] + c * eb; aes_prove(slot[0], slot[1], V, slot[4], slot[5], slot[3], slot[6], slot[6] + 64, ps); }; });
#endif
      } }
    }
    // ---- the public interface
#ifdef API_TRACES
    if (part != "blocks") for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Api& A = API[pi]; bool fast = isFast(P); if (own && !(fast && P.lambda == 128)) continue; if (lite && !fast && !H.thorough) continue; static std::map<unsigned, Key> ks; static std::map<unsigned, Bytes> outs, ins; Key K = key(P, 9); ins[pi] = Bytes(K.sk.begin(), K.sk.begin() + P.insz()); outs[pi] = Bytes(K.pk.begin() + P.insz(), K.pk.end());
      auto put = [&](int s, const Bytes& b) { OFF; memcpy(slot[s], b.data(), b.size()); ON; };
      auto skOf = [pi](unsigned i) { const Params& P = ALL[pi]; Bytes k = vkey(P, ins[pi], i), s(ins[pi]); s.insert(s.end(), k.begin(), k.end()); return s; };
      unsigned nk = lite ? 40 : H.thorough ? 1500 : 120;
      group(fmt("%s validate", P.name), nk, 60, [=](unsigned i) { put(0, skOf(i)); Bytes p(ins[pi]); p.insert(p.end(), outs[pi].begin(), outs[pi].end()); put(1, p); return [=] { owfOut = &outs[pi]; int r = API[pi].validate(slot[1], slot[0]); owfOut = nullptr; CHECK(r == 0, "validate"); }; });
      group(fmt("%s validate against another public key", P.name), 1 + P.insz(), 60, [=, &P](unsigned i) { static Bytes o; put(0, skOf(3)); Bytes p(ins[pi]); p.insert(p.end(), outs[pi].begin(), outs[pi].end()); put(1, p); Bytes x(outs[pi]); x[i ? i - 1 : 0] ^= i % 2 ? 0xff : 1; return [=] { OFF; o = x; ON; owfOut = &o; int r = API[pi].validate(slot[1], slot[0]); owfOut = nullptr; CHECK(r != 0, "validate"); }; });
      group(fmt("%s keygen", P.name), nk, 60, [=](unsigned i) { Bytes s = skOf(i); return [=] { OFF; script = s; soff = 0; ON; owfOut = &outs[pi]; int r = API[pi].keygen(slot[1], slot[0]); owfOut = nullptr; CHECK(r == 0, "keygen"); }; });
      // signing: secret keys, and secret randomness
      auto sign = [=](const Bytes& sk, const Bytes& rho, bool drawn) { put(0, sk); put(1, rho); put(3, msg(57, 3)); size_t rl = rho.size(); return [=] { OFF; script.assign(slot[1], slot[1] + rl); soff = 0; h2n = 0; nprog = 0; program = true; owfOut = &outs[pi]; *(size_t*)slot[4] = ALL[pi].sig; ON; int r = drawn ? API[pi].sign(slot[0], slot[3], 57, slot[2], (size_t*)slot[4]) : API[pi].signr(slot[0], slot[3], 57, slot[1], rl, slot[2], (size_t*)slot[4]); { OFF; program = false; owfOut = nullptr; ON; } CHECK(r == 0, "sign"); }; };
      unsigned nsig = own ? 3 : lite ? (fast ? 6 : 2) : H.thorough ? 400 : fast ? (P.lambda == 128 ? 40 : 16) : P.lambda == 128 ? 5 : 3; unsigned per = fast ? 5 : 2;
      // the programmed challenge must be the one in the signature, otherwise the public data are not equal
      H.run(fmt("%s programmed challenge", P.name), [&] { Fn f = sign(skOf(0), secret(P.lb(), 9), false); f(); Bytes want(P.lb()); Rng(900 + h2n - 1).fill(want.data(), want.size()); if (memcmp(slot[2] + P.off_ch3(), want.data(), want.size())) H.note(std::string(P.name) + ": challenges are not computed through H2_final"); });
      group(fmt("%s sign, key", P.name), nsig, per, [=, &P](unsigned i) { return sign(skOf(i < 8 || !fast ? i : 16 + (i - 8) * 5), secret(P.lb(), 9), false); });
      group(fmt("%s sign, randomness", P.name), lite ? 2 : nsig / 2 + 1, per, [=, &P](unsigned i) { return sign(skOf(9), secret(P.lb(), i < 8 ? i : 16 + i * 3), false); });
      group(fmt("%s sign, drawn randomness", P.name), lite || !fast ? 2 : 4, per, [=, &P](unsigned i) { return sign(skOf(9 + i), secret(P.lb(), i), true); });
    }
#endif
  });
}
