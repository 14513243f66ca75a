// C08: hostile and boundary inputs in exact-extent buffers at every alignment, on instrumented builds.
#include "gen.hpp"
#include "guard.hpp"
#ifdef NISTROWS
extern "C" {
#define D(s) int cso_##s(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*); int cs_##s(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*); int csk_##s(unsigned char*, unsigned char*);
#define ND(X) X(128s) X(128f) X(192s) X(192f) X(256s) X(256f) X(em_128s) X(em_128f) X(em_192s) X(em_192f) X(em_256s) X(em_256f)
ND(D)
}
struct Nist { int (*open)(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*); int (*sign)(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*); int (*kp)(unsigned char*, unsigned char*); };
#define NR(s) {cso_##s, cs_##s, csk_##s},
static const Nist NI[12] = {ND(NR)};
#endif
using namespace ref; using namespace gen;
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#endif
#endif
#ifdef MSAN
#include <sanitizer/msan_interface.h>
static void clean(const void* p, size_t n) { if (n) __msan_unpoison(p, n); }
static int inLib = 0;
extern "C" { int __real_memcmp(const void*, const void*, size_t); int __wrap_memcmp(const void* a, const void* b, size_t n) { if (inLib && n && (__msan_test_shadow(a, n) >= 0 || __msan_test_shadow(b, n) >= 0)) { fprintf(stderr, "comparison of bytes never written\n"); _exit(81); } return __real_memcmp(a, b, n); } }
template <class F, class... T> static auto call(F f, T... t) { struct S { S() { inLib++; } ~S() { inLib--; } } s; return f(t...); }
static void dirty(const void* p, size_t n) { if (n) __msan_allocated_memory(p, n); }
static void defined(const char* what, const void* p, size_t n) { long r = n ? __msan_test_shadow(p, n) : -1; clean(p, n); if (r >= 0) throw Violation{fmt("%s: byte %ld of the result was never written", what, r)}; }
#else
template <class F, class... T> static auto call(F f, T... t) { return f(t...); }
static void __msan_scoped_disable_interceptor_checks() {}
static void clean(const void*, size_t) {}
static void dirty(const void*, size_t) {}
static void defined(const char*, const void*, size_t) {}
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
static bool owned(const void* p, size_t n) { return !n || !__asan_region_is_poisoned((void*)p, n); }
#else
static bool owned(const void*, size_t) { return true; }
#endif
static int failAt = -1, draws = 0; static u64 salt = 1;
extern "C" int rand_bytes(uint8_t* p, size_t n) { if (!owned(p, n)) { fprintf(stderr, "random bytes requested into memory outside a buffer\n"); _exit(79); } if (draws++ == failAt) return -1; Rng g(salt * 100 + draws); g.fill(p, n); clean(p, n); return 0; }
// the cipher backend is not instrumented: check what it is given, and mark what it returns
#if defined(WRAP_EVP_EncryptUpdate)
extern "C" { int __real_EVP_EncryptUpdate(void*, unsigned char*, int*, const unsigned char*, int); int __real_EVP_EncryptInit_ex(void*, const void*, void*, const unsigned char*, const unsigned char*); int __real_EVP_EncryptFinal_ex(void*, unsigned char*, int*); int EVP_CIPHER_get_key_length(const void*); int EVP_CIPHER_get_iv_length(const void*);
static void given(const char* w, const void* p, size_t n) { if (!owned(p, n)) { fprintf(stderr, "%s: %zu bytes outside a buffer\n", w, n); _exit(79); }
#ifdef MSAN
  if (n && __msan_test_shadow(p, n) >= 0) { fprintf(stderr, "%s: uninitialised\n", w); _exit(80); }
#endif
}
int __wrap_EVP_EncryptUpdate(void* c, unsigned char* o, int* ol, const unsigned char* in, int il) { given("cipher input", in, il); if (!owned(o, il)) { fprintf(stderr, "cipher output outside a buffer\n"); _exit(79); } int r = __real_EVP_EncryptUpdate(c, o, ol, in, il); clean(o, il); clean(ol, sizeof *ol); return r; }
int __wrap_EVP_EncryptInit_ex(void* c, const void* t, void* e, const unsigned char* k, const unsigned char* iv) { if (t) { if (k) given("cipher key", k, EVP_CIPHER_get_key_length(t)); if (iv) given("cipher iv", iv, EVP_CIPHER_get_iv_length(t)); } return __real_EVP_EncryptInit_ex(c, t, e, k, iv); }
int __wrap_EVP_EncryptFinal_ex(void* c, unsigned char* o, int* ol) { int r = __real_EVP_EncryptFinal_ex(c, o, ol); clean(ol, sizeof *ol); return r; }
}
#endif
// a buffer with exact extent whose first byte has the given alignment; instrumented builds surround it with red zones, others with inaccessible pages
struct Buf { u8* raw = nullptr; u8* p; size_t n; std::unique_ptr<Guard> g; bool heap;
  Buf(const Bytes& b, unsigned al = 0) : n(b.size()) { init(al); if (n) memcpy(p, b.data(), n); clean(p, n); }
  Buf(size_t k, unsigned al) : n(k) { init(al); if (n) memset(p, 0xC3, n); dirty(p, n); }
  void init(unsigned al) {
#if defined(__SANITIZE_ADDRESS__)
    raw = (u8*)malloc(n + al); p = raw + al;
#else
    // al 0: begins at an inaccessible page's end; otherwise ends at one (the natural alignment is then that of the size)
    g.reset(new Guard(n, al != 0)); p = g->p;
#endif
  }
  Bytes get() const { return Bytes(p, p + n); }
  ~Buf() { free(raw); } Buf(const Buf&) = delete; };
struct Lib { const Api& a; Lib(const Api& x) : a(x) {}
  template <class... T> int keygen(T... t) const { return call(a.keygen, (uint8_t*)t...); } int validate(const uint8_t* p, const uint8_t* s) const { return call(a.validate, p, s); } int verify(const uint8_t* k, const uint8_t* m, size_t n, const uint8_t* s, size_t l) const { return call(a.verify, k, m, n, s, l); }
  int sign(const uint8_t* k, const uint8_t* m, size_t n, uint8_t* s, size_t* l) const { return call(a.sign, k, m, n, s, l); } int signr(const uint8_t* k, const uint8_t* m, size_t n, const uint8_t* r, size_t rn, uint8_t* s, size_t* l) const { return call(a.signr, k, m, n, r, rn, s, l); } void clear(uint8_t* s) const { call(a.clear, s); } };
int main(int argc, char** argv) {
  __msan_scoped_disable_interceptor_checks();
  Harness H(argc, argv); H.caseLimit = 200; bool Lite = getenv("LITE"), own = getenv("OWN"); std::string part = getenv("PART") ? getenv("PART") : "api"; const char* se = getenv("SETS"); std::string sets = se ? se : ""; const unsigned AL = 8;
  return H.main([&](Harness& H) {
#ifdef NISTROWS
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Nist& N = NI[pi]; bool fast = isFast(P), lite = Lite;
      static std::map<unsigned, Bytes> sms; auto sm = [&]() -> Bytes& { Bytes& s = sms[pi]; if (s.empty()) { Key k = key(P, 9); Bytes m = msg(21, pi); s.resize(P.sig + 21); unsigned long long l = 0; draws = 0; CHECK(N.sign(s.data(), &l, m.data(), m.size(), k.sk.data()) == 0 && l == s.size(), "signed message"); } return s; };
      std::vector<size_t> ls; for (size_t l = 0; l < P.sig; l += l < 600 ? 1 : 997) ls.push_back(l); for (size_t l = P.sig > 40 ? P.sig - 40 : 0; l < P.sig; l++) ls.push_back(l);
      H.run(fmt("%s short signed messages", P.name), [&] { Key k = key(P, 9); Bytes& s = sm(); unsigned c = 0; for (size_t l : ls) { Buf in(Bytes(s.begin(), s.begin() + l), l % AL), pk(k.pk, (l + 3) % AL), m(l > P.sig ? l - P.sig : 0, 1); unsigned long long ml = 77; int r = N.open(m.p, &ml, in.p, l, pk.p); CHECK(r != 0, "a signed message of %zu bytes opens", l); H.eval(fnv(&l, sizeof l, pi)); c++; } });
      for (unsigned a = 0; a < (fast && !lite ? AL : 1u); a++) for (size_t l : {(size_t)P.sig, (size_t)P.sig + 1, (size_t)P.sig + 7, (size_t)P.sig + 21}) { if (!fast && l != P.sig + 21) continue; if (a && l != P.sig + 21) continue; H.run(fmt("%s open %zu bytes at alignment %u", P.name, l, a), [&] { Key k = key(P, 9); Bytes& s = sm(); bool ok = l == P.sig + 21; Buf in(Bytes(s.begin(), s.begin() + l), a), pk(k.pk, 7 - a), m(l - P.sig, a); unsigned long long ml = 77; int r = N.open(m.p, &ml, in.p, l, pk.p); CHECK((r == 0) == ok, "opening returned %d", r); if (ok) { CHECK(ml == 21, "length"); defined("message", m.p, 21); } H.eval(fnv(&l, sizeof l, pi * 8 + a + 99)); }); }
      if (fast && !lite) H.run(fmt("%s key pair and signing into exact buffers", P.name), [&] { Buf pk(P.pk, 1), sk(P.sk, 3), m(msg(5, 1), 5), out(P.sig + 5, 1); unsigned long long l = 0; CHECK(N.kp(pk.p, sk.p) == 0 && N.sign(out.p, &l, m.p, 5, sk.p) == 0 && l == P.sig + 5, "signing"); defined("signed message", out.p, out.n); H.eval(pi + 4000); });
    }
    return;
#endif
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; Lib A(API[pi]); bool fast = isFast(P); if (!sets.empty() && sets.find(fmt(",%s,", P.name)) == std::string::npos) continue; bool lite = Lite || (!H.thorough && P.lambda != 128), tiny = lite || !fast;
      struct Base { Key k; Bytes m, rho, sig; }; static std::map<unsigned, Base> bs;
      auto base = [&]() -> Base& { Base& b = bs[pi]; if (b.sig.empty()) { b.k = key(P, 9); b.m = msg(200, pi); b.rho = msg(P.lb(), 7); clean(b.k.sk.data(), P.sk); clean(b.k.pk.data(), P.pk); clean(b.m.data(), 200); clean(b.rho.data(), P.lb()); b.sig.resize(P.sig); dirty(b.sig.data(), P.sig); size_t l = P.sig; CHECK(A.signr(b.k.sk.data(), b.m.data(), b.m.size(), b.rho.data(), b.rho.size(), b.sig.data(), &l) == 0, "base signature"); defined("signature", b.sig.data(), P.sig); } return b; };
      auto verify = [&](const Bytes& pk, const Bytes& m, const Bytes& s, unsigned a1, unsigned a2, unsigned a3) { Buf k(pk, a1), mm(m, a2), ss(s, a3); int r = A.verify(k.p, mm.p, mm.n, ss.p, ss.n); defined("verification result", &r, sizeof r); CHECK(k.get() == pk && mm.get() == m && ss.get() == s, "an input buffer changed"); H.eval(fnv(s.data(), s.size(), fnv(m.data(), m.size(), fnv(pk.data(), pk.size(), a1 * 64 + a2 * 8 + a3 + pi * 1000)))); H.count(r ? "rejected" : "accepted"); return r; };
      auto sign = [&](const Bytes& sk, const Bytes& m, const Bytes& rho, unsigned a1, unsigned a2, unsigned a3, unsigned a4, bool drawn, Bytes* out) { Buf k(sk, a1), mm(m, a2), rr(rho, a3), ss(P.sig, a4); Buf lb(Bytes(8), 0); size_t* l = (size_t*)lb.p; *l = P.sig; int r = drawn ? A.sign(k.p, mm.p, mm.n, ss.p, l) : A.signr(k.p, mm.p, mm.n, rho.empty() ? nullptr : rr.p, rr.n, ss.p, l); defined("signing result", &r, sizeof r); if (r == 0) { defined("signature length", l, 8); defined("signature", ss.p, ss.n); if (out) *out = ss.get(); } CHECK(k.get() == sk && mm.get() == m && rr.get() == rho, "an input buffer changed"); H.eval(fnv(sk.data(), sk.size(), fnv(m.data(), m.size(), fnv(rho.data(), rho.size(), a1 * 512 + a2 * 64 + a3 * 8 + a4 + pi * 10000 + drawn)))); return r; };
      // alignments of every argument
      for (unsigned a = 0; a < (tiny ? 2u : AL); a++) { H.run(fmt("%s alignment %u", P.name, a), [&] { Base& b = base(); Bytes o; for (int w = 0; w < (fast && !lite ? 4 : 1); w++) { bool all = !(fast && !lite); unsigned x[4]; for (int i = 0; i < 4; i++) x[i] = all || i == w ? (all ? (a ? (2 * i + 1) % 8 : 0) : a) : 0; CHECK(sign(b.k.sk, b.m, b.rho, x[0], x[1], x[2], x[3], false, &o) == 0 && o == b.sig, "signature depends on the alignment"); if (w < 3) CHECK(verify(b.k.pk, b.m, b.sig, x[0], x[1], x[3 - (w == 2)] ) == 0, "verification depends on the alignment"); } });
        H.run(fmt("%s keys at alignment %u", P.name, a), [&] { for (unsigned c = 0; c < AL; c++) { Buf pk(P.pk, a), sk(P.sk, c); draws = 0; salt = a * 8 + c + 1; failAt = -1; CHECK(A.keygen(pk.p, sk.p) == 0, "keygen"); defined("public key", pk.p, P.pk); defined("secret key", sk.p, P.sk); int r = A.validate(pk.p, sk.p); defined("validation result", &r, sizeof r); CHECK(r == 0, "validate"); A.clear(sk.p); defined("cleared key", sk.p, P.sk); H.eval(pi * 64 + a * 8 + c + 7000000); } }); }
      // message and randomness lengths around the block sizes of the hash and its words
      std::vector<size_t> ml; size_t rate = P.lambda == 128 ? 168 : 136; for (size_t b : {(size_t)0, rate - P.pk, 2 * rate - P.pk, 10 * rate - P.pk}) for (int d : {-8, -1, 0, 1, 8}) if (!d || (long)b + d >= 0) { if (own && d) continue; if (lite && d && b != rate - P.pk) continue; if (!fast && d && (d * d != 1 || b)) continue; ml.push_back(b + d); }
      if (fast && !lite) for (size_t i = 2; i < 8; i++) ml.push_back(i);
      for (size_t n : ml) H.run(fmt("%s message length %zu", P.name, n), [&] { Base& b = base(); Bytes m = msg(n, 3), o; CHECK(sign(b.k.sk, m, b.rho, 0, n % AL, 0, 1, false, &o) == 0, "sign"); CHECK(verify(b.k.pk, m, o, 0, n % AL, 3) == 0, "verify"); });
      if (fast) for (size_t n : {(size_t)0, (size_t)1, (size_t)P.lb() - 1, (size_t)P.lb() + 1, rate - P.lb() - 64 - 1, rate - P.lb() - 64, rate + 7, 5 * rate}) H.run(fmt("%s randomness length %zu", P.name, n), [&] { Base& b = base(); CHECK(sign(b.k.sk, b.m, msg(n, 3), 0, 0, n % AL, 0, false, nullptr) == 0, "sign"); });
      // every constant pattern and region of a signature, every position of each tree, the honest one with each challenge byte changed
      std::vector<std::pair<std::string, std::function<Bytes(const Base&)>>> sg; auto region = [&](const std::string& n, size_t o, size_t l) { for (int f : {0x00, 0xff}) sg.push_back({fmt("%s all %02x", n.c_str(), f), [=](const Base& b) { Bytes s(b.sig); std::fill(s.begin() + o, s.begin() + o + l, f); return s; }}); };
      bool min = !fast && Lite && !H.thorough; for (int f : {0x00, 0xff, 0x01, 0x7f, 0x80, 0x55, 0xaa}) if (f == 0 || f == 0xff || !min) sg.push_back({fmt("all %02x", f), [=, &P](const Base&) { return Bytes(P.sig, f); }});
      sg.push_back({"pseudo-random", [&P](const Base&) { return msg(P.sig, 3); }});
      if (!min) { region("u~", P.off_u(), P.off_d() - P.off_u()); region("d", P.off_d(), P.off_a() - P.off_d()); region("a~", P.off_a(), P.off_pdec(0) - P.off_a()); region("iv", P.off_iv(), 16); } region("challenge", P.off_ch3(), P.lb());
      if (fast) { for (unsigned i = 0; i + 1 < P.tau; i++) if (i < 2 || !lite) region(fmt("correction %u", i), P.off_c(i), P.off_c(1) - P.off_c(0)); for (unsigned i = 0; i < P.tau; i++) if (i < 1 || !lite) { region(fmt("opening %u", i), P.off_pdec(i), P.depth(i) * P.lb()); region(fmt("leaf commitment %u", i), P.off_com(i), 2 * P.lb()); } for (unsigned j = 0; j < P.lb(); j++) if (!lite || !j) sg.push_back({fmt("challenge byte %u changed", j), [=, &P](const Base& b) { Bytes s(b.sig); s[P.off_ch3() + j] ^= 0xff; return s; }}); }
      if (fast) { for (unsigned bit = 0; bit < P.lambda; bit += own ? 101 : lite ? 37 : 3) sg.push_back({fmt("challenge bit %u alone", bit), [=, &P](const Base& b) { Bytes s(b.sig); std::fill(s.begin() + P.off_ch3(), s.begin() + P.off_ch3() + P.lb(), 0); s[P.off_ch3() + bit / 8] |= 1 << bit % 8; return s; }});
        size_t step = H.thorough ? 1 : own ? 127 : lite ? 61 : P.lambda == 128 ? 3 : 17; for (size_t v = 0; v < (1u << P.depth(0)); v += step) sg.push_back({fmt("every tree at position %zu", v), [=, &P](const Base& b) { Bytes s(b.sig), c = chalAt(P, [&](unsigned i) { return v & ((1u << P.depth(i)) - 1); }); std::copy(c.begin(), c.end(), s.begin() + P.off_ch3()); return s; }}); }
      unsigned q = 0; for (auto& x : sg) { q++; H.run(fmt("%s verify signature: %s", P.name, x.first.c_str()), [&, q] { Base& b = base(); Bytes s = x.second(b); int r = verify(b.k.pk, b.m, s, 1, q % AL, q / 3 % AL); CHECK(s == b.sig || r != 0, "a hostile signature is accepted"); }); }
      H.run(fmt("%s wrong signature lengths", P.name), [&] { Base& b = base(); for (long d : {-(long)P.sig, 1 - (long)P.sig, 16 - (long)P.sig, 32 - (long)P.sig, -(long)P.sig / 2, -33l, -32l, -17l, -16l, -2l, -1l, 1l, 2l, 16l, (long)P.sig}) { Bytes s(b.sig); s.resize(P.sig + d); CHECK(verify(b.k.pk, b.m, s, 0, 0, 0) != 0, "wrong length accepted"); } for (size_t l = 0; l < 80; l++) { Bytes s(b.sig.begin(), b.sig.begin() + l); CHECK(verify(b.k.pk, b.m, s, 0, 0, l % AL) != 0, "wrong length accepted"); } });
      // key patterns: accepted or refused, but never outside their buffers
      for (int f : {0x00, 0x01, 0x7f, 0x80, 0xff, 0x63, 0x52}) H.run(fmt("%s keys all %02x", P.name, f), [&] { Bytes sk(P.sk, f), pk(P.pk, f); { Buf a(sk, 1), c(pk, 1); int r = A.validate(c.p, a.p); defined("validation result", &r, sizeof r); } Base& b = base(); if (fast && !lite) { sign(sk, b.m, b.rho, 1, 1, 1, 1, false, nullptr); verify(pk, b.m, b.sig, 1, 1, 1); } for (unsigned j = 0; j < P.sk; j++) { Bytes s2(b.k.sk); s2[j] = f; Buf a(s2, j % AL), c(b.k.pk, 1); int r = A.validate(c.p, a.p); defined("validation result", &r, sizeof r); H.eval(pi * 100000 + f * 64 + j + 9000000); } });
      // the random source fails
      H.run(fmt("%s random source fails", P.name), [&] { Base& b = base(); for (int fa : {0, 1}) { Buf pk(P.pk, 1), sk(P.sk, 1); draws = 0; failAt = fa; salt = 5; int r = A.keygen(pk.p, sk.p); failAt = -1; defined("keygen result", &r, sizeof r); if (r == 0) { defined("public key", pk.p, P.pk); defined("secret key", sk.p, P.sk); } } draws = 0; failAt = 0; CHECK(sign(b.k.sk, b.m, Bytes(), 0, 0, 0, 0, true, nullptr) != 0, "signing succeeds without randomness"); failAt = -1; CHECK(sign(b.k.sk, b.m, Bytes(), 0, 1, 0, 1, true, nullptr) == 0, "sign"); });
      H.run(fmt("%s refused arguments", P.name), [&] { Base& b = base(); Buf sg(P.sig, 0), k(b.k.sk, 0), m(b.m, 0); size_t l = P.sig - 1; { Buf sh(P.sig - 1, 1); CHECK(A.signr(k.p, m.p, m.n, nullptr, 0, sh.p, &l) != 0, "short buffer"); CHECK(A.sign(k.p, m.p, m.n, sh.p, &l) != 0, "short buffer"); } l = P.sig; CHECK(A.signr(nullptr, m.p, m.n, nullptr, 0, sg.p, &l) != 0 && A.signr(k.p, m.p, m.n, nullptr, 3, sg.p, &l) != 0 && A.signr(k.p, m.p, m.n, nullptr, 0, nullptr, &l) != 0 && A.signr(k.p, m.p, m.n, nullptr, 0, sg.p, nullptr) != 0 && A.verify(nullptr, m.p, m.n, b.sig.data(), P.sig) != 0 && A.verify(b.k.pk.data(), m.p, m.n, nullptr, P.sig) != 0 && A.validate(nullptr, k.p) != 0 && A.validate(b.k.pk.data(), nullptr) != 0 && A.keygen(nullptr, k.p) != 0 && A.keygen(sg.p, nullptr) != 0, "null arguments accepted"); H.eval(pi + 12000000); });
    }
  });
}
