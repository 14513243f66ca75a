// C11: the NIST signed-message interface (crypto_sign.c of every parameter set).
#include "gen.hpp"
#include "guard.hpp"
using namespace ref; using namespace gen;
typedef unsigned long long ull;
#define NDECL(n) extern "C" { int csk_##n(uint8_t*, uint8_t*); int cs_##n(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); int cso_##n(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); }
#define NROW(n) {csk_##n, cs_##n, cso_##n},
APIALL(NDECL)
static struct { int (*kp)(uint8_t*, uint8_t*); int (*sign)(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); int (*open)(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); } N[12] = {APIALL(NROW)};
static unsigned draws = 0; static bool fail = false; static Bytes stream; static size_t soff = 0;
extern "C" int rand_bytes(uint8_t* p, size_t n) { if (fail) return -1; if (!stream.empty()) { for (size_t i = 0; i < n; i++) p[i] = soff < stream.size() ? stream[soff++] : 7; return 0; } Rng g(12345 + draws++); g.fill(p, n); return 0; }
static Bytes rho0(const Params& P) { Rng g(12345); Bytes b(P.lb()); g.fill(b.data(), b.size()); return b; }
static const size_t WIN = 2 << 20;
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 300;
  return H.main([&](Harness& H) {
    // message lengths above 4 GiB (repeated mapping of one window, separate pages for the signature)
    for (unsigned pi : {1u, 3u, 5u}) { const Params& P = ALL[pi]; if (pi != 1 && !H.thorough) continue; if (!isFast(P)) continue;
      for (int v = 0; v < 2; v++) H.run(fmt("%s message of more than 4 GiB, %s", P.name, v ? "short message's signature" : "round trip"), [&] {
        size_t L = ((size_t)1 << 32) + 5, tot = (L + P.sig + WIN) / WIN * WIN; int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, 2 * WIN)) { H.note("no memfd"); return; }
        uint8_t* b = (uint8_t*)mmap(nullptr, tot + WIN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { H.note("cannot map 4 GiB"); return; }
        for (size_t o = 0; o < tot; o += WIN) if (mmap(b + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o / WIN * WIN >= L / WIN * WIN ? WIN : 0) == MAP_FAILED) { H.note("cannot map 4 GiB"); munmap(b, tot + WIN); close(fd); return; }
        Key k = key(P, 9); Bytes w = msg(WIN, 5); memcpy(b, w.data(), WIN); memcpy(b + L / WIN * WIN, w.data(), WIN); draws = 0;
        if (v == 0) { ull sl = 1; CHECK(N[pi].sign(b, &sl, b, L, k.sk.data()) == 0, "crypto_sign of %zu bytes fails", L); CHECK(sl == L + P.sig, "signed length %llu for a message of %zu bytes", sl, L); Bytes s2(P.sig); size_t l2 = P.sig; Bytes r = rho0(P); CHECK(API[pi].signr(k.sk.data(), b, L, r.data(), r.size(), s2.data(), &l2) == 0 && !memcmp(s2.data(), b + L, P.sig), "the signature after the message is not the message's signature (length %zu)", L);
          ull ml = 77; CHECK(N[pi].open(b, &ml, b, sl, k.pk.data()) == 0, "crypto_sign_open refuses an honestly signed message of %zu bytes", L); CHECK(ml == L, "opened length %llu instead of %zu", ml, L); }
        else { Bytes sm(5 + P.sig); ull sl; CHECK(N[pi].sign(sm.data(), &sl, b, 5, k.sk.data()) == 0, "sign"); memcpy(b + L, &sm[5], P.sig); ull ml = 77; CHECK(N[pi].open(b, &ml, b, L + P.sig, k.pk.data()) != 0, "a message of %zu bytes followed by the signature of its first 5 bytes is opened", L); CHECK(ml == 77, "length written on failure");
          memset(b, 0, WIN); memcpy(b, sm.data(), 5); memcpy(b + 5, &sm[5], P.sig); CHECK(N[pi].open(b, &ml, b, L + P.sig, k.pk.data()) != 0 && ml == 77, "a signed message of 5 bytes padded to more than 4 GiB is opened"); }
        munmap(b, tot + WIN); close(fd); H.eval(L + v + pi); }); }
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P), f128 = fast && P.lambda == 128; const ull S = P.sig;
      auto rnd = [&] { draws = 0; fail = false; stream.clear(); soff = 0; };
      H.run(fmt("%s keypair", P.name), [&] { for (int e = 0; e < 2; e++) { Guard pk(P.pk, e), sk(P.sk, e), p2(P.pk, e), s2(P.sk, e); rnd(); int r = N[pi].kp(pk.p, sk.p); rnd(); int q = API[pi].keygen(p2.p, s2.p); CHECK(r == 0 && q == 0, "keypair %d keygen %d", r, q); CHECK(!memcmp(pk.p, p2.p, P.pk) && !memcmp(sk.p, s2.p, P.sk), "crypto_sign_keypair differs from key generation with the same randomness"); CHECK(pk.clean() && sk.clean(), "writes outside the key buffers"); CHECK(API[pi].validate(pk.p, sk.p) == 0, "key pair invalid"); rnd(); fail = true; CHECK(N[pi].kp(p2.p, s2.p) != 0, "crypto_sign_keypair reports success although the random source failed"); fail = false; H.eval(pi * 2 + e); } });
      H.run(fmt("%s failing signer", P.name), [&] { Key k = key(P, 9); Bytes sm(S + 9); ull l; rnd(); fail = true; CHECK(N[pi].sign(sm.data(), &l, (const u8*)"message99", 9, k.sk.data()) != 0, "crypto_sign reports success although the random source failed"); rnd();
        Rng g(pi + 3); Bytes sk(P.sk), pk(P.pk); do g.fill(sk.data(), P.sk); while (keyFrom(P, sk.data(), pk.data())); CHECK(N[pi].sign(sm.data(), &l, (const u8*)"message99", 9, sk.data()) != 0, "crypto_sign reports success with an invalid secret key"); H.eval(pi + 100); });
      std::vector<size_t> lens; if (f128) for (size_t n = 0; n < (H.thorough ? 2048u : 160u); n++) lens.push_back(n); else for (size_t n : {0, 1, 2, 31, 33, 135, 136, 137, 168, 200, 1000}) { if (!H.thorough && (fast ? n == 2 || n == 31 || n == 135 || n == 168 : n != 0 && n != 33)) continue; lens.push_back(n); }
      if (fast) for (size_t n : {(size_t)S - 1, (size_t)S, (size_t)S + 1, (size_t)4096, (size_t)65537}) lens.push_back(n);
      for (size_t n : lens) for (int kk = 0; kk < (H.thorough && fast ? 4 : 1); kk++) H.run(fmt("%s length %zu key %d", P.name, n, kk), [&] {
        Key k = key(P, 9 + kk); Bytes M = msg(n, pi + kk), rho = rho0(P); Bytes want(S); size_t sl = S; if (f128) want = ref::sign(P, k.sk.data(), M.data(), n, rho.data(), rho.size()); else CHECK(API[pi].signr(k.sk.data(), M.data(), n, rho.data(), rho.size(), want.data(), &sl) == 0, "sign");
        auto good = [&](const u8* sm, ull l, const char* how, long off) { CHECK(l == n + S, "signed length %llu instead of %llu (%s %ld)", l, (ull)(n + S), how, off); CHECK(!memcmp(sm, M.data(), n), "signed message does not start with the message (%s %ld, length %zu)", how, off, n); CHECK(!memcmp(sm + n, want.data(), S), "signed message does not end with the message's signature (%s %ld, length %zu)", how, off, n); };
        for (int e = 0; e < (n % 8 == 0 && fast ? 2 : 1); e++) { Guard m(n, e, M.data(), true), sk(P.sk, e, k.sk.data(), true), sm(n + S, e == 0); ull l = 0; rnd(); CHECK(N[pi].sign(sm.p, &l, m.p, n, sk.p) == 0, "crypto_sign fails (length %zu)", n); good(sm.p, l, "separate buffers", 0); CHECK(sm.clean(), "writes outside the signed message"); 
          Guard ro(n + S, e, sm.p, true), o(n, e), pk(P.pk, e, k.pk.data(), true); ull ml = 99; CHECK(N[pi].open(o.p, &ml, ro.p, l, pk.p) == 0, "crypto_sign_open refuses an honestly signed message of %zu bytes", n); CHECK(ml == n && !memcmp(o.p, M.data(), n) && o.clean(), "opening returns another message (length %llu)", ml); H.eval(fnv(sm.p, l)); }
        // overlapping buffers
        std::vector<long> offs; for (long o : {0l, 1l, 7l, 16l, (long)n / 2, (long)n - 1, (long)n, (long)n + 1, (long)S, (long)(n + S) - 1, -1l, -9l, -(long)n / 2, 1 - (long)n}) if (o > -(long)std::max<size_t>(n, 1) && std::find(offs.begin(), offs.end(), o) == offs.end()) offs.push_back(o);
        if (f128 && n && (H.thorough ? n < 40 : n == 1 || n == 2 || n == 3 || n == 17)) for (long o = -(long)n; o <= (long)n + 2; o++) if (std::find(offs.begin(), offs.end(), o) == offs.end()) offs.push_back(o);
        if (!H.thorough) { if (!fast) offs = {(long)n / 3}; else if (f128 ? n > 17 && n % 8 : P.lambda > 128 && n != 33) { if (n % 3 == 0) offs = {0}; else if (n % 3 == 1) offs = {(long)n / 2}; else offs = {-(long)n / 2}; } }
        for (long o : offs) { size_t pre = n + 64; Bytes buf(pre + 2 * n + 2 * S + 64, 0xC3); u8* sm = &buf[pre]; u8* m = sm + o; if (n) memcpy(m, M.data(), n); ull l = 0; rnd(); CHECK(N[pi].sign(sm, &l, m, n, k.sk.data()) == 0, "crypto_sign fails with the message at offset %ld of the output", o); good(sm, l, "message at offset", o); for (size_t i = 0; i < buf.size(); i++) { long p = (long)i - (long)pre; if (p >= 0 && p < (long)(n + S)) continue; if (p >= o && p < o + (long)n) CHECK(buf[i] == M[p - o], "message bytes outside the output changed"); else CHECK(buf[i] == 0xC3, "byte %ld around the output changed", p); }
          Bytes b2(pre + 2 * n + 2 * S + 64, 0xC3); sm = &b2[pre]; memcpy(sm, &buf[pre], n + S); m = sm + o; ull ml = 99; CHECK(N[pi].open(m, &ml, sm, n + S, k.pk.data()) == 0, "crypto_sign_open fails with the output at offset %ld of the input", o); CHECK(ml == n && !memcmp(m, M.data(), n), "opening into offset %ld returns another message", o); H.eval(fnv(&o, 8, n * 16 + pi)); H.count("overlaps"); } });
      // refusals leave the outputs alone
      for (size_t n : {(size_t)0, (size_t)1, (size_t)40}) { if (!fast && !H.thorough && n == (pi % 4 ? 0 : 1)) continue; auto base = [&](Key& k, Bytes& sm) { k = key(P, 9); Bytes M = msg(n, 3); sm.resize(n + S); ull l; rnd(); CHECK(N[pi].sign(sm.data(), &l, M.data(), n, k.sk.data()) == 0, "sign"); };
        auto no = [&](const Key& k, const u8* sm, size_t have, ull l, const char* what, ull x) { Guard in(have, true, sm, true), o(l >= S ? l - S : 0, true), pk(P.pk, true, k.pk.data(), true); ull ml = 0x1122334455667788ull; int r = N[pi].open(o.p, &ml, in.p, l, pk.p); CHECK(r != 0, "crypto_sign_open accepts a signed message that is %s (%llu)", what, x); CHECK(ml == 0x1122334455667788ull, "refused opening changes the message length (%s %llu)", what, x); CHECK(o.untouched(), "refused opening writes the message buffer (%s %llu)", what, x);
          if (l < S || fast || x % 5 == 0) { Bytes b(sm, sm + have); Bytes c = b; CHECK(N[pi].open(b.data(), &ml, b.data(), l, k.pk.data()) != 0 && b == c, "refused opening in place changes the buffer (%s %llu)", what, x); } H.eval(fnv(sm, have, x + l * 3 + pi)); H.count("refused"); };
        H.run(fmt("%s %zu too short", P.name, n), [&] { Key k; Bytes sm; base(k, sm); for (ull l = 0; l < S; l++) if (f128 || H.thorough || l < 300 || l % 61 == pi || l + 200 > S) no(k, sm.data(), l, l, "too short", l); });
        H.run(fmt("%s %zu truncated and extended", P.name, n), [&] { Key k; Bytes sm; base(k, sm); for (size_t c = 1; c <= n; c++) { if (!(f128 || H.thorough) && c > 2 && c + 1 < n) continue; no(k, sm.data(), n + S - c, n + S - c, "cut at the end", c); no(k, sm.data() + c, n + S - c, n + S - c, "cut at the start", c); } for (size_t c : {1, 2, 3, 8, 16, 33, 4096}) { if (!(fast || H.thorough) && c > 1) continue; for (int f = 0; f < 2; f++) { Bytes x(sm); x.insert(f ? x.begin() : x.end(), c, (u8)(f * 85)); no(k, x.data(), x.size(), x.size(), f ? "extended in front" : "extended", c); } Bytes y(sm.begin(), sm.begin() + n); y.insert(y.end(), c, 0); y.insert(y.end(), sm.begin() + n, sm.end()); no(k, y.data(), y.size(), y.size(), "extended between message and signature", c); } });
        for (unsigned part = 0; part < (f128 ? 8u : 2u); part++) H.run(fmt("%s %zu altered %u", P.name, n, part), [&] { Key k; Bytes sm; base(k, sm); size_t step = H.thorough ? 31 : f128 ? 512 : fast ? 7777 : 40011; for (size_t b = part; b < 8 * n; b += f128 || H.thorough ? 8 : fast ? 99 : 300) { Bytes x(sm); x[b / 8] ^= 1 << (b % 8); no(k, x.data(), x.size(), x.size(), "altered in message bit", b); } for (size_t b = 8 * n + part * 13; b < 8 * sm.size(); b += step) { Bytes x(sm); x[b / 8] ^= 1 << (b % 8); no(k, x.data(), x.size(), x.size(), "altered in signature bit", b - 8 * n); }
          for (unsigned b = part; b < 8 * P.pk; b += f128 ? 32 : 311) { Key q = k; q.pk[b / 8] ^= 1 << (b % 8); no(q, sm.data(), sm.size(), sm.size(), "checked under a public key altered in bit", b); } }); }
    }
  });
}
