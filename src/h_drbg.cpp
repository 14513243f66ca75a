// C22: the known-answer tooling: CTR-DRBG stream against a model, and generated files replayed.
#include "gen.hpp"
#include "guard.hpp"
#include <fstream>
#include <sstream>
using namespace ref; using namespace gen;
extern "C" { void randombytes_init(unsigned char*, unsigned char*, int); int randombytes(unsigned char*, unsigned long long); }
typedef unsigned long long ull;
#define NDECL(n) extern "C" { int csk_##n(uint8_t*, uint8_t*); int cs_##n(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); int cso_##n(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); }
#define NROW(n) {csk_##n, cs_##n, cso_##n},
APIALL(NDECL)
static struct { int (*kp)(uint8_t*, uint8_t*); int (*sign)(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); int (*open)(uint8_t*, ull*, const uint8_t*, ull, const uint8_t*); } N[12] = {APIALL(NROW)};
// ---- model: NIST SP 800-90A CTR_DRBG, AES-256, no derivation function
struct Drbg { Bytes K, V;
  static Bytes ecb(const Bytes& k, const Bytes& v) { return encrypt(expand(k.data(), 8, 4, 14), v.data()); }
  void update(const u8* d) { Bytes t; KS ks = expand(K.data(), 8, 4, 14); for (int i = 0; i < 3; i++) { ctrInc(V.data()); Bytes b = encrypt(ks, V.data()); t.insert(t.end(), b.begin(), b.end()); } if (d) for (int i = 0; i < 48; i++) t[i] ^= d[i]; K.assign(t.begin(), t.begin() + 32); V.assign(t.begin() + 32, t.end()); }
  Drbg(const u8* e, const u8* p) : K(32, 0), V(16, 0) { u8 s[48]; for (int i = 0; i < 48; i++) s[i] = e[i] ^ (p ? p[i] : 0); update(s); }
  Bytes get(size_t n) { Bytes o(n); KS ks = expand(K.data(), 8, 4, 14); for (size_t i = 0; i < n; i += 16) { ctrInc(V.data()); Bytes b = encrypt(ks, V.data()); memcpy(&o[i], b.data(), std::min<size_t>(16, n - i)); } update(nullptr); return o; } };
static u64 st(const Drbg& d) { return fnv(d.V.data(), 16, fnv(d.K.data(), 32)); }
static Bytes unhex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((u8)strtoul(s.substr(i, 2).c_str(), 0, 16)); return b; }
struct Entry { Bytes seed, msg, pk, sk, sm; ull mlen = 0, smlen = 0, count = 0; };
static bool hexOnly(const std::string& s) { if (s.size() % 2) return false; for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) return false; return true; }
static std::vector<Entry> parse(const std::string& f, bool rsp, const char* name) { std::ifstream in(f); CHECK(in.good(), "%s was not written", f.c_str()); std::vector<Entry> v; std::string l; bool hdr = !rsp; while (std::getline(in, l)) { if (l.empty()) continue; if (l[0] == '#') { CHECK(l == std::string("# faest_") + name, "header '%s'", l.c_str()); hdr = true; continue; } size_t e = l.find('='); CHECK(e != std::string::npos, "line without '=': %.80s", l.c_str()); std::string k = l.substr(0, l.find_last_not_of(" ", e - 1) + 1), x = e + 2 <= l.size() ? l.substr(e + 2) : ""; if (k == "count") { v.emplace_back(); v.back().count = strtoull(x.c_str(), 0, 10); continue; } CHECK(!v.empty(), "field %s before the first count", k.c_str()); Entry& n = v.back();
    if (k == "mlen") n.mlen = strtoull(x.c_str(), 0, 10); else if (k == "smlen") n.smlen = strtoull(x.c_str(), 0, 10); else { CHECK(hexOnly(x), "field %s of entry %llu is not upper-case hexadecimal", k.c_str(), n.count); Bytes b = unhex(x); if (k == "seed") n.seed = b; else if (k == "msg") n.msg = b; else if (k == "pk") n.pk = b; else if (k == "sk") n.sk = b; else if (k == "sm") n.sm = b; else throw Violation{"unknown field " + k}; } } CHECK(hdr, "no header"); return v; }
// what the generator must produce for one seed and message
struct Want { Bytes sk, pk, rho; };
static Want wantFor(const Params& P, const Bytes& seed) { Drbg d(seed.data(), nullptr); Want w; w.pk.resize(P.pk); do w.sk = d.get(P.sk); while (!keyFrom(P, w.sk.data(), w.pk.data())); w.rho = d.get(P.lb()); return w; }
#ifdef STUB
// stand-in block cipher (a fixed cheap function of the block), so that requests above 2 GiB take seconds
static u8 lastKey = 0; static bool odd = false;
extern "C" { void* __wrap_EVP_CIPHER_CTX_new() { static int x; return &x; } void __wrap_EVP_CIPHER_CTX_free(void*) {} int __wrap_EVP_EncryptInit_ex(void*, const void*, void*, const u8*, const u8*) { return 1; }
  int __wrap_EVP_EncryptUpdate(void*, u8* o, int* l, const u8* in, int n) { if (n != 16) odd = true; u64 a, b; memcpy(&a, in, 8); memcpy(&b, in + 8, 8); a ^= b * 0x9E3779B97F4A7C15ull; memcpy(o, &b, 8); memcpy(o + 8, &a, 8); *l = n; return 1; } }
#endif
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 300; const char* kd = getenv("KATDIR");
  return H.main([&](Harness& H) {
#ifdef STUB
    for (ull L : {(1ull << 31) - 16, (1ull << 31) + 5, (1ull << 32) + 21}) { H.run(fmt("request of %llu bytes", L), [&] { const size_t WIN = 4 << 20; int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, WIN)) { H.note("no memfd"); return; } size_t tot = L / WIN * WIN + WIN; u8* b = (u8*)mmap(nullptr, tot + 2 * WIN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { H.note("cannot map"); return; }
        b += WIN; for (size_t o = 0; o < tot; o += WIN) if (mmap(b + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { H.note("cannot map"); return; }
        Bytes seed = msg(48, 3); randombytes_init(seed.data(), nullptr, 256); memset(b, 0xC3, WIN); odd = false; CHECK(randombytes(b, L) == 0, "randombytes reports failure"); if (odd) { H.note("stand-in cipher not applicable"); return; }
        // the stand-in cipher shows the counter: every block is the previous one's successor, the last block sits at the end
        size_t t = L % WIN; auto blk = [&](size_t off) { u64 x; memcpy(&x, b + off / 16 * 16 % WIN, 8); return __builtin_bswap64(x); }; size_t last = (L - 1) / 16 * 16; u64 first = 0; { Bytes s2 = msg(48, 3), o(16); randombytes_init(s2.data(), nullptr, 256); randombytes(o.data(), 16); u64 x; memcpy(&x, o.data(), 8); first = __builtin_bswap64(x); }
        if (L % 16 == 0) CHECK(blk(last) == first + last / 16, "the last block of a %llu byte request is not block %zu of the stream", L, last / 16); else { u8 w[8]; u64 x = __builtin_bswap64(first + last / 16); memcpy(w, &x, 8); CHECK(!memcmp(b + last % WIN, w, std::min<size_t>(8, L - last)), "the last bytes of a %llu byte request are not block %zu of the stream", L, last / 16); }
        CHECK(blk(last - 16) == first + last / 16 - 1, "the block before the last one of a %llu byte request is not the stream's", L); (void)t; H.eval(L); munmap(b - WIN, tot + 2 * WIN); close(fd); }); }
#else
    if (!kd) {
      auto run = [&](const Bytes& seed, const Bytes* pers, const std::vector<size_t>& req, const char* what) { Bytes e(seed), p(pers ? *pers : Bytes()); Drbg d(seed.data(), pers ? pers->data() : nullptr); randombytes_init(e.data(), pers ? p.data() : nullptr, 256); CHECK(e == seed && (!pers || p == *pers), "randombytes_init changes its input"); H.distinct("model_states", st(d)); std::string h;
        for (size_t n : req) { h += fmt(" %zu", n); Bytes w = d.get(n); Bytes o(n + 32, 0xC3); CHECK(randombytes(&o[16], n) == 0, "randombytes reports failure"); CHECK(!memcmp(&o[16], w.data(), n), "%s: request sequence%s: stream differs from the CTR-DRBG's (seed %s)", what, h.c_str(), hex(seed.data(), 48).c_str()); for (int i = 0; i < 16; i++) CHECK(o[i] == 0xC3 && o[16 + n + i] == 0xC3, "request of %zu bytes writes outside its buffer", n); H.distinct("model_states", st(d)); H.count("requests"); } H.eval(fnv(req.data(), req.size() * sizeof(size_t), fnv(seed.data(), 48, pers ? fnv(pers->data(), 48) : 1))); };
      Bytes s0(48); for (int i = 0; i < 48; i++) s0[i] = i;
      size_t m1 = H.thorough ? 8192 : 2100, m2 = H.thorough ? 160 : 67, m3 = H.thorough ? 67 : 19;
      for (size_t a = 0; a < m1; a += 32) H.run(fmt("requests of %zu.. bytes", a), [&] { for (size_t i = a; i < a + 32; i++) run(s0, nullptr, {i, 16, i % 7}, "single request"); });
      for (size_t a = 0; a < m2; a++) H.run(fmt("pairs of requests from %zu", a), [&] { for (size_t b = 0; b < m2; b++) run(msg(48, a), nullptr, {a, b, 5}, "pair"); });
      std::vector<size_t> z; for (size_t i = 0; i < m3; i++) z.push_back(i); for (size_t i : {31, 32, 33, 47, 48, 49, 64}) z.push_back(i);
      for (size_t a = 0; a < z.size(); a++) H.run(fmt("triples of requests from %zu", z[a]), [&] { for (size_t b : z) for (size_t c : z) run(msg(48, b + 7), nullptr, {z[a], b, c, 3}, "triple"); });
      for (size_t a : {0, 1, 15, 16, 17, 48}) for (size_t b : {0, 1, 15, 16, 17, 48}) H.run(fmt("long sequences from %zu %zu", a, b), [&] { for (size_t c : {0, 1, 16, 17}) for (size_t d : {0, 1, 16, 17}) for (size_t e : {0, 1, 16, 33}) for (size_t f : {0, 15, 16, 100}) run(s0, nullptr, {a, b, c, d, e, f, 20}, "sequence"); });
      for (size_t n : {(size_t)65535, (size_t)65536, (size_t)65537, (size_t)1048577, (size_t)4194309}) H.run(fmt("large request %zu", n), [&] { run(s0, nullptr, {n, 17}, "large request"); });
      // every seed bit, every personalization bit, structured values; history does not matter
      for (unsigned v = 0; v < 48; v++) H.run(fmt("seed byte %u", v), [&] { for (int b = 0; b < 8; b++) { Bytes s(48, 0), f(48, 0xff); s[v] = 1 << b; f[v] ^= 1 << b; Bytes p(48, 0); p[47 - v] = 0x80 >> b; run(s, nullptr, {48, 33}, "seed bit"); run(f, nullptr, {32}, "seed bit"); run(s0, &p, {48, 7}, "personalization bit"); run(s, &p, {16}, "both"); run(f, &s, {50}, "both"); } for (int k = 0; k < 4; k++) { Bytes c(48, k * 85 + v); run(c, nullptr, {48}, "constant seed"); run(c, &c, {48}, "seed equal to the personalization string"); } });
      // every carry of the counter, in the output blocks and in the state update
      for (int k = 0; k < 16; k++) H.run(fmt("counter carry into byte %d", k), [&] { Drbg z(Bytes(48, 0).data(), nullptr); Bytes base = z.V; for (int lo = 0; lo < 12; lo++) for (int top : {0x00, 0x7f, 0xfe, 0xff}) { Bytes V(16, 0xff); for (int i = 0; i < k; i++) V[i] = 0x5a; if (k) V[k - 1] = top; V[15] = 0xff - lo; Bytes s(48, 0); Rng g(lo * 7 + k); g.fill(s.data(), 32); for (int i = 0; i < 16; i++) s[32 + i] = base[i] ^ V[i]; { Drbg t(s.data(), nullptr); if (t.V != V) throw Violation{"generator: counter not placed"}; } for (auto& r : std::vector<std::vector<size_t>>{{16, 16}, {64, 1}, {200, 16}, {1, 1, 1}, {0, 0, 40}, {160}}) run(s, nullptr, r, "carry"); } });
      // one known-answer entry at a time, for other seeds and lengths than the files'
      for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); for (unsigned k = 0; k < (H.thorough ? 64u : fast ? 12u : 1u); k++) H.run(fmt("%s entry for seed %u", P.name, k), [&] { Bytes seed = msg(48, k * 31 + pi), M = msg(k * k * 3, k); Want w = wantFor(P, seed); Bytes sk(P.sk), pk(P.pk), sm(M.size() + P.sig); ull l = 0; randombytes_init(seed.data(), nullptr, 256); CHECK(N[pi].kp(pk.data(), sk.data()) == 0 && N[pi].sign(sm.data(), &l, M.data(), M.size(), sk.data()) == 0, "generation fails"); CHECK(sk == w.sk && pk == w.pk, "the key pair is not the function of the seed"); Bytes s = ref::sign(P, sk.data(), M.data(), M.size(), w.rho.data(), w.rho.size()); CHECK(l == sm.size() && !memcmp(&sm[0], M.data(), M.size()) && !memcmp(&sm[M.size()], s.data(), P.sig), "the signed message is not the function of the seed"); H.eval(fnv(seed.data(), 48, pi)); H.count("entries"); }); }
    } else for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); std::string f = std::string(kd) + "/PQCsignKAT_faest_" + P.name; struct stat_ {}; if (access((f + ".rsp").c_str(), R_OK)) { if (getenv("KATALL")) H.run(fmt("%s files", P.name), [&] { throw Violation{"the generator wrote no files"}; }); continue; }
      for (unsigned w = 0; w < 8; w++) H.run(fmt("%s files part %u", P.name, w), [&] { auto rq = parse(f + ".req", false, P.name), rs = parse(f + ".rsp", true, P.name); CHECK(rq.size() == 100 && rs.size() == 100, "%zu requests and %zu responses", rq.size(), rs.size()); Bytes e(48); for (int i = 0; i < 48; i++) e[i] = i; Drbg d(e.data(), nullptr);
        for (unsigned i = 0; i < 100; i++) { Bytes sd = d.get(48), M = d.get(33 * (i + 1)); CHECK(rq[i].count == i && rs[i].count == i, "entry %u is numbered %llu and %llu", i, rq[i].count, rs[i].count); CHECK(rq[i].seed == sd && rs[i].seed == sd, "seed of entry %u is not the generator's stream", i); CHECK(rq[i].msg == M && rs[i].msg == M && rq[i].mlen == M.size() && rs[i].mlen == M.size(), "message of entry %u", i); CHECK(rs[i].smlen == rs[i].sm.size() && rs[i].smlen == M.size() + P.sig, "entry %u: signed length %llu", i, rs[i].smlen); if (i % 8 != w) continue; if (!fast && !H.thorough && i % 9) continue;
          auto& R = rs[i]; Want wt = wantFor(P, sd); CHECK(R.sk == wt.sk && R.pk == wt.pk, "keys of entry %u are not the function of its seed", i); CHECK(!memcmp(R.sm.data(), M.data(), M.size()), "entry %u: the signed message does not start with the message", i); Bytes o(M.size()); ull ml = 0; CHECK(N[pi].open(o.data(), &ml, R.sm.data(), R.sm.size(), R.pk.data()) == 0 && ml == M.size() && o == M, "entry %u cannot be opened through the public interface", i);
          Bytes s(P.sig); size_t l = P.sig; CHECK(API[pi].signr(R.sk.data(), M.data(), M.size(), wt.rho.data(), wt.rho.size(), s.data(), &l) == 0 && !memcmp(s.data(), &R.sm[M.size()], P.sig), "signature of entry %u is not reproduced", i); { randombytes_init(sd.data(), nullptr, 256); Bytes pk(P.pk), sk(P.sk), sm(M.size() + P.sig); ull n; CHECK(N[pi].kp(pk.data(), sk.data()) == 0 && pk == R.pk && sk == R.sk, "entry %u: keys not reproduced through the public interface", i); if (fast) CHECK(N[pi].sign(sm.data(), &n, M.data(), M.size(), sk.data()) == 0 && sm == R.sm, "entry %u: signed message not reproduced through the public interface", i); } H.eval(fnv(R.sm.data(), R.sm.size())); H.count("entries"); } }); }
#endif
  });
}
