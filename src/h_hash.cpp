// C17: random oracles and SHAKE against the model: all lengths, chunkings, alignments, four-way, > 4 GiB.
#include "gen.hpp"
#include "harness.hpp"
extern "C" {
#include "random_oracle.h"
}
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { memset(p, 7, n); return 0; }
static Bytes model(unsigned lam, const Bytes& in, int sep, size_t n) { Shake s = ref::H(lam); s.add(in); if (sep >= 0) s.add((u8)sep); return s.get(n); }
// one random oracle computed over the given chunk lengths and, for H0/H3, both outputs
struct Ctx { hash_context c; };
static void H_init(int o, hash_context* c, unsigned lam) { switch (o) { case 0: H0_init(c, lam); break; case 1: H1_init(c, lam); break; case 2: H2_init(c, lam); break; default: H3_init(c, lam); } }
static void H_upd(int o, hash_context* c, const uint8_t* p, size_t n) { switch (o) { case 0: H0_update(c, p, n); break; case 1: H1_update(c, p, n); break; case 2: H2_update(c, p, n); break; default: H3_update(c, p, n); } }
static void H_fin(int o, hash_context* c, uint8_t* d, size_t n, size_t first) { switch (o) { case 0: H0_final(c, d, first, d + first, n - first); break; case 1: H1_final(c, d, n); break; case 2: H2_final(c, d, n); break; default: H3_final(c, d, n - 16, d + n - 16); } }
static void oracle1(Harness& H, int o, unsigned lam, const Bytes& in, const std::vector<size_t>& cuts, size_t outn, size_t first, unsigned ai, unsigned ao, const char* what) {
  if (o == 3 && outn < 16) outn = 16; if (first > outn) first = outn;
  alignas(64) unsigned char raw[sizeof(hash_context) + 64]; memset(raw, ai & 1 ? 0xff : 0x00, sizeof raw); hash_context* c = (hash_context*)raw; Bytes buf(in.size() + 32); if (in.size()) memcpy(&buf[ai], in.data(), in.size()); Bytes d(outn + 64, 0xC3);
  H_init(o, c, lam); size_t p = 0; for (size_t q : cuts) { H_upd(o, c, q == p && p == 0 ? nullptr : &buf[ai + p], q - p); p = q; } H_upd(o, c, &buf[ai + p], in.size() - p); H_fin(o, c, &d[16 + ao], outn, first);
  Bytes w = model(lam, in, o, outn); if (memcmp(&d[16 + ao], w.data(), outn)) { size_t i = 0; while (d[16 + ao + i] == w[i]) i++; std::string cs; for (size_t q : cuts) cs += fmt(" %zu", q); CHECK(false, "H%d level %u input length %zu cut at%s, output %zu (first %zu), alignment %u/%u (%s): output byte %zu differs", o, lam, in.size(), cs.c_str(), outn, first, ai, ao, what, i); }
  for (size_t i = 0; i < d.size(); i++) if (i < 16 + ao || i >= 16 + ao + outn) CHECK(d[i] == 0xC3, "H%d writes outside its output (%zu bytes requested)", o, outn); if (in.size()) CHECK(!memcmp(&buf[ai], in.data(), in.size()), "H%d changes its input", o);
  H.count("hashes");
}
static void four(Harness& H, unsigned lam, size_t n, const std::vector<size_t>& cuts, size_t s1, size_t s2, unsigned al) {
  Bytes in[4]; Bytes buf[4], o1[4], o2[4]; for (int i = 0; i < 4; i++) { in[i] = msg(n, 11 + i + n); buf[i].resize(n + 40); if (n) memcpy(&buf[i][(al + 3 * i) % 16], in[i].data(), n); o1[i].assign(s1 + 48, 0xC3); o2[i].assign(s2 + 48, 0xC3); }
  alignas(64) unsigned char raw[sizeof(H0_context_x4_t) + 64]; memset(raw, 0xA5, sizeof raw); H0_context_x4_t* c = (H0_context_x4_t*)raw; H0_x4_init(c, lam); size_t p = 0; auto at = [&](int i, size_t q) { return &buf[i][(al + 3 * i) % 16 + q]; };
  for (size_t q : cuts) { H0_x4_update(c, at(0, p), at(1, p), at(2, p), at(3, p), q - p); p = q; } H0_x4_update(c, at(0, p), at(1, p), at(2, p), at(3, p), n - p);
  auto O = [&](Bytes* o, int i) { return &o[i][16 + (al + 5 * i) % 16]; };
  H0_x4_final(c, O(o1, 0), O(o1, 1), O(o1, 2), O(o1, 3), s1, O(o2, 0), O(o2, 1), O(o2, 2), O(o2, 3), s2);
  for (int i = 0; i < 4; i++) { Bytes w = model(lam, in[i], 0, s1 + s2); CHECK(!memcmp(O(o1, i), w.data(), s1) && !memcmp(O(o2, i), w.data() + s1, s2), "four-way H0 level %u, input length %zu, outputs %zu+%zu: instance %d differs from the single run", lam, n, s1, s2, i);
    for (int z = 0; z < 2; z++) { Bytes& b = z ? o2[i] : o1[i]; size_t s = z ? s2 : s1, off = 16 + (al + 5 * i) % 16; for (size_t k = 0; k < b.size(); k++) if (k < off || k >= off + s) CHECK(b[k] == 0xC3, "four-way H0 writes outside output %d of instance %d", z, i); } }
  H.count("four_way"); 
}
// a >4 GiB readable (or writable) region backed by one small window
static const size_t WIN = 4u << 20;
static uint8_t* bigmap(size_t n, bool fill, int** = nullptr) {
  int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, WIN)) return nullptr; uint8_t* base = (uint8_t*)mmap(nullptr, n + 2 * WIN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) return nullptr;
  for (size_t o = 0; o < n + WIN; o += WIN) if (mmap(base + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
  if (fill) { Rng g(77); g.fill(base, WIN); } close(fd); return base;
}
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 400; H.maxViol = 1; std::string part = getenv("PART") ? getenv("PART") : "small"; 
  return H.main([&](Harness& H) {
    if (part == "small") for (unsigned lam : {128u, 192u, 256u}) { size_t rate = lam == 128 ? 168 : 136; size_t mx = H.thorough ? 4 * rate + 20 : 3 * rate + 8;
      for (size_t n = 0; n <= mx; n++) H.run(fmt("level %u input length %zu", lam, n), [&] { Bytes in = msg(n, 3);
        for (int o = 0; o < 4; o++) { for (unsigned a = 0; a < 16; a++) oracle1(H, o, lam, in, {}, 64, 32, a, (a * 5) % 16, "whole"); Bytes ff(n, 0xff), z(n, 0); oracle1(H, o, lam, ff, {}, 200, 24, 0, 0, "all ones"); oracle1(H, o, lam, z, {}, 200, 16, 1, 0, "all zero");
          std::vector<size_t> each; for (size_t i = 1; i < n; i++) each.push_back(i); oracle1(H, o, lam, in, each, 48, 16, 0, 0, "byte by byte"); if (n) oracle1(H, o, lam, in, {0, 0, n, n}, 48, 16, 3, 1, "empty updates"); }
        // every two-way split, rotating over the oracles (all four in thorough)
        for (size_t c = 0; c <= n; c++) for (int o = 0; o < 4; o++) { if (!H.thorough && (c + n) % 4 != (size_t)o) continue; oracle1(H, o, lam, in, {c}, 48, 16, c % 8, n % 8, "two updates"); }
        // three-way splits at and around the block boundary
        if (n >= rate - 2) for (size_t c = rate - 9; c <= rate + 1 && c <= n; c++) for (size_t e : {(size_t)1, (size_t)7, (size_t)8, rate - 1, rate, rate + 1}) if (c + e <= n) oracle1(H, (c + e) % 4, lam, in, {c, c + e}, 48, 32, 0, 0, "three updates");
        H.eval(n * 8 + lam); });
      for (size_t n = 0; n <= (H.thorough ? 1100u : 560u); n++) H.run(fmt("level %u output length %zu", lam, n), [&] { Bytes in = msg(n % 90, 5); for (int o = 0; o < 4; o++) oracle1(H, o, lam, in, {}, n, n / 2, 0, n % 16, "output length");
        for (size_t f = 0; f <= n; f += n < 60 || H.thorough ? 1 : 3) oracle1(H, 0, lam, in, {}, n, f, 0, f % 16, "two squeezes");
        // raw SHAKE squeezed in steps
        for (size_t st : {(size_t)1, (size_t)3, (size_t)8, (size_t)13, (size_t)16, rate - 1, rate, rate + 1}) { hash_context c; hash_init(&c, lam); hash_update(&c, in.data(), in.size()); hash_final(&c); Bytes d(n + 8, 0xC3); for (size_t p = 0; p < n; p += st) hash_squeeze(&c, &d[p], std::min(st, n - p)); hash_clear(&c); Bytes w = model(lam, in, -1, n); CHECK(!memcmp(d.data(), w.data(), n), "SHAKE level %u: %zu bytes squeezed %zu at a time differ", lam, n, st); for (int i = 0; i < 8; i++) CHECK(d[n + i] == 0xC3, "squeeze writes past its end"); H.count("hashes"); }
        H.eval(n * 8 + lam + 1000003); });
      for (size_t n = 0; n <= (H.thorough ? 700u : 420u); n += 1) H.run(fmt("level %u four-way %zu", lam, n), [&] { unsigned lb = lam / 8; for (unsigned a = 0; a < 16; a += n % 8 ? 5 : 1) four(H, lam, n, {}, lb, 2 * lb, a); for (size_t c = 0; c <= n; c += H.thorough ? 1 : 7) four(H, lam, n, {c}, n % 300, c % 300, c % 16); if (n > 20) four(H, lam, n, {1, 17, 18, n - 1}, 1, 400, 2); four(H, lam, n, {}, 0, lb, 0); four(H, lam, n, {}, rate, rate + 1, 0); H.eval(n * 8 + lam + 2000003); });
      // several contexts in use at once do not disturb each other
      for (unsigned k = 0; k < 8; k++) H.run(fmt("level %u interleaved contexts %u", lam, k), [&] { hash_context c[6]; Bytes in[6]; for (int i = 0; i < 6; i++) { in[i] = msg(200 + i, k * 10 + i); H_init(i % 4, &c[i], i & 1 ? lam : 128 + 64 * (i / 2)); } size_t st = 1 + k * 23; for (size_t p = 0; p < 206; p += st) for (int i = 0; i < 6; i++) if (p < in[i].size()) H_upd(i % 4, &c[i], &in[i][p], std::min(st, in[i].size() - p)); for (int i = 5; i >= 0; i--) { Bytes d(200); H_fin(i % 4, &c[i], d.data(), 200, 50); CHECK(d == model(i & 1 ? lam : 128 + 64 * (i / 2), in[i], i % 4, 200), "interleaved context %d (H%d) differs", i, i % 4); } H.eval(k + lam + 3000003); });
      for (size_t n : {(size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)1 << 20, ((size_t)1 << 24) + 3}) H.run(fmt("level %u input length %zu", lam, n), [&] { Bytes in = msg(n, 3); for (int o = 0; o < 4; o++) oracle1(H, o, lam, in, {}, 64, 16, o * 3, 0, "long"); for (size_t c : {(size_t)1, rate - 1, rate, n / 2, n - 1}) oracle1(H, c % 4, lam, in, {c}, 64, 16, 1, 0, "long split"); if (n < 100000) four(H, lam, n, {1}, 16, 32, 3); H.eval(n * 8 + lam + 4000003); });
    }
    // inputs longer than 4 GiB, after a prefix as the scheme absorbs one (public key, then message)
    const size_t G = (size_t)1 << 32;
    auto bigIn = [&](unsigned lam, size_t pre, std::vector<size_t> lens) {
      H.run(fmt("level %u, %zu bytes then about 4 GiB", lam, pre), [&] { uint8_t* b = bigmap(G + (1 << 20), true); if (!b) { H.note("cannot map 4 GiB"); return; } size_t common = lens[0]; for (size_t L : lens) common = std::min(common, L); common -= 4096; Bytes p = msg(pre, 9);
        // all lengths share the model's state up to the shortest one
        Shake s0 = ref::H(lam); s0.add(p); for (size_t o = 0; o < common; o += WIN) s0.add(b, std::min(WIN, common - o));
        std::vector<pid_t> kids; std::vector<std::string> bad; int fds[2]; CHECK(pipe(fds) == 0, "pipe");
        for (size_t L : lens) { pid_t k = fork(); if (!k) { alarm(H.thorough ? 200 : 60); Shake s = s0; size_t o = common; while (o < L) { size_t m = std::min(L - o, WIN - o % WIN); s.add(b + o % WIN, m); o += m; } s.add((u8)1); Bytes w = s.get(64), d(64); hash_context c; H1_init(&c, lam); H1_update(&c, p.data(), pre); H1_update(&c, b, L); H1_final(&c, d.data(), 64); _exit(d == w ? 0 : 9); } kids.push_back(k); }
        std::string err; for (size_t i = 0; i < kids.size(); i++) { int st; waitpid(kids[i], &st, 0); if (st) err += fmt(" [length %zu: %s]", lens[i], WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not terminate" : fmt("signal %d", WTERMSIG(st)).c_str()) : "wrong digest"); H.eval(lens[i] * 8 + lam + pre * 131); H.count("inputs_above_4GiB"); } close(fds[0]); close(fds[1]); munmap(b, G + (1 << 20) + 2 * WIN); CHECK(err.empty(), "H1 over %zu bytes followed by:%s", pre, err.c_str()); }); };
    if (part == "big") {
      if (!H.thorough) { bigIn(128, 32, {G - 1, G + 5}); bigIn(256, 64, {G, G + 100}); bigIn(192, 48, {G - 48, G + 1}); }
      else for (unsigned lam : {128u, 192u, 256u}) for (size_t pre : {0, 1, 32, 48, 64, 135}) bigIn(lam, pre, {G - pre - 1, G - pre, G - 1, G, G + 1, G + 100, G + 136, G + 300});
      for (unsigned lam : {128u, 256u}) H.run(fmt("level %u squeeze about 4 GiB", lam), [&] { uint8_t* b = bigmap(G + (1 << 20), false); if (!b) return; hash_context c; hash_init(&c, lam); Bytes in = msg(50, 1); hash_update(&c, in.data(), in.size()); hash_final(&c); uint8_t f[40]; hash_squeeze(&c, f, 40); size_t L = G + 3; hash_squeeze(&c, b, L); uint8_t after[16]; hash_squeeze(&c, after, 16);
        Shake s = ref::H(lam); s.add(in); Bytes w(WIN); uint8_t wf[40], wa[16]; s.get(wf, 40); for (size_t o = 0; o < L; o += WIN) s.get(w.data(), std::min(WIN, L - o)); s.get(wa, 16); CHECK(!memcmp(f, wf, 40) && !memcmp(after, wa, 16), "squeezing %zu bytes leaves the stream at the wrong position", L); size_t t = L % WIN; CHECK(!memcmp(b + (L - t), w.data(), t), "last bytes of a %zu byte squeeze differ", L); H.eval(L + lam); munmap(b, G + (1 << 20) + 2 * WIN); });
    }
    if (part == "big4") for (unsigned lam : {128u, 256u}) for (size_t L : {G - 1, G + 5}) { if (!H.thorough && (lam == 128) != (L == G - 1)) continue; H.run(fmt("four-way level %u length %zu", lam, L), [&] { uint8_t* b = bigmap(G + (1 << 20), true); if (!b) return; alarm(H.thorough ? 300 : 90); Bytes p = msg(64, 3); H0_context_x4_t c; H0_x4_init(&c, lam); H0_x4_update(&c, &p[0], &p[1], &p[2], &p[3], 30); H0_x4_update(&c, b, b, b, b, L); Bytes o(8 * 32); H0_x4_final(&c, &o[0], &o[32], &o[64], &o[96], 32, &o[128], &o[160], &o[192], &o[224], 32);
        Shake s = ref::H(lam); s.add(&p[2], 30); for (size_t q = 0; q < L; q += WIN) s.add(b, std::min(WIN, L - q)); s.add((u8)0); Bytes w = s.get(64); alarm(0); CHECK(!memcmp(&o[64], w.data(), 32) && !memcmp(&o[192], &w[32], 32), "four-way H0 of 30 + %zu bytes differs from the single run", L); H.eval(L + lam); munmap(b, G + (1 << 20) + 2 * WIN); }); }
  });
}
