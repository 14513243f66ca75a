// C03 (every change is rejected) and C04 (the verifier decides exactly like the model verifier).
#include "oracle.hpp"
#include "gen.hpp"
#include "guard.hpp"
using namespace ref; using namespace gen;
extern "C" int rand_bytes(uint8_t* p, size_t n) { static uint64_t c = 0; Rng g(++c + 99); g.fill(p, n); return 0; }
struct Base { Key k; Bytes m, rho, sig; };
static std::map<std::pair<unsigned, unsigned>, Base> bases;
static const Base& base(unsigned pi, unsigned b, uint64_t seed) {
  auto it = bases.find({pi, b}); if (it != bases.end()) return it->second;
  const Params& P = ALL[pi]; Base x; x.k = key(P, b ? b : 8, seed); x.m = msg(b == 1 ? 0 : 20 + b, seed); x.rho = msg(P.lb(), b + 7); x.sig.resize(P.sig); size_t sl = P.sig;
  oracle::reset(); int r = API[pi].signr(x.k.sk.data(), x.m.data(), x.m.size(), x.rho.data(), x.rho.size(), x.sig.data(), &sl); CHECK(r == 0, "sign failed");
  CHECK(API[pi].verify(x.k.pk.data(), x.m.data(), x.m.size(), x.sig.data(), sl) == 0, "honest signature rejected: base case unusable");
  return bases[{pi, b}] = x;
}
static std::string comp(const Params& P, size_t o) {
  if (o < P.off_u()) return fmt("c_%zu byte %zu", o / P.eb() + 1, o % P.eb()); if (o < P.off_d()) return fmt("u_tilde byte %zu", o - P.off_u()); if (o < P.off_a()) return fmt("d byte %zu", o - P.off_d());
  if (o < P.off_pdec(0)) return fmt("a_tilde byte %zu", o - P.off_a()); if (o >= P.off_iv()) return fmt("iv byte %zu", o - P.off_iv()); if (o >= P.off_ch3()) return fmt("chall_3 byte %zu", o - P.off_ch3());
  for (unsigned i = P.tau; i-- > 0;) { if (o >= P.off_com(i)) return fmt("com_%u byte %zu", i, o - P.off_com(i)); if (o >= P.off_pdec(i)) return fmt("pdec_%u byte %zu", i, o - P.off_pdec(i)); } return "?";
}
static std::vector<std::pair<size_t, size_t>> components(const Params& P) { std::vector<std::pair<size_t, size_t>> v; for (unsigned i = 0; i + 1 < P.tau; i++) v.push_back({P.off_c(i), P.eb()}); v.push_back({P.off_u(), P.lb() + 2}); v.push_back({P.off_d(), P.l / 8}); v.push_back({P.off_a(), P.lb()});
  for (unsigned i = 0; i < P.tau; i++) { for (unsigned d = 0; d < P.depth(i); d++) v.push_back({P.off_pdec(i) + d * P.lb(), P.lb()}); v.push_back({P.off_com(i), 2 * P.lb()}); } v.push_back({P.off_ch3(), P.lb()}); v.push_back({P.off_iv(), 16}); return v; }
static void must(Harness& H, unsigned pi, const Bytes& pk, const Bytes& m, const Bytes& sig, size_t sl, const std::string& what) {
  int v = API[pi].verify(pk.data(), m.empty() ? nullptr : m.data(), m.size(), sig.data(), sl); H.eval(fnvs(what, fnv(sig.data(), sl == ALL[pi].sig ? sig.size() : 16, pi + fnv(pk.data(), pk.size(), fnv(m.data(), m.size(), sl)))));
  CHECK(v != 0, "%s: verification accepted a changed %s (pk=%s)", ALL[pi].name, what.c_str(), hex(pk.data(), pk.size()).c_str());
}
int main(int argc, char** argv) {
  Harness H(argc, argv); const char* pt = getenv("PART"); std::string part = pt ? pt : "bits"; H.caseLimit = 300; bool lite = getenv("LITE") != nullptr;
  return H.main([&](Harness& H) {
    if (part == "bits" && !lite) for (unsigned pi : {1u, 9u, 3u, 5u}) { if (pi != 1 && !H.thorough) continue; const Params& P = ALL[pi]; // lengths that do not fit in 32 bits
      for (int v = 0; v < 2; v++) H.run(fmt("%s message of more than 4 GiB, %s", P.name, v ? "signature of its start" : "altered"), [&] { size_t L = ((size_t)1 << 32) + 5; Bytes w = msg(Big::WIN, 5); Big m(L, w.data()); if (!m.p) { H.note("cannot map 4 GiB"); return; } Key k = key(P, 9, H.seed); Bytes sig(P.sig), rho = msg(P.lb(), 7); size_t sl = P.sig;
        CHECK(API[pi].signr(k.sk.data(), m.p, v ? 5 : L, rho.data(), rho.size(), sig.data(), &sl) == 0, "sign failed"); if (!v) m.p[L - 2] ^= 4; int r = API[pi].verify(k.pk.data(), m.p, L, sig.data(), P.sig); H.eval(fnv(&v, 4, pi)); CHECK(r != 0, "%s", v ? "the signature of the first 5 bytes is accepted for a message of 2^32+5 bytes" : "a message of 2^32+5 bytes is accepted after a change near its end"); }); }
    for (unsigned pi0 = 0; pi0 < 12; pi0++) { static const unsigned ord[12] = {4, 10, 8, 2, 0, 6, 5, 11, 9, 3, 7, 1}; unsigned pi = ord[pi0]; const Params& P = ALL[pi]; bool fast = isFast(P); uint64_t sd = H.seed;
      if (lite && !fast) continue;
      if (part == "bits") {
        std::vector<size_t> bits; Rng g(pi + 5); std::vector<uint8_t> seen(P.sig * 8, 0); auto add = [&](size_t b) { if (!seen[b]) { seen[b] = 1; bits.push_back(b); } };
        unsigned ci = 0; for (auto& c : components(P)) { // both ends of every component
          ci++; if (lite && ci % 5) continue; if (!H.thorough && P.lambda > 128 && c.second == P.lb() && c.first >= P.off_pdec(0) && c.first < P.off_ch3()) { add(ci % 2 ? c.first * 8 : (c.first + c.second) * 8 - 1); continue; }
          if (!fast && c.second == P.lb() && c.first > P.off_com(0) && c.first < P.off_ch3() && (c.first / P.lb()) % (H.thorough ? 2 : 12)) continue; if (!fast && !H.thorough) { add(ci % 2 ? c.first * 8 : (c.first + c.second) * 8 - 1); continue; }
          add(c.first * 8); add((c.first + c.second) * 8 - 1); }
        size_t bstride = H.thorough ? (fast ? 1 : 3) : fast ? (P.lambda == 128 ? 5 : P.lambda == 192 ? 60 : 200) : (P.lambda == 128 ? 160 : P.lambda == 192 ? 900 : 1800); if (lite) bstride *= 40;
        for (size_t o = 0; o < P.sig; o += bstride) { if (H.thorough && fast && P.lambda == 128) for (int b = 0; b < 8; b++) add(o * 8 + b); else add(o * 8 + (o / bstride * 3 + sd) % 8); }
        if (fast) for (size_t o = P.off_ch3(); o < P.sig; o++) for (int b = 0; b < 8; b++) if (H.thorough || (!lite && P.lambda == 128) || b == (int)(o % 8)) add(o * 8 + b);
        for (auto rg : {std::make_pair((size_t)P.off_u(), (size_t)P.off_d()), std::make_pair((size_t)P.off_a(), (size_t)P.off_pdec(0)), std::make_pair((size_t)P.off_ch3(), (size_t)P.sig)}) for (size_t o = rg.first; o < rg.second; o++) { if (!lite && !fast && !H.thorough && P.lambda > 128 && o % 3) continue; if (lite && o % 4) continue; for (int b = 0; b < 8; b++) if (H.thorough || (!lite && fast && P.lambda == 128) || b == (int)((o / 3 + sd) % 8)) add(o * 8 + b); } // the short components
        size_t chunk = fast ? 32 : 8;
        for (size_t s = 0; s < bits.size(); s += chunk) H.run(fmt("%s signature bits chunk %zu", P.name, s / chunk), [&] { const Base& B = base(pi, 0, sd);
          for (size_t q = s; q < std::min(s + chunk, bits.size()); q++) { Bytes x = B.sig; x[bits[q] / 8] ^= 1 << (bits[q] % 8); must(H, pi, B.k.pk, B.m, x, P.sig, fmt("signature bit %zu (%s bit %zu)", bits[q], comp(P, bits[q] / 8).c_str(), bits[q] % 8)); H.count("signature_bits"); } });
        if (lite) continue;
        // message and public key bits, message lengths
        H.run(fmt("%s message", P.name), [&] { for (unsigned b : {0u, 1u}) { const Base& B = base(pi, b, sd); 
          for (size_t i = 0; i < B.m.size() * 8; i += fast ? (H.thorough ? 1 : 11) : 60) { Bytes m = B.m; m[i / 8] ^= 1 << (i % 8); must(H, pi, B.k.pk, m, B.sig, P.sig, fmt("message bit %zu", i)); }
          for (size_t cut = 1; cut <= B.m.size(); cut += fast ? 7 : 19) { Bytes m(B.m.begin(), B.m.end() - cut); must(H, pi, B.k.pk, m, B.sig, P.sig, fmt("message, truncated by %zu", cut)); }
          for (size_t ext : {1, 2, 8, 136, 168, 200}) { for (int v : {0, 1, 0x1f}) { Bytes m = B.m; m.insert(m.end(), ext, (u8)v); must(H, pi, B.k.pk, m, B.sig, P.sig, fmt("message, extended by %zu bytes of %d", ext, v)); if (!fast) break; } if (!fast && ext > 1) break; }
          Bytes m = B.m; if (m.size() > 1) { std::swap(m[0], m[m.size() - 1]); if (m != B.m) must(H, pi, B.k.pk, m, B.sig, P.sig, "message, two bytes swapped"); } } });
        H.run(fmt("%s long messages", P.name), [&] { if (!fast && P.lambda > 128) return; for (size_t L : {(size_t)135, (size_t)136, (size_t)168, (size_t)300, (size_t)4096, (size_t)65536, (size_t)70000}) { if (!fast && L != 300) continue; Bytes m = msg(L, 3), sig(P.sig); Key k = key(P, 9, sd); size_t sl = P.sig; CHECK(API[pi].signr(k.sk.data(), m.data(), L, nullptr, 0, sig.data(), &sl) == 0, "sign failed");
          for (size_t o : {(size_t)0, L / 2, L - 2, L - 1}) { Bytes x = m; x[o] ^= 0x80; must(H, pi, k.pk, x, sig, P.sig, fmt("message of %zu bytes at byte %zu", L, o)); } for (size_t o : {(size_t)1, (size_t)2}) { Bytes x(m.begin(), m.end() - o); must(H, pi, k.pk, x, sig, P.sig, fmt("message of %zu bytes truncated by %zu", L, o)); } } });
        size_t ps = fast ? (P.lambda == 128 ? 1 : P.lambda == 192 ? 5 : 9) : 56; if (H.thorough) ps = 1;
        for (size_t s = 0; s < P.pk * 8; s += 64 * ps) H.run(fmt("%s public key bits from %zu", P.name, s), [&] { const Base& B = base(pi, 0, sd); for (size_t i = s; i < std::min<size_t>(s + 64 * ps, P.pk * 8); i += ps) { Bytes pk = B.k.pk; pk[i / 8] ^= 1 << (i % 8); must(H, pi, pk, B.m, B.sig, P.sig, fmt("public key bit %zu", i)); } });
        // lengths
        H.run(fmt("%s signature length", P.name), [&] { const Base& B = base(pi, 0, sd); Bytes x = B.sig; x.resize(2 * P.sig + 64, 0); memcpy(&x[P.sig], &B.sig[0], P.sig);
          for (size_t L = 0; L < x.size(); L++) if (L != P.sig) must(H, pi, B.k.pk, B.m, x, L, "signature length");
          for (int s = 16; s < 64; s++) for (long long d : {-1, 0, 1}) must(H, pi, B.k.pk, B.m, x, (size_t)P.sig + ((size_t)1 << s) + d, "signature length (plus a power of two)"); must(H, pi, B.k.pk, B.m, x, SIZE_MAX, "signature length SIZE_MAX"); });
        H.run(fmt("%s other key, other message", P.name), [&] { const Base &B = base(pi, 0, sd), &C = base(pi, 2, sd); must(H, pi, C.k.pk, B.m, B.sig, P.sig, "public key"); must(H, pi, B.k.pk, C.m, B.sig, P.sig, "message"); Bytes pk = B.k.pk; std::swap_ranges(pk.begin(), pk.begin() + P.pk / 2, pk.begin() + P.pk / 2); must(H, pi, pk, B.m, B.sig, P.sig, "public key (halves swapped)");
          auto cs = components(P); for (size_t i = 0; i < cs.size(); i += fast ? 1 + cs.size() / (P.lambda == 128 ? 60 : 20) : 1 + cs.size() / 8) { Bytes x = B.sig; memcpy(&x[cs[i].first], &C.sig[cs[i].first], cs[i].second); if (x != B.sig) must(H, pi, B.k.pk, B.m, x, P.sig, "component " + comp(P, cs[i].first) + " from another signature"); } });
        // compensating two-component changes: the same difference in two places
        H.run(fmt("%s paired changes", P.name), [&] { const Base& B = base(pi, 0, sd); auto cs = components(P); Rng r(3); unsigned n = H.thorough ? 200 : !fast ? 6 : P.lambda == 128 ? 60 : 24; for (unsigned t = 0; t < n; t++) { auto &a = cs[t < 40 ? t % (P.tau - 1) : r.next() % cs.size()], &b = cs[t < 40 ? (t + 1) % (P.tau - 1) : r.next() % cs.size()]; if (a == b) continue; Bytes x = B.sig; size_t o = r.next() % std::min(a.second, b.second); u8 dlt = 1 << (t % 8); x[a.first + o] ^= dlt; x[b.first + o] ^= dlt; must(H, pi, B.k.pk, B.m, x, P.sig, "pair of components"); 
            x = B.sig; if (a.second == b.second) { std::swap_ranges(x.begin() + a.first, x.begin() + a.first + a.second, x.begin() + b.first); if (x != B.sig) must(H, pi, B.k.pk, B.m, x, P.sig, "pair of components (swapped)"); } } });
      }
      if (part == "hash") { // flip single bits of the values the verifier recomputes by hashing
        auto flips = [&](const char* stage, size_t len, size_t n, size_t stride, unsigned ordinal, const std::string& nm, size_t from) { // ordinal: which call of that kind (0xffffffff: by length)
          for (size_t s = 0; s < n; s += stride * 32) H.run(fmt("%s %s bits from %zu", P.name, nm.c_str(), s), [&] { const Base& B = base(pi, 0, sd); for (size_t i = s; i < std::min(n, s + stride * 32); i += stride) { oracle::reset(); bool hit = false;
              oracle::prog = [&](const char* st, Bytes& b) { if (!strcmp(st, stage) && (ordinal == 0xffffffff ? b.size() == len : oracle::h1n == ordinal) && i + from < b.size() * 8) { size_t q = (i + from); b[q / 8] ^= 1 << (q % 8); hit = true; } };
              int v = API[pi].verify(B.k.pk.data(), B.m.data(), B.m.size(), B.sig.data(), P.sig); oracle::reset(); if (!hit) { H.count("hash_call_not_reached"); continue; }
              H.eval(fnvs(nm, i * 131 + pi)); H.count("hash_bits"); CHECK(v != 0, "%s: signature accepted although bit %zu of %s differs from the honest value", P.name, i, nm.c_str()); } }); };
        size_t lam = P.lambda;
        flips("H2", P.lb(), lam, fast || H.thorough ? 1 : lam == 128 ? 2 : 8, 0xffffffff, "recomputed chall_3", 0);
        flips("H2", 3 * P.lb() + 8, 3 * lam + 64, H.thorough ? 8 : fast ? 29 : 131, 0xffffffff, "chall_2", 0);
        flips("H2", 5 * P.lb() + 8, 5 * lam + 64, H.thorough ? 8 : fast ? 41 : 203, 0xffffffff, "chall_1", 0);
        for (unsigned c = 1; c <= P.tau + 3; c++) if (fast || H.thorough || c <= 2 || c >= P.tau + 2 || c % 4 == 0) flips("H1", 0, 2 * lam, H.thorough ? (fast ? 8 : 61) : fast ? (c <= 1 || c >= P.tau + 2 ? 17 : 127) : 511, c, fmt("hash value %u", c), c % 7);
      }
      if (part == "cmp") { // the recomputed third challenge replaced: every pattern of difference a weak comparison could overlook
        size_t n = P.lb(); std::vector<std::pair<Bytes, Bytes>> pt; std::vector<std::string> nm; Bytes c0; auto add = [&](const Bytes& c, const Bytes& r, const std::string& s) { if (c != r) { pt.push_back({c, r}); nm.push_back(s); } };
        for (int kind = 0; kind < 2; kind++) { Rng g(pi * 2 + kind + 5); c0 = g.bytes(n); if (kind) for (auto& x : c0) x |= 1; static const u8 dl[] = {0x80, 0xff, 1, 0x5a};
          for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { if (kind && j != i + 1) continue; Bytes r = c0; u8 d = dl[(i * 7 + j) % 4]; r[i] ^= d; r[j] ^= d; add(c0, r, fmt("bytes %zu and %zu changed alike", i, j)); r = c0; if (j == i + 1 || j % 8 == i % 8) { r[i]++; r[j]--; add(c0, r, fmt("bytes %zu and %zu changed by +1 and -1", i, j)); r = c0; std::swap(r[i], r[j]); add(c0, r, fmt("bytes %zu and %zu swapped", i, j)); } }
          for (size_t i = 0; i + 1 < n; i += 2) { Bytes r = c0; r[i] ^= 1; r[(i + 1) % n] ^= 2; r[(i + 5) % n] ^= 3; add(c0, r, "three cancelling changes"); }
          for (size_t k = 0; k < n; k++) { Bytes r = c0; for (size_t i = k; i < n; i++) r[i] = ~r[i]; add(c0, r, fmt("equal up to byte %zu only", k)); r = c0; for (size_t i = 0; i <= k; i++) r[i] = ~r[i]; add(c0, r, fmt("equal after byte %zu only", k)); r = c0; std::rotate(r.begin(), r.begin() + k, r.end()); add(c0, r, fmt("rotated by %zu", k)); for (u8 d : {1, 0x10, 0x80, 0xff}) { r = c0; r[k] ^= d; add(c0, r, fmt("byte %zu changed", k)); } }
          for (size_t w : {2, 4, 8, 16}) for (size_t o = 0; o + w <= n; o += w) { Bytes r = c0; for (size_t i = 0; i < w; i++) r[o + i] ^= 0x10 << (i & 1); add(c0, r, fmt("word of %zu bytes at %zu", w, o)); for (size_t q = o + w; q + w <= n; q += w) { Bytes s = c0; std::swap_ranges(s.begin() + o, s.begin() + o + w, s.begin() + q); add(c0, s, "words swapped"); s = r; for (size_t i = 0; i < w; i++) s[q + i] ^= 0x10 << (i & 1); add(c0, s, "two words changed alike"); } }
          Bytes r = c0; std::reverse(r.begin(), r.end()); add(c0, r, "reversed"); for (u8 d : {1, 0x10, 0x55, 0x80, 0xff}) { r = c0; for (auto& x : r) x ^= d; add(c0, r, "every byte changed alike"); }
          // challenges with special bytes
          for (size_t p = 0; p < n; p++) for (u8 z : {0, 0xff, 10, 0x80}) { if (z && p % 4) continue; Bytes c = c0; c[p] = z; for (size_t q = 0; q < n; q++) { if (q == p || (q != p + 1 && q + 1 != p && q && q + 1 != n && !(P.lambda == 128 && !z))) continue; Bytes s = c; s[q] ^= dl[q % 4]; add(c, s, fmt("byte %zu is %02x, byte %zu changed", p, z, q)); } }
          for (u8 f : {0, 0xff}) { Bytes c(n, f), s; for (size_t q = 0; q < n; q++) for (u8 d : {1, 0x80, 0xff}) { s = c; s[q] ^= d; add(c, s, fmt("all %02x, byte %zu changed", f, q)); if (q % 5 == 0) add(s, c, fmt("recomputed all %02x, byte %zu changed", f, q)); } } }
        size_t step = H.thorough ? 1 : fast ? (P.lambda == 128 ? 2 : P.lambda == 192 ? 7 : 14) : P.lambda == 128 ? 101 : 211, chunk = fast ? 24 * step : 4 * step; if (lite) step *= 4; size_t ph = (pi / 6 + sd) % step;
        for (size_t s = 0; s < pt.size(); s += chunk) H.run(fmt("%s final comparison, patterns from %zu", P.name, s), [&] { const Base& B = base(pi, 0, sd);
          for (size_t i = s + ph; i < std::min(pt.size(), s + chunk); i += step) { Bytes x = B.sig; memcpy(&x[P.off_ch3()], pt[i].first.data(), n); oracle::reset(); bool hit = false; oracle::prog = [&](const char* st, Bytes& b) { if (!strcmp(st, "H2") && b.size() == n) { b = pt[i].second; hit = true; } };
            int v = API[pi].verify(B.k.pk.data(), B.m.data(), B.m.size(), x.data(), P.sig); oracle::reset(); if (!hit) H.count("hash_call_not_reached"); H.eval(fnv(pt[i].first.data(), n, fnv(pt[i].second.data(), n, pi))); H.count("model_rejects"); H.distinct("model_states", fnv(pt[i].second.data(), n, pi)); CHECK(v != 0, "%s: signature accepted although the recomputed third challenge %s is not the one it carries, %s (%s)", P.name, hex(pt[i].second.data(), n).c_str(), hex(pt[i].first.data(), n).c_str(), nm[i].c_str()); } });
        H.run(fmt("%s final comparison, equal", P.name), [&] { const Base& B = base(pi, 0, sd); for (int k = 0; k < 3; k++) { Rng g(k + 40); Bytes c = k ? g.bytes(n) : Bytes(n, 0), x = B.sig; memcpy(&x[P.off_ch3()], c.data(), n); oracle::reset(); bool hit = false; oracle::prog = [&](const char* st, Bytes& b) { if (!strcmp(st, "H2") && b.size() == n) { b = c; hit = true; } };
            int v = API[pi].verify(B.k.pk.data(), B.m.data(), B.m.size(), x.data(), P.sig); oracle::reset(); if (!hit) { H.count("hash_call_not_reached"); continue; } H.eval(fnv(c.data(), n, pi)); H.count("model_accepts"); if (getenv("ACC")) CHECK(v == 0, "%s: signature rejected although the recomputed third challenge is the one it carries", P.name); } });
      }
      if (part == "adv") {
        Rng g(pi + 17); struct Dev { std::string name; std::string stage; unsigned idx; std::function<void(Bytes&)> f; std::string prog; Bytes pv; };
        std::vector<Dev> D; auto bit = [](size_t i) { return [i](Bytes& b) { b[(i / 8) % b.size()] ^= 1 << (i % 8); }; };
        auto fill = [](int v) { return [v](Bytes& b) { std::fill(b.begin(), b.end(), (u8)v); }; };
        size_t lam = P.lambda;
        D.push_back({"honest", "", 0, nullptr});
        // wrong witness, consistently committed
        size_t ws = H.thorough ? (fast ? 1 : 16) : fast ? (lam == 128 ? 4 : lam == 192 ? 24 : 80) : P.l / 4;
        for (size_t i = 0; i < P.l; i += ws) D.push_back({fmt("witness bit %zu", i), "w", 0, bit(i)});
        D.push_back({"witness bit last", "w", 0, bit(P.l - 1)}); D.push_back({"witness zero", "w", 0, fill(0)}); D.push_back({"witness ones", "w", 0, fill(0xff)});
        // deviations in every message of the protocol
        auto sparse = [&](const char* st, unsigned idx, size_t nb, size_t n) { for (size_t q = 0; q < n; q++) D.push_back({fmt("%s_%u bit %zu", st, idx, n == 1 ? 0 : q * (nb - 1) / (n - 1)), st, idx, bit(n == 1 ? 0 : q * (nb - 1) / (n - 1))}); };
        size_t n = H.thorough ? 24 : fast ? 6 : 1; sparse("mu", 0, 2 * lam, n); sparse("rootkey", 0, lam, 1); sparse("iv", 0, 128, n); sparse("hcom", 0, 2 * lam, n); sparse("u", 0, P.eb() * 8, n); sparse("c", 0, P.off_u() * 8, n + 2); sparse("chall1", 0, 5 * lam + 64, n); sparse("utilde", 0, lam + 16, n); sparse("hv", 0, 2 * lam, n); sparse("d", 0, P.l, n + 2); sparse("chall2", 0, 3 * lam + 64, n); sparse("a", 0, lam, n); sparse("b", 0, lam, n); sparse("chall3", 0, lam, n);
        sparse("keys", 0, P.tau * lam, H.thorough ? P.tau : 2); D.push_back({"keys all zero", "keys", 0, fill(0)}); D.push_back({"rootkey zero", "rootkey", 0, fill(0)}); D.push_back({"iv ones", "iv", 0, fill(0xff)});
        for (unsigned i = 0; i < P.tau; i += fast || H.thorough ? 1 : 7) { sparse("vch", i, 2 * lam, 1); sparse("pdec", i, P.depth(i) * lam, H.thorough ? P.depth(i) : fast ? 2 : 1); sparse("comj", i, 2 * lam, fast ? 2 : 1); }
        // programmed challenges: the same deviations where the challenge makes them (in)visible
        std::vector<std::pair<std::string, Bytes>> ch; Bytes z(P.lb(), 0), o(P.lb(), 0xff); ch.push_back({"zero", z}); ch.push_back({"ones", o}); for (unsigned b : {0u, 7u, P.lambda / 2, P.lambda - 1}) { Bytes c = z; c[b / 8] |= 1 << (b % 8); ch.push_back({fmt("bit%u", b), c}); c = o; c[b / 8] ^= 1 << (b % 8); ch.push_back({fmt("all-but-bit%u", b), c}); if (!fast) break; }
        ch.push_back({"lastbyte", [&] { Bytes c = z; c[P.lb() - 1] = 0xff; return c; }()}); ch.push_back({"firsthalf", [&] { Bytes c = z; for (unsigned i = 0; i < P.lb() / 2; i++) c[i] = 0xff; return c; }()});
        for (auto& c : ch) { auto A = [&](const std::string& nm, const std::string& st, unsigned i, std::function<void(Bytes&)> f) { D.push_back({"chall_3 " + c.first + ", " + nm, st, i, f, "chall3", c.second}); };
          A("honest", "", 0, nullptr); A("witness wrong", "w", 0, bit(3)); A("witness zero", "w", 0, fill(0)); A("u_tilde wrong", "utilde", 0, bit(9)); A("a_tilde wrong", "a", 0, bit(1)); A("b_tilde wrong", "b", 0, bit(1)); A("c wrong", "c", 0, bit(5)); A("c wrong at the end", "c", 0, bit(P.off_u() * 8 - 1)); A("d wrong", "d", 0, bit(5)); A("hcom wrong", "hcom", 0, bit(3)); if (!fast && !H.thorough) { if (c.first != "zero" && c.first != "ones") { D.resize(D.size() - 7); } } }
        for (auto& v : ivs()) if (fast && (H.thorough || g.next() % 8 == 0)) D.push_back({"unusual iv " + hex(v.data(), 16), "", 0, nullptr, "iv", v});
        for (int v : {0, 0xff}) { D.push_back({fmt("chall_1 all %d", v), "", 0, nullptr, "chall1", Bytes(5 * P.lb() + 8, v)}); D.push_back({fmt("chall_2 all %d", v), "", 0, nullptr, "chall2", Bytes(3 * P.lb() + 8, v)}); D.push_back({fmt("chall_2 all %d, witness wrong", v), "w", 0, bit(11), "chall2", Bytes(3 * P.lb() + 8, v)}); D.push_back({fmt("chall_1 all %d, c wrong", v), "c", 0, bit(11), "chall1", Bytes(5 * P.lb() + 8, v)}); }
        unsigned di = 0;
        for (auto& d : D) { di++; if (lite && di % 23) continue; H.run(fmt("%s %s", P.name, d.name.c_str()), [&] {
          Key k = key(P, 8 + di % 6, sd); Bytes m = msg(di % 50, 2), rho = msg(P.lb(), di); oracle::reset(); bool prog = !d.prog.empty();
          Bytes sig = ref::sign(P, k.sk.data(), m.data(), m.size(), rho.data(), rho.size(), [&](const char* s, unsigned i, Bytes& b) { if (d.stage == s && d.idx == i && d.f) d.f(b); if (prog && d.prog == s) { Bytes r = b; b = d.pv; oracle::table[r] = b; } });
          auto rt = [&](const char* s, unsigned, Bytes& b) { if (prog && !strncmp(s, "chall", 5)) { auto it = oracle::table.find(b); if (it != oracle::table.end()) b = it->second; } };
          Bytes c3 = verifyChall(P, k.pk.data(), m.data(), m.size(), sig.data(), rt); bool want = !memcmp(c3.data(), &sig[P.off_ch3()], P.lb());
          unsigned c0 = oracle::calls; bool effective = !prog || d.prog == "iv"; 
#if defined(WRAP_H2_final)
          effective = true;
#endif
          if (!effective) { H.count("interposition_unavailable"); return; }
          int v = API[pi].verify(k.pk.data(), m.data(), m.size(), sig.data(), P.sig); if (prog && d.prog != "iv" && oracle::calls == c0) { H.count("interposition_unavailable"); return; } oracle::reset();
          H.eval(fnv(sig.data(), sig.size(), pi)); H.count(want ? "model_accepts" : "model_rejects"); H.distinct("model_states", fnv(c3.data(), c3.size(), pi));
          CHECK((v == 0) == want, "%s, prover deviates: %s: model verifier %s, implementation returned %d (sk=%s)", P.name, d.name.c_str(), want ? "accepts" : "rejects", v, hex(k.sk.data(), k.sk.size()).c_str()); }); }
        // strings that are not produced by any prover
        for (int v = 0; v < (fast ? 6 : 2); v++) H.run(fmt("%s constant string %d", P.name, v), [&] { static const u8 pat[] = {0, 0xff, 1, 0x80, 0x55, 0xaa}; Bytes sig(P.sig, pat[v]); Key k = key(P, 9, sd); if (v == 5) { for (unsigned i = 0; i < P.lb(); i++) sig[P.off_ch3() + i] = 0; } oracle::reset(); bool want = ref::verify(P, k.pk.data(), &k.pk[0], 3, sig.data(), P.sig); int r = API[pi].verify(k.pk.data(), &k.pk[0], 3, sig.data(), P.sig); H.eval(fnv(sig.data(), sig.size(), pi)); H.count(want ? "model_accepts" : "model_rejects"); H.distinct("model_states", pi * 1000 + v); CHECK((r == 0) == want, "constant string decided differently"); });
      }
    }
  });
}
