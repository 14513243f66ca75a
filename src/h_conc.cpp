// C10: two threads, every pair of operations.  Accesses to memory that is not private to the thread are
// recorded; two operations that share no written location are independent, so all their interleavings
// are equivalent to one.  Where a written location is shared, the interleavings at the accesses to it
// are explored up to a preemption bound, and each thread's result is compared with the one it has alone.
#include "sched.hpp"
#include "ops.hpp"
using namespace ref; using namespace gen; using u32 = uint32_t;
extern "C" int rand_bytes(uint8_t* p, size_t n) { sched::access(p, n, true, __builtin_return_address(0)); return ops::source(p, n); }
struct Solo { int ret; u64 h, len; bool ok; bool over; u32 n; u64 acc, coarse; sched::FP f[2048]; };
static Solo* solo; static std::vector<ops::Op> all; static std::vector<unsigned> core[12], setOf;
struct Shm { char msg[4096]; u64 pts[2], nlog[2]; u64 ncf; u64 cf[4096]; u64 log[2][1 << 16]; }; static Shm* shm;
struct R1 { int ret; u64 h, len; bool bad; std::string err; };
static R1 doOp(unsigned o) { R1 r{0, 0, 0, false, ""}; try { ops::Result x = all[o].f(); r.ret = x.ret; r.h = fnv(x.out.data(), x.out.size()); r.len = x.out.size(); } catch (Violation& v) { r.bad = true; r.err = v.msg; } return r; }
static void alone(unsigned o) { Solo& s = solo[o]; R1 r; std::function<void()> f = [&] { r = doOp(o); }; sched::confl.clear(); sched::run(&f, nullptr); s.ret = r.ret; s.h = r.h; s.len = r.len; s.over = sched::fpOver; s.acc = sched::accesses; s.coarse = sched::thr[0].pts[1]; u32 n = 0; for (size_t i = 0; i < sched::FT; i++) if (sched::fp[i].mask) { if (n < 2048) s.f[n++] = sched::fp[i]; else s.over = true; } s.n = n; std::sort(s.f, s.f + n, [](const sched::FP& a, const sched::FP& b) { return a.g < b.g; }); s.ok = true; }
static std::vector<u64> conflicts(const Solo& a, const Solo& b) { std::vector<u64> c; for (u32 i = 0, j = 0; i < a.n && j < b.n;) { if (a.f[i].g < b.f[j].g) i++; else if (a.f[i].g > b.f[j].g) j++; else { if ((a.f[i].mask | b.f[j].mask) & 2) c.push_back(a.f[i].g); i++; j++; } } return c; }
// one schedule of the pair, in a child process
static u64 schedules = 0;
static void exec(unsigned a, unsigned b, const std::vector<u64>& cf, const sched::Plan& pl, bool log, const std::vector<unsigned>& warm = {}) {
  shm->msg[0] = 0; shm->ncf = 0; fflush(nullptr); pid_t p = fork(); if (!p) { alarm(150); for (unsigned w : warm) doOp(w); sched::confl = cf; sched::plan = pl; sched::logPts = log; R1 x, y; std::function<void()> f = [&] { x = doOp(a); }, g = [&] { y = doOp(b); }; sched::run(&f, &g);
    auto bad = [&](const R1& r, unsigned o) { const Solo& s = solo[o]; if (r.bad) { snprintf(shm->msg, 4000, "%s: %s", all[o].name.c_str(), r.err.c_str()); return true; } if (r.ret != s.ret) { snprintf(shm->msg, 4000, "%s: returns %d, alone %d", all[o].name.c_str(), r.ret, s.ret); return true; } if (r.len != s.len || r.h != s.h) { snprintf(shm->msg, 4000, "%s: output differs from the one it has alone", all[o].name.c_str()); return true; } return false; };
    int rc = bad(x, a) || bad(y, b); for (int i = 0; i < 2; i++) { shm->pts[i] = sched::thr[i].pts[pl.kind]; shm->nlog[i] = std::min<size_t>(sched::ptlog[i].size(), 1 << 16); if (log) memcpy(shm->log[i], sched::ptlog[i].data(), shm->nlog[i] * 8); }
    for (size_t i = 0; i < sched::FT; i++) { u32 m = sched::fp[i].mask; if ((m & 3) && (m & 12) && (m & 10) && shm->ncf < 4096) shm->cf[shm->ncf++] = sched::fp[i].g; } _exit(rc); }
  int st; waitpid(p, &st, 0); schedules++; std::string pts; for (u64 k : pl.at) pts += fmt(" %llu", (unsigned long long)k); if (st) throw Violation{fmt("[%s] || [%s], thread %d first, preempted at %s%s: %s", all[a].name.c_str(), all[b].name.c_str(), pl.start, pl.kind ? "call" : "shared access", pts.c_str(), shm->msg[0] ? shm->msg : fmt("process ends with status %x", st).c_str())}; }
// representative points: for every code location its first and last occurrences
static std::vector<u64> reps(const u64* log, u64 n, size_t cap) { std::map<u64, std::vector<u64>> m; for (u64 i = 0; i < n; i++) m[log[i]].push_back(i); std::vector<u64> r; for (auto& k : m) { auto& v = k.second; for (size_t i = 0; i < v.size() && i < 4; i++) r.push_back(v[i]); for (size_t i = v.size() > 6 ? v.size() - 2 : v.size(); i < v.size(); i++) r.push_back(v[i]); if (v.size() > 16) r.push_back(v[v.size() / 2]); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); if (r.size() > cap) { std::vector<u64> s; for (size_t i = 0; i < cap; i++) s.push_back(r[i * r.size() / cap]); r = s; } return r; }
static void explore(Harness& H, unsigned a, unsigned b, std::vector<u64> cf, bool thorough, const std::vector<unsigned>& warm) {
  double t0 = nowS(), budget = thorough ? 250 : 60; for (int round = 0; round < 4; round++) { sched::Plan base; std::vector<u64> grown = cf; auto merge = [&] { for (u64 i = 0; i < shm->ncf; i++) grown.push_back(shm->cf[i]); std::sort(grown.begin(), grown.end()); grown.erase(std::unique(grown.begin(), grown.end()), grown.end()); };
    std::vector<u64> pt[2][2]; for (int s = 0; s < 2; s++) { base.start = s; exec(a, b, cf, base, true, warm); merge(); for (int t = 0; t < 2; t++) pt[s][t] = reps(shm->log[t], shm->nlog[t], thorough ? 400 : 120); }
    auto go = [&](sched::Plan p) { if (nowS() - t0 > budget) { H.note("time bound reached while exploring the interleavings of " + all[a].name + " and " + all[b].name); return false; } exec(a, b, cf, p, false, warm); merge(); H.distinct("model_states", fnv(p.at.data(), p.at.size() * 8, a * 1000003ull + b * 101 + p.start)); return true; };
    for (int s = 0; s < 2; s++) for (u64 x : pt[s][s]) { sched::Plan p; p.start = s; p.at = {x}; if (!go(p)) return; }
    for (int s = 0; s < 2; s++) for (u64 x : reps(pt[s][s].data(), pt[s][s].size(), 24)) for (u64 y : pt[s][1 - s].size() > 24 ? std::vector<u64>(pt[s][1 - s].begin(), pt[s][1 - s].begin() + 24) : pt[s][1 - s]) { sched::Plan p; p.start = s; p.at = {pt[s][s][x < pt[s][s].size() ? x : 0], y}; if (!go(p)) return; }
    if (grown == cf) return; cf = grown; } }
static const char* CORE[] = {"keygen", "validate", "sign with randomness", "sign with sibling", "verify", "verify sibling's", "verify, d changed", "sign, invalid key", "clear private key"};
static const char* SLOW[] = {"keygen", "validate", "sign with randomness", "verify", "sign, invalid key", "clear private key", "verify, challenge changed"};
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 700; bool own = getenv("OWN");
  // keys and signatures from children; this process never calls the library
  struct Blob { u8 s[4][60000]; }; Blob* bl = (Blob*)mmap(nullptr, 12 * sizeof(Blob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); auto use = [&](const Params& P) { return !own || (isFast(P) && P.lambda == 128); }; bool bad = false; { std::vector<pid_t> ps; size_t live = 0;
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; if (!use(P)) continue; for (int j = 0; j < 4; j++) { if (j && !isFast(P)) continue; if (live >= 8) { int st; wait(&st); bad |= st != 0; live--; } pid_t c = fork(); if (!c) { ops::Base b; ops::keysOf(pi, b); Bytes s(P.sig); size_t l = P.sig; const Key& k = j == 2 ? b.sib : j == 3 ? b.cous : b.k; const Bytes& m = j == 1 ? b.m2 : b.m; int rc = API[pi].signr(k.sk.data(), m.data(), m.size(), b.rho.data(), b.rho.size(), s.data(), &l); memcpy(bl[pi].s[j], s.data(), P.sig); _exit(rc != 0); } live++; } } while (live) { int st; wait(&st); bad |= st != 0; live--; } }
  if (bad) return H.main([&](Harness& H) { H.run("base signatures", [&] { throw Violation{"signing with a valid key fails in a fresh process"}; }); });
  for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; if (!use(P)) continue; ops::Base& b = ops::bases()[pi]; ops::keysOf(pi, b); Bytes* d[4] = {&b.sig, &b.sig2, &b.sig3, &b.sig4}; for (int j = 0; j < 4; j++) d[j]->assign(bl[pi].s[j], bl[pi].s[j] + P.sig); b.ok = b.rel = true;
    auto a = ops::alphabet(pi, isFast(P) && !own ? 1 : 0), r = ops::relatedOps(pi); if (isFast(P)) a.insert(a.end(), r.begin(), r.end()); for (auto& o : a) { std::string n = o.name.substr(strlen(P.name) + 1); bool k = true; if (!isFast(P)) { k = false; for (auto* c : SLOW) k |= n == c; } if (own) { k = false; for (auto* c : CORE) k |= n == c; if (n == "sign with sibling" || n == "verify sibling's" || n == "verify, d changed" || P.em) k = k && n.find("sign w") && n.find("verify"); } if (!k) continue; unsigned id = all.size(); all.push_back(o); setOf.push_back(pi); for (auto* c : CORE) if (n == c) core[pi].push_back(id); } }
  munmap(bl, 12 * sizeof(Blob)); solo = (Solo*)mmap(nullptr, all.size() * sizeof(Solo), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sched::init(); // both arenas and stacks at the same addresses in every child
  { size_t live = 0; for (size_t o = all.size(); o-- > 0;) { if (live >= 8) { wait(nullptr); live--; } fflush(nullptr); if (!fork()) { alarm(200); alone(o); _exit(0); } live++; } while (live) { wait(nullptr); live--; } }
  if (getenv("DBG")) { for (size_t o = 0; o < all.size(); o++) if (all[o].name == getenv("DBG")) alone(o); return 0; }
  return H.main([&](Harness& H) {
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (unsigned o = 0; o < all.size(); o++) H.run("alone: " + all[o].name, [&] { Solo& s = solo[o]; CHECK(s.ok, "no answer"); CHECK(!all[o].rejects || s.ret, "succeeds"); u64 w = 0; for (u32 i = 0; i < s.n; i++) w += s.f[i].mask >> 1 & 1; H.count("shared_accesses", s.acc); H.count("shared_locations_read", s.n); H.count("shared_locations_written", w); if (s.over) H.note(all[o].name + ": footprint table full"); H.eval(fnv(s.f, s.n * sizeof(sched::FP), s.h)); });
    // dependency relation over all pairs; the conflicting ones are explored
    std::vector<std::pair<unsigned, unsigned>> dep; u64 indep = 0; for (unsigned a = 0; a < all.size(); a++) for (unsigned b = a; b < all.size(); b++) { if (conflicts(solo[a], solo[b]).empty()) indep++; else dep.push_back({a, b}); }
    H.run("dependency relation", [&] { H.count("pairs_independent", indep); H.count("pairs_dependent", dep.size()); H.count("interleavings_classes", indep); for (u64 i = 0; i < indep; i++) H.distinct("model_states", i * 0x9E3779B97F4A7C15ull + 1); });
    // explore dependent pairs: cheap ones of every set first, then the rest
    std::stable_sort(dep.begin(), dep.end(), [&](auto& x, auto& y) { auto k = [&](auto& p) { return solo[p.first].acc + solo[p.second].acc + (isFast(ALL[setOf[p.first]]) ? 0 : 1ull << 40) + (solo[p.first].ret || solo[p.second].ret ? 1ull << 30 : 0); }; return k(x) < k(y); });
    size_t maxPairs = H.thorough ? 400 : 48; for (size_t i = 0; i < dep.size() && i < maxPairs; i++) { size_t j = dep.size() > maxPairs ? (i * dep.size() / maxPairs) : i; auto pr = dep[j]; H.run("interleavings of " + all[pr.first].name + " and " + all[pr.second].name, [&] { schedules = 0; explore(H, pr.first, pr.second, conflicts(solo[pr.first], solo[pr.second]), H.thorough, {}); if (j % 4 == 0) explore(H, pr.first, pr.second, conflicts(solo[pr.first], solo[pr.second]), H.thorough, {pr.first}); H.count("schedules", schedules); H.eval(pr.first * 1000 + pr.second); }); }
    // preemption at function entries and backend calls, whatever the recorded accesses say
    for (unsigned pi : {1u, 7u, 3u, 11u}) if (core[pi].size()) for (unsigned a : core[pi]) for (unsigned b : core[pi]) { if (own && (solo[a].acc + solo[b].acc > 3000 || solo[a].coarse + solo[b].coarse > 20000)) continue; unsigned lam = ALL[pi].lambda; if (lam > 128 && !H.thorough && (a * 7 + b) % 6) continue; H.run("calls of " + all[a].name + " preempted by " + all[b].name, [&] { schedules = 0; u64 n = solo[a].coarse, want = own ? 3 : H.thorough ? 150 : lam > 128 ? 3 : 9; std::vector<u64> at; for (u64 i = 0; i < want && i < n; i++) at.push_back(n <= want ? i : i < want / 3 ? i : i * n / want); if (n) at.push_back(n - 1); for (u64 k : at) { sched::Plan p; p.kind = 1; p.start = 0; p.at = {k}; exec(a, b, {}, p, false); CHECK(true, "x"); H.distinct("model_states", k * 1000003 + a * 1009 + b); } if (n && solo[b].coarse) { sched::Plan p; p.kind = 1; p.at = {n / 2, solo[b].coarse / 2, n - 1}; exec(a, b, {}, p, false); } H.count("schedules", schedules); H.eval(a * 1000 + b + 500000); }); }
  });
}
