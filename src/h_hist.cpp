// C09: explicit-state exploration of operation histories.  A state is a process image; a transition is
// one library call; every history is a path of forked children, and every call's result is compared
// with the one a process that never called the library before returns.
#include "harness.hpp"
#include "ops.hpp"
#include <link.h>
#include <sys/syscall.h>
using namespace ref; using namespace gen;
#ifdef SHARED
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) { if (ops::source((uint8_t*)p, n)) { errno = EIO; return -1; } return n; }
extern "C" int getentropy(void* p, size_t n) { if (ops::source((uint8_t*)p, n)) { errno = EIO; return -1; } return 0; }
#else
extern "C" int rand_bytes(uint8_t* p, size_t n) { return ops::source(p, n); }
#endif
struct Want { int ret; u64 h; u64 len; bool ok; };
static Want* want; static std::vector<ops::Op> all; static std::vector<std::vector<unsigned>> bySet(12), coreBySet(12); static std::vector<std::vector<unsigned>> similar[12]; // groups of operations on similar arguments
static char* msgp; // shared page for a violation found in a child
static Want run1(unsigned o) { ops::Result r = all[o].f(); return {r.ret, fnv(r.out.data(), r.out.size()), r.out.size(), true}; }
static std::vector<unsigned> path;
static std::string pathStr() { std::string s; size_t k = 0; for (unsigned o : path) { if (k++) s += " ; "; if (path.size() > 12 && k > 6 && k < path.size() - 4) { s += "."; continue; } s += all[o].name; } return s; }
static void judge(unsigned o) { Want w = run1(o); path.push_back(o); const Want& e = want[o]; if (w.ret != e.ret) CHECK(false, "history [%s]: the last call returns %d, in a fresh process %d", pathStr().c_str(), w.ret, e.ret); CHECK(w.len == e.len && w.h == e.h, "history [%s]: the last call's output differs from a fresh process's", pathStr().c_str()); }
// run f in a child; a violation or crash there is thrown here
static void child(const std::function<void()>& f) { msgp[0] = 0; fflush(nullptr); pid_t p = fork(); if (p < 0) throw Violation{"fork failed"}; if (!p) { int rc = 0; try { f(); } catch (Violation& v) { snprintf(msgp, 4000, "%s", v.msg.c_str()); rc = 1; } _exit(rc); } int st; waitpid(p, &st, 0); if (st) { if (msgp[0]) throw Violation{msgp}; throw Violation{fmt("history [%s ; ...]: process ends with status %x", pathStr().c_str(), st)}; } }
// static and thread-local writable memory of the library (shared-library build only)
static u64 stateHash() { u64 h = 7; dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) { if (!strstr(i->dlpi_name, "libfaest")) return 0; u64& h = *(u64*)v; for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) h = fnv((void*)(i->dlpi_addr + p.p_vaddr), p.p_memsz, h); if (p.p_type == PT_TLS && i->dlpi_tls_data) h = fnv(i->dlpi_tls_data, p.p_memsz, h); } return 0; }, &h); return h; }
// depth-first over all sequences of length depth; children inherit the history
static u64* nseq;
static void tree(const std::vector<std::vector<unsigned>>& lv, size_t d) { if (d == lv.size()) return; for (unsigned o : lv[d]) child([&] { judge(o); __atomic_add_fetch(nseq, 1, __ATOMIC_RELAXED); tree(lv, d + 1); }); }
// state-graph exploration: breadth-first over distinct library states, each reached by replaying its path in a child
static void reach(Harness& H, const std::vector<unsigned>& alpha, size_t maxStates, size_t maxDepth) {
  struct Tr { u64 h; }; Tr* buf = (Tr*)mmap(nullptr, alpha.size() * sizeof(Tr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<std::pair<u64, std::vector<unsigned>>> q; std::vector<u64> seen; u64 s0 = stateHash(); q.push_back({s0, {}}); seen.push_back(s0); u64 trans = 0;
  for (size_t i = 0; i < q.size(); i++) { auto pre = q[i].second; for (size_t a = 0; a < alpha.size(); a++) { path.clear(); child([&] { for (unsigned o : pre) judge(o); judge(alpha[a]); buf[a].h = stateHash(); }); trans++; }
    for (size_t a = 0; a < alpha.size(); a++) if (std::find(seen.begin(), seen.end(), buf[a].h) == seen.end()) { if (seen.size() >= maxStates || pre.size() + 1 >= maxDepth) { H.note("bound reached: library state changes with history"); continue; } seen.push_back(buf[a].h); auto p = pre; p.push_back(alpha[a]); q.push_back({buf[a].h, p}); } }
  for (u64 s : seen) H.distinct("model_states", s); H.count("transitions", trans); H.count("states_visited", seen.size()); for (unsigned o : alpha) H.eval(fnv(&want[o], sizeof(Want), o)); munmap(buf, alpha.size() * sizeof(Tr)); }
static const char* CORE[] = {"keygen", "keygen after two rejected draws", "validate", "validate sibling's public key", "sign with randomness", "sign with sibling", "sign, invalid key", "sign, source fails", "verify", "verify second message", "verify sibling's", "verify, d changed", "verify, challenge changed", "verify first signature on second message", "clear private key"};
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 600; bool lite = getenv("LITE"), own = getenv("OWN"); ops::arena = true;
  msgp = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); nseq = (u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // keys, signatures and expected results come from children, so that this process never calls the library itself
  { struct Blob { u8 s[4][60000]; }; Blob* bl = (Blob*)mmap(nullptr, 12 * sizeof(Blob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<pid_t> ps; auto use = [&](const Params& P) { return !(lite || own) || (isFast(P) && P.lambda == 128); };
    auto fillKeys = [&](unsigned pi) { ops::Base& b = ops::bases()[pi]; ops::keysOf(pi, b); };
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; if (!use(P)) continue; for (int j = 0; j < 4; j++) { pid_t c = fork(); if (!c) { ops::Base b; ops::keysOf(pi, b); Bytes s(P.sig); size_t l = P.sig; const Key& k = j == 2 ? b.sib : j == 3 ? b.cous : b.k; const Bytes& m = j == 1 ? b.m2 : b.m; int rc = API[pi].signr(k.sk.data(), m.data(), m.size(), b.rho.data(), b.rho.size(), s.data(), &l); memcpy(bl[pi].s[j], s.data(), P.sig); _exit(rc != 0); } ps.push_back(c); } }
    bool bad = false; for (pid_t c : ps) { int st; waitpid(c, &st, 0); bad |= st != 0; }
    if (bad) return H.main([&](Harness& H) { H.run("base signatures", [&] { throw Violation{"signing with a valid key fails in a fresh process"}; }); });
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; if (!use(P)) continue; fillKeys(pi); ops::Base& b = ops::bases()[pi]; Bytes* d[4] = {&b.sig, &b.sig2, &b.sig3, &b.sig4}; for (int j = 0; j < 4; j++) d[j]->assign(bl[pi].s[j], bl[pi].s[j] + P.sig); b.ok = b.rel = true;
      auto a = ops::alphabet(pi, 1), r = ops::relatedOps(pi); a.insert(a.end(), r.begin(), r.end()); for (auto& o : a) { unsigned id = all.size(); all.push_back(o); bySet[pi].push_back(id); std::string n = o.name.substr(strlen(P.name) + 1); for (auto* c : CORE) if (n == c) coreBySet[pi].push_back(id); }
      if (!lite && !own && !getenv("REACH")) for (auto& gr : ops::similarOps(pi, isFast(P) || getenv("VERIF_DEEP"), P.lambda == 128 ? 1 : P.lambda == 192 ? 3 : 6)) { similar[pi].push_back({}); for (auto& o : gr) { similar[pi].back().push_back(all.size()); all.push_back(o); } } } munmap(bl, 12 * sizeof(Blob)); }
  if (own) for (unsigned pi = 0; pi < 12; pi++) { std::vector<unsigned> w; for (unsigned o : bySet[pi]) { std::string n = all[o].name.substr(strlen(ALL[pi].name) + 1); bool heavy = n == "sign with randomness" || n == "verify" || n == "verify, d changed" || n == "sign with sibling", cheap = n.find("keygen") == 0 || n.find("validate") == 0 || n == "sign, invalid key" || n == "clear private key" || n == "verify, one byte short"; if (cheap || (heavy && !ALL[pi].em)) w.push_back(o); } bySet[pi] = w; }
  want = (Want*)mmap(nullptr, all.size() * sizeof(Want), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  { size_t run = 0; std::vector<char> use(all.size()); for (auto& v : bySet) for (unsigned o : v) use[o] = 1; for (auto& s : similar) for (auto& v : s) for (unsigned o : v) use[o] = 1; for (unsigned o = 0; o < all.size() || run;) { if (o < all.size() && !use[o]) o++; else if (o < all.size() && run < 8) { fflush(nullptr); if (!fork()) { want[o] = run1(o); _exit(0); } o++; run++; } else { wait(nullptr); run--; } } }
  return H.main([&](Harness& H) {
    msgp = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); nseq = (u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto seqs = [&](const std::string& label, std::vector<std::vector<unsigned>> lv) { // one case per first operation
      for (unsigned f : lv[0]) H.run(label + ", starting with " + all[f].name, [&, f] { path.clear(); *nseq = 0; auto l = lv; l[0] = {f}; tree(l, 0); H.count("histories", *nseq); H.count("transitions", *nseq); H.eval(fnvs(label, f)); H.distinct("histories_from", fnvs(label, f)); }); };
    for (auto& o : all) if (!own) H.run("fresh process: " + o.name, [&] { CHECK(want[&o - &all[0]].ok, "%s: no answer in a fresh process", o.name.c_str()); CHECK(!o.rejects || want[&o - &all[0]].ret != 0, "%s succeeds", o.name.c_str()); H.eval(fnvs(o.name)); });
    auto pick = [&](unsigned pi, std::initializer_list<const char*> ns) { std::vector<unsigned> v; for (unsigned o : bySet[pi]) for (auto* n : ns) if (all[o].name == std::string(ALL[pi].name) + " " + n) v.push_back(o); return v; };
    if (getenv("REACH")) { for (unsigned pi = 0; pi < 12; pi++) if (bySet[pi].size()) { bool fast = isFast(ALL[pi]); size_t n = bySet[pi].size(), ch = fast ? n : 8; for (size_t a = 0; a < n; a += ch) H.run(fmt("%s states from operation %zu", ALL[pi].name, a), [&] { std::vector<unsigned> al(bySet[pi].begin() + a, bySet[pi].begin() + std::min(n, a + ch)); reach(H, al, fast ? (H.thorough ? 400 : 40) : 6, fast ? 8 : 3); }); }
      // all sets together
      H.run("states over all sets", [&] { std::vector<unsigned> al; for (unsigned pi = 0; pi < 12; pi++) { auto v = pick(pi, {"validate", "validate sibling's public key", "sign, invalid key", "verify, one byte short", "keygen", "clear private key"}); al.insert(al.end(), v.begin(), v.end()); if (isFast(ALL[pi])) { v = pick(pi, {"sign with randomness", "verify"}); al.insert(al.end(), v.begin(), v.end()); } } reach(H, al, 60, 6); });
      return; }
    for (unsigned pi = 0; pi < 12; pi++) if (bySet[pi].size()) { const Params& P = ALL[pi]; bool fast = isFast(P);
      if (own) { seqs(fmt("%s pairs", P.name), {bySet[pi], bySet[pi]}); continue; }
      if (lite && !P.em) { seqs(fmt("%s pairs", P.name), {coreBySet[pi], bySet[pi]}); continue; } if (lite) continue;
      if (fast && P.lambda == 128) { seqs(fmt("%s pairs", P.name), {bySet[pi], P.em && !H.thorough ? coreBySet[pi] : bySet[pi]}); if (!P.em || H.thorough) seqs(fmt("%s triples", P.name), {coreBySet[pi], coreBySet[pi], coreBySet[pi]}); }
      else if (fast) { seqs(fmt("%s pairs", P.name), {H.thorough || P.lambda < 256 ? coreBySet[pi] : pick(pi, {"sign with randomness", "verify", "keygen", "verify, d changed", "sign with sibling", "validate"}), H.thorough ? bySet[pi] : coreBySet[pi]}); }
      else if (H.thorough) seqs(fmt("%s pairs", P.name), {coreBySet[pi], coreBySet[pi]});
      else { auto v = pick(pi, {"validate", "sign with randomness", "verify", "verify, d changed"}); seqs(fmt("%s pairs", P.name), {v, v}); }
      if (fast && P.lambda == 128 && !lite) { // deep sequences over the cheapest alphabet of successes and failures
        auto v = pick(pi, {"keygen", "validate", "validate sibling's public key", "sign, invalid key", "verify, one byte short", "keygen, source fails", "clear private key"}); std::vector<std::vector<unsigned>> lv(H.thorough ? 6 : 4, v); seqs(fmt("%s deep", P.name), lv); auto s = pick(pi, {"sign with randomness", "verify", "verify, d changed", "verify sibling's"}); seqs(fmt("%s deep sign/verify", P.name), std::vector<std::vector<unsigned>>(H.thorough ? 6 : 4, s)); }
      // the base operation, a similar one, and back, for every similar argument: in one process per chunk, and each alone
      for (auto& g : similar[pi]) for (size_t a = 1; a < g.size(); a += 8) H.run(all[g[a]].name + " and the base alternately", [&, a] { size_t e = std::min(g.size(), a + 8); path.clear(); *nseq = 0; child([&] { for (size_t i = a; i < e; i++) { judge(g[0]); judge(g[i]); } judge(g[0]); }); path.clear(); child([&] { for (size_t i = a; i < e; i++) { judge(g[i]); if (i + 1 < e) judge(g[i + 1]); } }); H.count("transitions", 4 * (e - a)); H.count("histories", 2); H.eval(fnvs(all[g[a]].name)); H.distinct("histories_from", fnvs(all[g[a]].name)); });
      // long runs of one operation, then every core operation
      if (fast && !lite) for (unsigned o : bySet[pi]) { bool heavy = all[o].name.find("sign w") != std::string::npos || all[o].name.find(" verify") != std::string::npos || all[o].name.find("sign s") != std::string::npos || all[o].name.find("sign e") != std::string::npos || all[o].name == std::string(P.name) + " sign"; if (heavy && P.lambda > 128 && !H.thorough && (o + pi) % 4) continue; unsigned n = heavy ? (P.lambda == 128 ? 66 : 12) : 1100; if (H.thorough) n *= 8; H.run(all[o].name + fmt(" %u times", n), [&, o, n] { path.clear(); child([&] { for (unsigned k = 0; k < n; k++) judge(o); for (unsigned q : coreBySet[pi]) judge(q); }); H.count("histories", 1); H.count("transitions", n + coreBySet[pi].size()); H.eval(o * 77 + 1); }); }
    }
    if (lite || own) return;
    // across parameter sets: every ordered pair of sets
    for (unsigned a = 0; a < 12; a++) for (unsigned b = 0; b < 12; b++) if (a != b) { if (!isFast(ALL[a]) && !isFast(ALL[b]) && !H.thorough) { auto v = pick(a, {"validate", "keygen"}), w = pick(b, {"validate", "keygen"}); seqs(fmt("%s then %s", ALL[a].name, ALL[b].name), {v, w}); continue; }
        auto n = [&](unsigned p) { return isFast(ALL[p]) || H.thorough ? pick(p, {"validate", "keygen", "sign with randomness", "verify", "verify, d changed", "sign, invalid key"}) : pick(p, {"validate", "verify", "sign, invalid key"}); }; if (!isFast(ALL[b]) && !H.thorough && (a + b) % 2) continue; seqs(fmt("%s then %s", ALL[a].name, ALL[b].name), {n(a), n(b)}); }
  });
}
