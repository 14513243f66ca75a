// C24: every allocation of every operation fails once (alone, and from there on), inside the library
// and inside the cryptographic backend; the outcome must never be a false success.
#include "heap.hpp"
#include "ops.hpp"
using namespace ref; using gen::msg;
extern "C" int rand_bytes(uint8_t* p, size_t n) { return ops::source(p, n); }
struct Out { int done, ok, ret; char msg[300]; };
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 300; void* bt[4]; backtrace(bt, 4); bool lite = getenv("LITE") != nullptr; bool site = !getenv("NOSITES");
  return H.main([&](Harness& H) {
    Out* out = (Out*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ops::enter = [] { heap::on = true; }; ops::leave = [] { heap::on = false; };
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); bool full = fast && P.lambda == 128 && !P.em && !lite; if (lite && !fast) continue; if (getenv("NOSITES") && (P.lambda != 128 || P.em) && !H.thorough) continue;
      static std::map<unsigned, std::vector<ops::Op>> al; auto A = [&]() -> std::vector<ops::Op>& { auto& v = al[pi]; if (v.empty()) { v = ops::alphabet(pi, full ? 1 : 0); if (site) { auto wu = ops::alphabet(pi == 1 ? 3 : 1, 0); for (auto& o : wu) if (o.name.find("verify,") == std::string::npos) o.f(); } } return v; };
      struct Prof { ops::Result want; uint64_t all = 0, lib = 0; std::vector<uint64_t> sites; bool ok = false; }; static std::map<uint64_t, Prof> profs;
      auto prof = [&](size_t i) -> Prof& { auto& p = profs[pi * 1000 + i]; if (p.ok) return p; auto& o = A()[i]; o.f(); heap::reset(); heap::sites = &p.sites; p.want = o.f(); heap::sites = nullptr; p.all = heap::allocs; p.lib = heap::libAllocs; heap::reset(); uint64_t c = 0; o.f(); c = heap::allocs; CHECK(c == p.all, "allocation count of %s is not stable: %llu %llu", o.name.c_str(), (unsigned long long)c, (unsigned long long)p.all); p.ok = true; return p; };
      auto inject = [&](const ops::Op& o, const Prof& p, int kind, uint64_t k) { memset(out, 0, sizeof *out); fflush(nullptr);
        pid_t c = fork(); if (!c) { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); } alarm(100); signal(SIGSEGV, SIG_DFL); heap::reset(); if (kind == 0) heap::failLib = k; else if (kind == 1) heap::failAt = k; else heap::failFrom = k; ops::Result r = o.f(); uint64_t f = heap::failed; bool good = r == p.want || r.ret != 0; std::string w;
            if (r.ret == 0 && o.rejects) { good = false; w = "reports success although it must be refused"; } else if (!good) w = "reports success with a wrong result"; if (!f) w = "no allocation failed";
            out->ret = r.ret; out->ok = good && f; snprintf(out->msg, sizeof out->msg, "%s", w.c_str()); out->done = 1; _exit(0); }
        int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} H.count("failures_injected"); H.distinct("outcomes", out->done ? (out->ret ? 1 : 2) : WIFSIGNALED(st) ? 100 + WTERMSIG(st) : 3);
        H.count(!out->done ? "no_result_returned" : out->ret ? "refused" : "correct_result"); if (!out->done) { H.count(fmt("ended_by_signal_%d", WIFSIGNALED(st) ? WTERMSIG(st) : 0)); return; }
        CHECK(out->ok, "%s: %s when %s allocation %llu%s fails", o.name.c_str(), out->msg, kind == 0 ? "the library's" : "the process's", (unsigned long long)k, kind == 2 ? " and every later one" : ""); };
      size_t n = A().size(); const unsigned W = getenv("NOSITES") ? 8 : !fast ? 2 : full ? 8 : 4;
      for (size_t i = 0; i < n; i++) { const std::string& nm = A()[i].name; bool heavy = nm.find("sign") != std::string::npos || nm.find("verify") != std::string::npos; bool trivial = !heavy; bool vbad = nm.find("verify,") != std::string::npos;
        for (unsigned w = 0; w < (trivial ? 1 : W); w++) { if (getenv("NOSITES") && !H.thorough && nm.find("sign with randomness") == std::string::npos && nm.find(", d changed") == std::string::npos) continue; if (!fast && !H.thorough && (nm.find("sign with randomness") == std::string::npos && nm.find(", d changed") == std::string::npos && heavy)) continue;
          H.run(fmt("%s, library allocations %u", nm.c_str(), w), [&] { auto& o = A()[i]; auto& p = prof(i); unsigned st = trivial ? 1 : W; for (uint64_t k = w; k < p.lib; k += st) { if (!fast && !H.thorough && k >= 8 && k + 24 < p.lib && k % 5) continue; inject(o, p, 0, k); H.eval(k * 8 + i * 100003 + pi * 10000019); } if (w == 0 && p.lib == 0) H.count("operations_without_allocations"); }); }
        if (!site || !heavy) continue; bool pick = nm.find("sign with randomness") != std::string::npos || nm.find(" verify") + 7 == nm.size() || nm.find(", d changed") != std::string::npos || nm.find("first opening changed") != std::string::npos || nm.find("message changed") != std::string::npos; if (!pick && !H.thorough) continue; if (!full && !H.thorough && nm.find("sign with randomness") == std::string::npos && nm.find(", d changed") == std::string::npos) continue; if (!fast && !H.thorough && nm.find("sign with randomness") == std::string::npos) continue;
        bool every = full && (H.thorough || nm.find("sign with randomness") != std::string::npos); 
        for (unsigned w = 0; w < W; w++) H.run(fmt("%s, all allocations %u", nm.c_str(), w), [&] { auto& o = A()[i]; auto& p = prof(i); std::map<uint64_t, std::vector<uint64_t>> by; for (uint64_t k = 0; k < p.sites.size(); k++) by[p.sites[k]].push_back(k); std::vector<uint64_t> ks; size_t per = H.thorough ? 6 : fast ? 3 : 2;
            for (auto& b : by) { auto& v = b.second; for (size_t q = 0; q < per; q++) ks.push_back(v[q * (v.size() - 1) / (per - 1)]); } if (every) for (uint64_t k = 0; k < p.all; k += H.thorough ? 1 : 8) ks.push_back(k); std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
            for (size_t q = w; q < ks.size(); q += W) { inject(o, p, 1, ks[q]); if (!every || q % 64 < W) inject(o, p, 2, ks[q]); H.eval(ks[q] * 8 + 1 + i * 100003 + pi * 10000019); H.distinct("allocation_sites", p.sites.size() > ks[q] ? p.sites[ks[q]] : 0); } H.count("allocations_seen", w == 0 ? p.all : 0); }); }
    }
  });
}
