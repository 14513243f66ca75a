// Explorer runtime shared by all harnesses: enumerates cases over N forked workers, contains crashes
// and hangs, replays every candidate violation in a fresh process before it is reported, and writes
// measured counts as JSON.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct Violation { std::string msg; };
static inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string fmt(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
#define CHECK(c, ...) do { if (!(c)) throw Violation{fmt(__VA_ARGS__)}; } while (0)

static inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h ^ (h >> 29); }
static inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\""; }

class Harness {
public:
  bool thorough = false; uint64_t seed = 1; int workers = 8; double caseLimit = 120; std::string out; long memLimitMB = 0;
  std::string only; // run only labels with this prefix
  int maxViol = 3; double hangLimit = 0;
  Harness(int argc, char** argv) {
    const char* t = getenv("VERIF_TIER"); thorough = t && !strcmp(t, "thorough"); const char* s = getenv("VERIF_SEED"); if (s) seed = strtoull(s, 0, 10);
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
      if (a == "--thorough") thorough = true; else if (a == "--out") out = v(); else if (a == "--workers") workers = atoi(v().c_str()); else if (a == "--only") only = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
      else if (a == "--cases") { std::string l = v(); size_t p = 0; while (p < l.size()) { replayList.push_back(strtoull(l.c_str() + p, 0, 10)); p = l.find(',', p); if (p == std::string::npos) break; p++; } replaying = true; } }
  }
  // ---- called from enumeration body
  // Declare one case.  f runs if this worker claims it.
  template <class L, class Fn> void run(L&& label, Fn&& f) {
    uint64_t id = next++; if (id >= MAXC) { fprintf(stderr, "too many cases\n"); abort(); }
    if (mode == 1) { if (sh->stop.load()) return; if (sh->claimed[id].exchange(1)) return; }
    else if (mode == 2) { if (replayPos >= replayList.size() || replayList[replayPos] != id) return; replayPos++; }
    std::string lab = label; if (!only.empty() && lab.compare(0, only.size(), only) != 0) { return; }
    me->cur = id; me->t0 = nowS(); snprintf(me->label, sizeof me->label, "%s", lab.c_str()); me->phase = 1; hist.push_back(id);
    if (me->nhist < MAXH) me->hist[me->nhist++] = id;
    cases++; curLabel = lab; std::string err; bool bad = false;
    try { f(); } catch (Violation& v) { bad = true; err = v.msg; }
    me->phase = 0;
    if (samples.size() < 3) samples.push_back(lab);
    if (bad) { if (me->nviol < 8) { auto& x = me->viol[me->nviol]; x.id = id; x.nhist = me->nhist; snprintf(x.label, sizeof x.label, "%s", lab.c_str()); snprintf(x.msg, sizeof x.msg, "%s", err.c_str()); me->nviol++; } if (sh->nviol.fetch_add(1) + 1 >= maxViol) sh->stop = 1; }
  }
  void eval(uint64_t fp, bool nontrivial = true) { evals++; if (nontrivial) { fps.push_back(fp); if (fps.size() > (1u << 22)) compact(); } }
  void evalStr(const std::string& s, bool nt = true) { eval(fnvs(s), nt); }
  void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
  void distinct(const std::string& k, uint64_t v) { auto& d = dist[k]; d.push_back(v); if (d.size() > 65536) uniq(d); }
  void note(const std::string& s) { if (notes.size() < 20) notes.push_back(s); }
  void sample(const std::string& s) { if (xs.size() < 4) xs.push_back(s); }
  // ---- drive
  int main(const std::function<void(Harness&)>& body) {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    double T0 = nowS(); std::vector<Cand> cands; char dir[] = "/tmp/vhXXXXXX"; if (!mkdtemp(dir)) { perror("mkdtemp"); return 2; } std::string D = dir;
    if (replaying) workers = 1;
    std::vector<pid_t> pid(workers, 0); int spawned = 0; int respawn = 0;
    auto spawn = [&](int w) { memset((void*)&sh->w[w], 0, offsetof(Worker, hist)); sh->w[w].nviol = 0; pid_t p = fork(); if (p == 0) { child(body, w, D + fmt("/w%d", spawned), replaying ? 2 : 1); } spawned++; pid[w] = p; };
    for (int w = 0; w < workers; w++) spawn(w);
    int live = workers;
    while (live) {
      usleep(live == workers ? 5000 : 2000); int st; pid_t p;
      while (live && (p = waitpid(-1, &st, WNOHANG)) > 0) { for (int w = 0; w < workers; w++) if (pid[w] == p) { pid[w] = 0; live--; harvest(w, st, cands, false); bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
          if (crashed && !sh->stop && respawn < 16 && !replaying) { respawn++; if (sh->nviol.fetch_add(1) + 1 >= maxViol) sh->stop = 1; if (!sh->stop) { spawn(w); live++; } } } }
      for (int w = 0; w < workers; w++) if (pid[w] && sh->w[w].phase == 1 && nowS() - sh->w[w].t0 > caseLimit && !sh->w[w].killed) { sh->w[w].killed = 1; kill(pid[w], SIGKILL); }
    }
    // confirm: replay each candidate alone, then with its history
    std::vector<Cand> conf, unconf;
    std::stable_sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.hang < b.hang; });
    if (!replaying) for (auto& c : cands) { if (conf.size() >= 2 || (c.hang && conf.size())) break; hangLimit = c.hang ? caseLimit : 0;
        Cand r; bool ok = confirm(body, {c.id}, r, D); if (ok) { r.how = "alone"; r.list = {c.id}; conf.push_back(r); continue; }
        bool got = false; for (int k = 0; k < (c.hang ? 1 : 2) && !got; k++) got = confirm(body, c.list, r, D); if (got) { r.how = "after the recorded history"; r.list = c.list; conf.push_back(r); } else unconf.push_back(c); }
    else conf = cands;
    // merge
    std::string js = "{\n"; std::map<std::string, uint64_t> C; std::map<std::string, std::vector<uint64_t>> Di; std::vector<uint64_t> fp; std::vector<std::string> N, S, X; uint64_t ev = 0, ca = 0;
    for (int k = 0; k < spawned; k++) load(D + fmt("/w%d", k), C, Di, fp, N, S, X, ev, ca);
    std::sort(fp.begin(), fp.end()); size_t dn = std::unique(fp.begin(), fp.end()) - fp.begin();
    js += fmt(" \"cases\": %" PRIu64 ",\n \"evaluations\": %" PRIu64 ",\n \"distinct\": %zu,\n \"wall\": %.2f,\n", ca, ev, dn, nowS() - T0);
    js += " \"counts\": {"; bool f = true; for (auto& k : C) { js += (f ? "" : ", ") + jstr(k.first) + fmt(": %" PRIu64, k.second); f = false; } js += "},\n \"distinct_sets\": {"; f = true;
    for (auto& k : Di) { std::sort(k.second.begin(), k.second.end()); size_t n = std::unique(k.second.begin(), k.second.end()) - k.second.begin(); js += (f ? "" : ", ") + jstr(k.first) + fmt(": %zu", n); f = false; }
    js += "},\n \"samples\": ["; f = true; for (auto& s : X) { js += (f ? "" : ", ") + jstr(s); f = false; } for (size_t i = 0; i < S.size() && i < 6; i++) { js += (f ? "" : ", ") + jstr(S[i]); f = false; } js += "],\n \"notes\": ["; f = true; for (auto& s : N) { js += (f ? "" : ", ") + jstr(s); f = false; } js += "],\n";
    auto dump = [&](const char* nm, std::vector<Cand>& v) { js += fmt(" \"%s\": [", nm); bool g = true; for (auto& c : v) { std::string l; for (auto i : c.list) l += fmt("%s%" PRIu64, l.empty() ? "" : ",", i); js += (g ? "" : ",") + std::string("{\"case\": ") + fmt("%" PRIu64, c.id) + ", \"label\": " + jstr(c.label) + ", \"msg\": " + jstr(c.msg) + ", \"how\": " + jstr(c.how) + ", \"cases\": " + jstr(l) + "}"; g = false; } js += "]"; };
    dump("violations", conf); js += ",\n"; dump("unconfirmed", unconf); js += "\n}\n";
    if (out.empty()) fputs(js.c_str(), stdout); else { FILE* o = fopen(out.c_str(), "w"); if (!o) { perror("out"); return 2; } fputs(js.c_str(), o); fclose(o); }
    for (int k = 0; k < spawned + 64; k++) unlink((D + fmt("/w%d", k)).c_str()); unlink((D + "/c").c_str()); rmdir(dir);
    return conf.empty() ? 0 : 1;
  }
private:
  static constexpr uint64_t MAXC = 1u << 22; static constexpr uint32_t MAXH = 1u << 18;
  struct V { uint64_t id; uint32_t nhist; char label[400]; char msg[1200]; };
  struct Worker { volatile uint64_t cur; volatile double t0; volatile int phase; volatile int killed; volatile uint32_t nhist; volatile int nviol; char label[400]; V viol[8]; uint64_t hist[MAXH]; };
  struct Shared { std::atomic<int> stop; std::atomic<int> nviol; Worker w[65]; std::atomic<uint8_t> claimed[MAXC]; };
  struct Cand { bool hang = false; uint64_t id = 0; std::string label, msg, how; std::vector<uint64_t> list; };
  Shared* sh = nullptr; Worker* me = nullptr; int mode = 0; uint64_t next = 0; std::vector<uint64_t> replayList; size_t replayPos = 0; bool replaying = false; std::vector<uint64_t> hist;
  uint64_t evals = 0, cases = 0; std::vector<uint64_t> fps; std::map<std::string, uint64_t> counts; std::map<std::string, std::vector<uint64_t>> dist; std::vector<std::string> notes, samples, xs; std::string curLabel;
  void uniq(std::vector<uint64_t>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  void compact() { uniq(fps); }
  [[noreturn]] void child(const std::function<void(Harness&)>& body, int w, const std::string& file, int m) {
    me = &sh->w[w]; mode = m; if (memLimitMB) { rlimit r{(rlim_t)memLimitMB << 20, (rlim_t)memLimitMB << 20}; setrlimit(RLIMIT_AS, &r); }
    rlimit c0{0, 0}; setrlimit(RLIMIT_CORE, &c0);
    if (m == 2) { } body(*this); save(file); _exit(0);
  }
  void save(const std::string& file) { compact(); FILE* f = fopen(file.c_str(), "w"); if (!f) _exit(3);
    auto ws = [&](const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); if (n) fwrite(s.data(), 1, n, f); }; auto wn = [&](uint64_t n) { fwrite(&n, 8, 1, f); };
    wn(evals); wn(cases); wn(fps.size()); if (fps.size()) fwrite(fps.data(), 8, fps.size(), f); wn(counts.size()); for (auto& k : counts) { ws(k.first); wn(k.second); } wn(dist.size()); for (auto& k : dist) { uniq(k.second); ws(k.first); wn(k.second.size()); if (k.second.size()) fwrite(k.second.data(), 8, k.second.size(), f); }
    for (auto* v : {&notes, &samples, &xs}) { wn(v->size()); for (auto& s : *v) ws(s); } fclose(f); }
  void load(const std::string& file, std::map<std::string, uint64_t>& C, std::map<std::string, std::vector<uint64_t>>& Di, std::vector<uint64_t>& fp, std::vector<std::string>& N, std::vector<std::string>& S, std::vector<std::string>& X, uint64_t& ev, uint64_t& ca) {
    FILE* f = fopen(file.c_str(), "r"); if (!f) return; auto rn = [&] { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) n = 0; return n; }; auto rs = [&] { uint64_t n = rn(); std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) s.clear(); return s; };
    ev += rn(); ca += rn(); uint64_t n = rn(); size_t o = fp.size(); fp.resize(o + n); if (n && fread(&fp[o], 8, n, f) != n) {} n = rn(); for (uint64_t i = 0; i < n; i++) { auto k = rs(); C[k] += rn(); } n = rn(); for (uint64_t i = 0; i < n; i++) { auto k = rs(); uint64_t m = rn(); auto& d = Di[k]; size_t q = d.size(); d.resize(q + m); if (m && fread(&d[q], 8, m, f) != m) {} }
    std::vector<std::string>* vs[3] = {&N, &S, &X}; for (auto* v : vs) { n = rn(); for (uint64_t i = 0; i < n; i++) { auto s = rs(); if (v == &N && std::find(v->begin(), v->end(), s) != v->end()) continue; if (v->size() < 30) v->push_back(s); } } fclose(f); }
  void harvest(int w, int st, std::vector<Cand>& c, bool) {
    Worker& k = sh->w[w]; for (int i = 0; i < k.nviol; i++) { Cand x; x.id = k.viol[i].id; x.label = k.viol[i].label; x.msg = k.viol[i].msg; x.list.assign(k.hist, k.hist + k.viol[i].nhist); c.push_back(x); }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && k.phase == 1) { Cand x; x.id = k.cur; x.label = k.label; x.list.assign(k.hist, k.hist + k.nhist);
      x.hang = k.killed; x.msg = k.killed ? fmt("no answer within %.0f s", caseLimit) : WIFSIGNALED(st) ? fmt("terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("process exited with status %d (sanitizer report or abort)", WEXITSTATUS(st)); c.push_back(x); }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "worker died outside a case: status %d\n", st); }
  }
  bool confirm(const std::function<void(Harness&)>& body, const std::vector<uint64_t>& list, Cand& r, const std::string& D) {
    int w = 64; memset((void*)&sh->w[w], 0, offsetof(Worker, hist)); auto sorted = list; sh->stop = 0;
    pid_t p = fork(); if (p == 0) { replayList = sorted; replayPos = 0; next = 0; child(body, w, D + "/c", 2); }
    int st = 0; double lim = hangLimit > 0 ? hangLimit : std::min(caseLimit * 3, std::max(caseLimit, 200.0)); for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (sh->w[w].phase == 1 && nowS() - sh->w[w].t0 > lim && !sh->w[w].killed) { sh->w[w].killed = 1; kill(p, SIGKILL); } usleep(2000); }
    std::vector<Cand> c; harvest(w, st, c, true); if (c.empty()) return false; r = c[0]; return true; }
};
