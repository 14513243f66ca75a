// C20: heap state before and after every operation, over sequences of operations.
#include "heap.hpp"
#include "ops.hpp"
#include "guard.hpp"
#ifdef INTERNALS
extern "C" {
#include "vc.h"
#include "vole.h"
#include "aes.h"
#include "faest_aes.h"
#include "instances.h"
}
#endif
using namespace ref; using gen::msg;
extern "C" int rand_bytes(uint8_t* p, size_t n) { return ops::source(p, n); }
static std::vector<uint64_t> seen; 
static void onState(uint64_t s) { bool o = heap::on; heap::on = false; bool l = heap::inLib; seen.push_back(s); heap::inLib = l; heap::on = o; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 120; bool lite = getenv("LITE") != nullptr; void* bt[4]; backtrace(bt, 4); seen.reserve(1 << 20);
  return H.main([&](Harness& H) {
    static bool warm = false;
    // run one operation in a window; ops allocate test buffers themselves, so the window is opened around library calls only through API shims below
    auto win = [&](const ops::Op& o, bool strict) { heap::onState = onState; seen.clear(); heap::reset(); ops::enter = [] { heap::on = true; }; ops::leave = [] { heap::on = false; }; ops::Result r = o.f(); ops::enter = ops::leave = nullptr; heap::onState = nullptr;
      if (heap::bad) throw Violation{fmt("%s: %s", o.name.c_str(), heap::bad)}; size_t ll = 0, lo = 0; std::string sz; for (auto& e : heap::tab) if (e.p) { if (e.lib) { ll++; if (sz.size() < 100) sz += fmt(" %zu", e.n); } else lo++; }
      CHECK(ll == 0, "%s (returned %d) leaves %zu blocks of the library allocated (sizes%s)", o.name.c_str(), r.ret, ll, sz.c_str()); H.count("allocations", heap::allocs); H.count("library_allocations", heap::libAllocs); H.count("events", heap::allocs + heap::frees); for (auto s : seen) H.distinct("model_states", s ^ 1); CHECK(!o.rejects || r.ret != 0, "%s reports success", o.name.c_str()); return std::make_pair(r.ret, lo); };
#ifdef INTERNALS
    (void)warm; for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; faest_paramset_t ps = faest_get_paramset((faest_paramid_t)P.id); auto check = [&](const char* what) { heap::close(); if (heap::bad) throw Violation{fmt("%s: %s", what, heap::bad)}; size_t ll = heap::liveLib(); CHECK(ll == 0, "%s leaves %zu blocks allocated", what, ll); H.count("events", heap::allocs + heap::frees); H.eval(fnvs(what, pi)); };
      for (unsigned d : {P.k0, P.k1}) H.run(fmt("%s vector commitment depth %u", P.name, d), [&] { Bytes root = msg(P.lb(), 1), iv = msg(16, 2); vec_com_t vc; heap::open(); vector_commitment(root.data(), iv.data(), &ps, P.lambda, &vc, d); heap::on = false;
          for (unsigned c = 0; c < 8; c++) { Bytes b(d), co(d * P.lb()), cj(2 * P.lb()); size_t j = (c * 0x9E3779B9u) % (1u << d); BitDec(j, d, b.data()); heap::on = true; vector_open(vc.k, vc.com, b.data(), co.data(), cj.data(), d, P.lb()); Bytes* h = nullptr; heap::on = false; Bytes hh(vc.h, vc.h + 2 * P.lb()); if (c & 1) hh[c] ^= 4; if (c & 4) co[0] ^= 1; vec_com_rec_t rec; bool want = !(c & 5); size_t before = heap::liveLib(); heap::on = true; int r = vector_verify(iv.data(), co.data(), cj.data(), b.data(), P.lambda, d, c & 2 ? &rec : nullptr, hh.data()); heap::on = false; (void)h; CHECK((r == 1) == want, "vector_verify returned %d", r); if (want && (c & 2)) { heap::on = true; vec_com_rec_clear(&rec); heap::on = false; } CHECK(heap::liveLib() == before, "vector_verify (%s, %s) changes the number of allocated blocks by %ld", want ? "match" : "mismatch", c & 2 ? "result kept and cleared" : "result not wanted", (long)(heap::liveLib() - before)); }
          heap::on = true; vec_com_clear(&vc); check("vector commitment, openings and clearing"); });
      H.run(fmt("%s witness", P.name), [&] { auto& b = ops::base(pi); heap::open(); uint8_t* w = aes_extend_witness(b.k.sk.data() + P.insz(), b.k.sk.data(), &ps); heap::on = false; CHECK(heap::liveLib() == 1, "aes_extend_witness leaves %zu blocks besides its result", heap::liveLib() - 1); heap::on = true; heap::inLib = true; heap::doFree(w); heap::inLib = false; check("aes_extend_witness"); }); }
#else
    auto ready = [&] { if (warm) return; warm = true; for (unsigned q : {1u, 3u, 5u}) { auto v = ops::alphabet(q, 0); for (auto& o : v) o.f(); } };
    auto shim = [&](ops::Op& o, size_t* other) { auto [r, lo] = win(o, true); (void)r; *other = lo; };
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; bool fast = isFast(P); unsigned det = lite ? 0 : fast ? 2 : H.thorough ? 2 : 0; if (lite && P.lambda != 128) continue; if (lite && !fast) continue;
      // sizes of the alphabets are static: enumerate by index, build lazily
      static std::map<unsigned, std::vector<ops::Op>> al; auto A = [&](unsigned d) -> std::vector<ops::Op>& { auto& v = al[pi * 4 + d]; if (v.empty()) v = ops::alphabet(pi, d); return v; };
      size_t n = A(det).size();
      for (size_t i = 0; i < n; i++) H.run(fmt("%s fresh operation %zu", P.name, i), [&] { auto& o = A(det)[i]; size_t a = 0; shim(o, &a); H.evalStr(o.name); if (lite) return; ready(); size_t x = 0, y = 0; shim(o, &x); shim(o, &y); if (H.thorough) shim(o, &x); CHECK(x == y, "%s leaves %zu further blocks (of the cryptographic backend) allocated at each call", o.name.c_str(), std::max(x, y)); CHECK(y == 0, "%s leaves %zu blocks (of the cryptographic backend) allocated although everything is initialised", o.name.c_str(), y); });
      if (fast && !lite && (P.lambda == 128 || H.thorough)) { unsigned d1 = pi == 1 || H.thorough ? 1 : 0; size_t k = A(d1).size(); for (size_t i = 0; i < k; i++) H.run(fmt("%s sequences from operation %zu", P.name, i), [&, d1] { ready(); auto& v = A(d1); for (size_t j = 0; j < k; j++) for (size_t l = 0; l < (H.thorough && P.lambda == 128 ? k : 1); l++) { for (size_t q : {i, j, l}) { if (q == l && !(H.thorough && P.lambda == 128)) continue; size_t a = 0; shim(v[q], &a); CHECK(a == 0, "%s leaves %zu blocks (of the cryptographic backend) allocated", v[q].name.c_str(), a); } H.eval(i * 10007 + j * 101 + l + pi * 1000003); H.count("sequences"); } }); }
    }
#endif
  });
}
