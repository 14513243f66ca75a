// Link-time interposition on the library's random oracles: the harness can program their answers.
// A programmed oracle stays a function: the real digest identifies the query, so the same query gets
// the programmed answer from every caller (signer and verifier), and any other query the real one.
#pragma once
#include "harness.hpp"
#include "ref.hpp"
#include <map>
namespace oracle {
using ref::Bytes;
using Tap = std::function<void(const char* stage, Bytes& b)>; // stage: H1 H2 H3iv H3key
static std::map<Bytes, Bytes> table; static Tap prog; static bool record = false; static unsigned calls = 0, nprog = 0;
static unsigned h1n = 0, h2n = 0;
static void reset() { table.clear(); prog = nullptr; record = false; calls = nprog = h1n = h2n = 0; }
static void apply(const char* st, Bytes& b) {
  calls++; auto it = table.find(b); if (it != table.end()) { b = it->second; return; }
  if (!prog) return; Bytes r = b; prog(st, b); if (b != r) { nprog++; if (record) table[r] = b; }
}
static bool active() { return prog || !table.empty(); }
}
#ifdef WRAP_H1_final
extern "C" void __real_H1_final(void*, uint8_t*, size_t);
extern "C" void __wrap_H1_final(void* c, uint8_t* d, size_t n) { __real_H1_final(c, d, n); if (oracle::active()) { oracle::Bytes b(d, d + n); oracle::h1n++; oracle::apply("H1", b); memcpy(d, b.data(), n); } }
#endif
#ifdef WRAP_H2_final
extern "C" void __real_H2_final(void*, uint8_t*, size_t);
extern "C" void __wrap_H2_final(void* c, uint8_t* d, size_t n) { __real_H2_final(c, d, n); if (oracle::active()) { oracle::Bytes b(d, d + n); oracle::h2n++; oracle::apply("H2", b); memcpy(d, b.data(), n); } }
#endif
#ifdef WRAP_H3_final
extern "C" void __real_H3_final(void*, uint8_t*, size_t, uint8_t*);
extern "C" void __wrap_H3_final(void* c, uint8_t* d, size_t n, uint8_t* iv) { __real_H3_final(c, d, n, iv); if (oracle::active()) { oracle::Bytes b(d, d + n), v(iv, iv + 16); oracle::apply("H3key", b); oracle::apply("H3iv", v); memcpy(d, b.data(), n); memcpy(iv, v.data(), 16); } }
#endif
