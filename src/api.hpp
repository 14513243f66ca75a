// Table of the public per-parameter-set API of the library under test.
#pragma once
#include "ref.hpp"
#define APIDECL(n) extern "C" { \
  int faest_##n##_keygen(uint8_t*, uint8_t*); int faest_##n##_validate_keypair(const uint8_t*, const uint8_t*); \
  int faest_##n##_sign(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*); \
  int faest_##n##_sign_with_randomness(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*); \
  int faest_##n##_verify(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t); void faest_##n##_clear_private_key(uint8_t*); }
#define APIROW(n) {faest_##n##_keygen, faest_##n##_validate_keypair, faest_##n##_sign, faest_##n##_sign_with_randomness, faest_##n##_verify, faest_##n##_clear_private_key},
#define APIALL(X) X(128s) X(128f) X(192s) X(192f) X(256s) X(256f) X(em_128s) X(em_128f) X(em_192s) X(em_192f) X(em_256s) X(em_256f)
APIALL(APIDECL)
struct Api {
  int (*keygen)(uint8_t*, uint8_t*); int (*validate)(const uint8_t*, const uint8_t*); int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*signr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*); int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t); void (*clear)(uint8_t*);
};
static const Api API[12] = {APIALL(APIROW)};
static inline bool isFast(const ref::Params& P) { return P.t0 == 0 && P.k1 == 8; }
