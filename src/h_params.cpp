// C18: parameter table, identifiers, names, public headers and what the operations produce.
#include "gen.hpp"
#include "guard.hpp"
extern "C" {
#include "instances.h"
#include "parameters.h"
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
}
struct NistRow { size_t sk, pk, sig; const char* name; };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#undef CRYPTO_SIGN_128S_H
#define NH <faest_128s/api.h>
#define NN api_128s
#include "nistrow.inc"
#undef CRYPTO_SIGN_128F_H
#define NH <faest_128f/api.h>
#define NN api_128f
#include "nistrow.inc"
#undef CRYPTO_SIGN_192S_H
#define NH <faest_192s/api.h>
#define NN api_192s
#include "nistrow.inc"
#undef CRYPTO_SIGN_192F_H
#define NH <faest_192f/api.h>
#define NN api_192f
#include "nistrow.inc"
#undef CRYPTO_SIGN_256S_H
#define NH <faest_256s/api.h>
#define NN api_256s
#include "nistrow.inc"
#undef CRYPTO_SIGN_256F_H
#define NH <faest_256f/api.h>
#define NN api_256f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_128S_H
#define NH <faest_em_128s/api.h>
#define NN api_em_128s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_128F_H
#define NH <faest_em_128f/api.h>
#define NN api_em_128f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_192S_H
#define NH <faest_em_192s/api.h>
#define NN api_em_192s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_192F_H
#define NH <faest_em_192f/api.h>
#define NN api_em_192f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_256S_H
#define NH <faest_em_256s/api.h>
#define NN api_em_256s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_256F_H
#define NH <faest_em_256f/api.h>
#define NN api_em_256f
#include "nistrow.inc"
#undef CRYPTO_SIGN_128S_H
#define NH <faest_128s/crypto_sign.h>
#define NN crypto_sign_128s
#include "nistrow.inc"
#undef CRYPTO_SIGN_128F_H
#define NH <faest_128f/crypto_sign.h>
#define NN crypto_sign_128f
#include "nistrow.inc"
#undef CRYPTO_SIGN_192S_H
#define NH <faest_192s/crypto_sign.h>
#define NN crypto_sign_192s
#include "nistrow.inc"
#undef CRYPTO_SIGN_192F_H
#define NH <faest_192f/crypto_sign.h>
#define NN crypto_sign_192f
#include "nistrow.inc"
#undef CRYPTO_SIGN_256S_H
#define NH <faest_256s/crypto_sign.h>
#define NN crypto_sign_256s
#include "nistrow.inc"
#undef CRYPTO_SIGN_256F_H
#define NH <faest_256f/crypto_sign.h>
#define NN crypto_sign_256f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_128S_H
#define NH <faest_em_128s/crypto_sign.h>
#define NN crypto_sign_em_128s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_128F_H
#define NH <faest_em_128f/crypto_sign.h>
#define NN crypto_sign_em_128f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_192S_H
#define NH <faest_em_192s/crypto_sign.h>
#define NN crypto_sign_em_192s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_192F_H
#define NH <faest_em_192f/crypto_sign.h>
#define NN crypto_sign_em_192f
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_256S_H
#define NH <faest_em_256s/crypto_sign.h>
#define NN crypto_sign_em_256s
#include "nistrow.inc"
#undef CRYPTO_SIGN_EM_256F_H
#define NH <faest_em_256f/crypto_sign.h>
#define NN crypto_sign_em_256f
#include "nistrow.inc"
struct Row { size_t hsk, hpk, hsig, lam, nwd, ske, r, senc, beta, l, lke, lenc, tau, k0, k1, t0, t1, tsig, tpk, tsk; NistRow api, cs; faest_paramid_t id; const char* name; };
static const Row ROW[12] = {
{FAEST_128S_PRIVATE_KEY_SIZE, FAEST_128S_PUBLIC_KEY_SIZE, FAEST_128S_SIGNATURE_SIZE, FAEST_128S_LAMBDA, FAEST_128S_Nwd, FAEST_128S_Ske, FAEST_128S_R, FAEST_128S_Senc, FAEST_128S_BETA, FAEST_128S_L, FAEST_128S_Lke, FAEST_128S_Lenc, FAEST_128S_TAU, FAEST_128S_K0, FAEST_128S_K1, FAEST_128S_T0, FAEST_128S_T1, FAEST_128S_SIG_SIZE, FAEST_128S_PK_SIZE, FAEST_128S_SK_SIZE, nrow_api_128s, nrow_crypto_sign_128s, FAEST_128S, "FAEST_128S"},
{FAEST_128F_PRIVATE_KEY_SIZE, FAEST_128F_PUBLIC_KEY_SIZE, FAEST_128F_SIGNATURE_SIZE, FAEST_128F_LAMBDA, FAEST_128F_Nwd, FAEST_128F_Ske, FAEST_128F_R, FAEST_128F_Senc, FAEST_128F_BETA, FAEST_128F_L, FAEST_128F_Lke, FAEST_128F_Lenc, FAEST_128F_TAU, FAEST_128F_K0, FAEST_128F_K1, FAEST_128F_T0, FAEST_128F_T1, FAEST_128F_SIG_SIZE, FAEST_128F_PK_SIZE, FAEST_128F_SK_SIZE, nrow_api_128f, nrow_crypto_sign_128f, FAEST_128F, "FAEST_128F"},
{FAEST_192S_PRIVATE_KEY_SIZE, FAEST_192S_PUBLIC_KEY_SIZE, FAEST_192S_SIGNATURE_SIZE, FAEST_192S_LAMBDA, FAEST_192S_Nwd, FAEST_192S_Ske, FAEST_192S_R, FAEST_192S_Senc, FAEST_192S_BETA, FAEST_192S_L, FAEST_192S_Lke, FAEST_192S_Lenc, FAEST_192S_TAU, FAEST_192S_K0, FAEST_192S_K1, FAEST_192S_T0, FAEST_192S_T1, FAEST_192S_SIG_SIZE, FAEST_192S_PK_SIZE, FAEST_192S_SK_SIZE, nrow_api_192s, nrow_crypto_sign_192s, FAEST_192S, "FAEST_192S"},
{FAEST_192F_PRIVATE_KEY_SIZE, FAEST_192F_PUBLIC_KEY_SIZE, FAEST_192F_SIGNATURE_SIZE, FAEST_192F_LAMBDA, FAEST_192F_Nwd, FAEST_192F_Ske, FAEST_192F_R, FAEST_192F_Senc, FAEST_192F_BETA, FAEST_192F_L, FAEST_192F_Lke, FAEST_192F_Lenc, FAEST_192F_TAU, FAEST_192F_K0, FAEST_192F_K1, FAEST_192F_T0, FAEST_192F_T1, FAEST_192F_SIG_SIZE, FAEST_192F_PK_SIZE, FAEST_192F_SK_SIZE, nrow_api_192f, nrow_crypto_sign_192f, FAEST_192F, "FAEST_192F"},
{FAEST_256S_PRIVATE_KEY_SIZE, FAEST_256S_PUBLIC_KEY_SIZE, FAEST_256S_SIGNATURE_SIZE, FAEST_256S_LAMBDA, FAEST_256S_Nwd, FAEST_256S_Ske, FAEST_256S_R, FAEST_256S_Senc, FAEST_256S_BETA, FAEST_256S_L, FAEST_256S_Lke, FAEST_256S_Lenc, FAEST_256S_TAU, FAEST_256S_K0, FAEST_256S_K1, FAEST_256S_T0, FAEST_256S_T1, FAEST_256S_SIG_SIZE, FAEST_256S_PK_SIZE, FAEST_256S_SK_SIZE, nrow_api_256s, nrow_crypto_sign_256s, FAEST_256S, "FAEST_256S"},
{FAEST_256F_PRIVATE_KEY_SIZE, FAEST_256F_PUBLIC_KEY_SIZE, FAEST_256F_SIGNATURE_SIZE, FAEST_256F_LAMBDA, FAEST_256F_Nwd, FAEST_256F_Ske, FAEST_256F_R, FAEST_256F_Senc, FAEST_256F_BETA, FAEST_256F_L, FAEST_256F_Lke, FAEST_256F_Lenc, FAEST_256F_TAU, FAEST_256F_K0, FAEST_256F_K1, FAEST_256F_T0, FAEST_256F_T1, FAEST_256F_SIG_SIZE, FAEST_256F_PK_SIZE, FAEST_256F_SK_SIZE, nrow_api_256f, nrow_crypto_sign_256f, FAEST_256F, "FAEST_256F"},
{FAEST_EM_128S_PRIVATE_KEY_SIZE, FAEST_EM_128S_PUBLIC_KEY_SIZE, FAEST_EM_128S_SIGNATURE_SIZE, FAEST_EM_128S_LAMBDA, FAEST_EM_128S_Nwd, FAEST_EM_128S_Ske, FAEST_EM_128S_R, FAEST_EM_128S_Senc, FAEST_EM_128S_BETA, FAEST_EM_128S_L, FAEST_EM_128S_Lke, FAEST_EM_128S_Lenc, FAEST_EM_128S_TAU, FAEST_EM_128S_K0, FAEST_EM_128S_K1, FAEST_EM_128S_T0, FAEST_EM_128S_T1, FAEST_EM_128S_SIG_SIZE, FAEST_EM_128S_PK_SIZE, FAEST_EM_128S_SK_SIZE, nrow_api_em_128s, nrow_crypto_sign_em_128s, FAEST_EM_128S, "FAEST_EM_128S"},
{FAEST_EM_128F_PRIVATE_KEY_SIZE, FAEST_EM_128F_PUBLIC_KEY_SIZE, FAEST_EM_128F_SIGNATURE_SIZE, FAEST_EM_128F_LAMBDA, FAEST_EM_128F_Nwd, FAEST_EM_128F_Ske, FAEST_EM_128F_R, FAEST_EM_128F_Senc, FAEST_EM_128F_BETA, FAEST_EM_128F_L, FAEST_EM_128F_Lke, FAEST_EM_128F_Lenc, FAEST_EM_128F_TAU, FAEST_EM_128F_K0, FAEST_EM_128F_K1, FAEST_EM_128F_T0, FAEST_EM_128F_T1, FAEST_EM_128F_SIG_SIZE, FAEST_EM_128F_PK_SIZE, FAEST_EM_128F_SK_SIZE, nrow_api_em_128f, nrow_crypto_sign_em_128f, FAEST_EM_128F, "FAEST_EM_128F"},
{FAEST_EM_192S_PRIVATE_KEY_SIZE, FAEST_EM_192S_PUBLIC_KEY_SIZE, FAEST_EM_192S_SIGNATURE_SIZE, FAEST_EM_192S_LAMBDA, FAEST_EM_192S_Nwd, FAEST_EM_192S_Ske, FAEST_EM_192S_R, FAEST_EM_192S_Senc, FAEST_EM_192S_BETA, FAEST_EM_192S_L, FAEST_EM_192S_Lke, FAEST_EM_192S_Lenc, FAEST_EM_192S_TAU, FAEST_EM_192S_K0, FAEST_EM_192S_K1, FAEST_EM_192S_T0, FAEST_EM_192S_T1, FAEST_EM_192S_SIG_SIZE, FAEST_EM_192S_PK_SIZE, FAEST_EM_192S_SK_SIZE, nrow_api_em_192s, nrow_crypto_sign_em_192s, FAEST_EM_192S, "FAEST_EM_192S"},
{FAEST_EM_192F_PRIVATE_KEY_SIZE, FAEST_EM_192F_PUBLIC_KEY_SIZE, FAEST_EM_192F_SIGNATURE_SIZE, FAEST_EM_192F_LAMBDA, FAEST_EM_192F_Nwd, FAEST_EM_192F_Ske, FAEST_EM_192F_R, FAEST_EM_192F_Senc, FAEST_EM_192F_BETA, FAEST_EM_192F_L, FAEST_EM_192F_Lke, FAEST_EM_192F_Lenc, FAEST_EM_192F_TAU, FAEST_EM_192F_K0, FAEST_EM_192F_K1, FAEST_EM_192F_T0, FAEST_EM_192F_T1, FAEST_EM_192F_SIG_SIZE, FAEST_EM_192F_PK_SIZE, FAEST_EM_192F_SK_SIZE, nrow_api_em_192f, nrow_crypto_sign_em_192f, FAEST_EM_192F, "FAEST_EM_192F"},
{FAEST_EM_256S_PRIVATE_KEY_SIZE, FAEST_EM_256S_PUBLIC_KEY_SIZE, FAEST_EM_256S_SIGNATURE_SIZE, FAEST_EM_256S_LAMBDA, FAEST_EM_256S_Nwd, FAEST_EM_256S_Ske, FAEST_EM_256S_R, FAEST_EM_256S_Senc, FAEST_EM_256S_BETA, FAEST_EM_256S_L, FAEST_EM_256S_Lke, FAEST_EM_256S_Lenc, FAEST_EM_256S_TAU, FAEST_EM_256S_K0, FAEST_EM_256S_K1, FAEST_EM_256S_T0, FAEST_EM_256S_T1, FAEST_EM_256S_SIG_SIZE, FAEST_EM_256S_PK_SIZE, FAEST_EM_256S_SK_SIZE, nrow_api_em_256s, nrow_crypto_sign_em_256s, FAEST_EM_256S, "FAEST_EM_256S"},
{FAEST_EM_256F_PRIVATE_KEY_SIZE, FAEST_EM_256F_PUBLIC_KEY_SIZE, FAEST_EM_256F_SIGNATURE_SIZE, FAEST_EM_256F_LAMBDA, FAEST_EM_256F_Nwd, FAEST_EM_256F_Ske, FAEST_EM_256F_R, FAEST_EM_256F_Senc, FAEST_EM_256F_BETA, FAEST_EM_256F_L, FAEST_EM_256F_Lke, FAEST_EM_256F_Lenc, FAEST_EM_256F_TAU, FAEST_EM_256F_K0, FAEST_EM_256F_K1, FAEST_EM_256F_T0, FAEST_EM_256F_T1, FAEST_EM_256F_SIG_SIZE, FAEST_EM_256F_PK_SIZE, FAEST_EM_256F_SK_SIZE, nrow_api_em_256f, nrow_crypto_sign_em_256f, FAEST_EM_256F, "FAEST_EM_256F"},
};
using namespace ref; using namespace gen;
static unsigned draws = 0; static size_t drawn = 0;
extern "C" int rand_bytes(uint8_t* p, size_t n) { Rng g(777 + draws++); g.fill(p, n); drawn += n; return 0; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 200;
  return H.main([&](Harness& H) {
    for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Row& R = ROW[pi]; const Api& A = API[pi];
#define EQ(a, b, what) CHECK((size_t)(a) == (size_t)(b), "%s: %s is %zu, expected %zu", P.name, what, (size_t)(a), (size_t)(b))
      H.run(fmt("%s headers", P.name), [&] { EQ(R.hsk, P.sk, "published private key size"); EQ(R.hpk, P.pk, "published public key size"); EQ(R.hsig, P.sig, "published signature size"); EQ(R.tsk, P.sk, "configured private key size"); EQ(R.tpk, P.pk, "configured public key size"); EQ(R.tsig, P.sig, "configured signature size");
        for (auto* n : {&R.api, &R.cs}) { EQ(n->sk, P.sk, "CRYPTO_SECRETKEYBYTES"); EQ(n->pk, P.pk, "CRYPTO_PUBLICKEYBYTES"); EQ(n->sig, P.sig, "CRYPTO_BYTES"); CHECK(std::string(n->name) == std::string("faest_") + P.name, "CRYPTO_ALGNAME is %s for faest_%s", n->name, P.name); }
        EQ(R.lam, P.lambda, "LAMBDA"); EQ(R.nwd, P.Nwd, "Nwd"); EQ(R.ske, P.Ske, "Ske"); EQ(R.r, P.R, "R"); EQ(R.senc, P.Senc, "Senc"); EQ(R.beta, P.beta, "BETA"); EQ(R.l, P.l, "L"); EQ(R.lke, P.Lke, "Lke"); EQ(R.lenc, P.Lenc, "Lenc"); EQ(R.tau, P.tau, "TAU"); EQ(R.k0, P.k0, "K0"); EQ(R.k1, P.k1, "K1"); EQ(R.t0, P.t0, "T0"); EQ(R.t1, P.t1, "T1"); H.eval(pi); });
      H.run(fmt("%s table", P.name), [&] { CHECK((int)R.id == (int)P.id, "%s has identifier %d, expected %d", R.name, (int)R.id, P.id); faest_paramset_t s = faest_get_paramset(R.id); CHECK(s.faest_paramid == R.id, "the parameter set of identifier %d claims identifier %d", (int)R.id, (int)s.faest_paramid); const faest_param_t& f = s.faest_param; CHECK(std::string(faest_get_param_name(R.id)) == R.name, "identifier %d is named %s instead of %s", (int)R.id, faest_get_param_name(R.id), R.name);
        EQ(f.lambda, P.lambda, "lambda"); EQ(f.Nwd, P.Nwd, "Nwd"); EQ(f.Ske, P.Ske, "Ske"); EQ(f.R, P.R, "R"); EQ(f.Senc, P.Senc, "Senc"); EQ(f.l, P.l, "l"); EQ(f.Lke, P.Lke, "Lke"); EQ(f.Lenc, P.Lenc, "Lenc"); EQ(f.tau, P.tau, "tau"); EQ(f.k0, P.k0, "k0"); EQ(f.k1, P.k1, "k1"); EQ(f.t0, P.t0, "t0"); EQ(f.t1, P.t1, "t1"); EQ(f.sigSize, P.sig, "sigSize"); EQ(f.pkSize, P.pk, "pkSize");
        // the scheme's defining equations, from the table alone
        size_t lb = f.lambda / 8, st = P.em ? f.Nwd : 4, beta = P.em ? 1 : f.lambda == 128 ? 1 : 2; EQ(f.l, f.Lke + f.Lenc * beta, "l = Lke + beta Lenc"); EQ(f.Nwd * 32, f.lambda, "32 Nwd = lambda"); EQ(f.R, f.Nwd + 6, "R = Nwd + 6"); EQ(f.t0 + f.t1, f.tau, "t0 + t1 = tau"); EQ(f.k0 * f.t0 + f.k1 * f.t1, f.lambda, "k0 t0 + k1 t1 = lambda"); EQ(f.Lenc, P.em ? f.lambda * f.R : 128 * (f.R - 1), "Lenc"); EQ(f.Senc, 4 * st * f.R, "Senc = 4 Nst R");
        EQ(f.Lke, P.em ? 0 : f.lambda + 8 * f.Ske, "Lke = lambda + 8 Ske"); size_t eb = (f.l + 2 * f.lambda + 16) / 8; EQ(f.sigSize, (f.tau - 1) * eb + (lb + 2) + f.l / 8 + lb + (f.k0 * f.t0 + f.k1 * f.t1 + 2 * f.tau) * lb + lb + 16, "signature size from its components"); EQ(f.pkSize, 2 * (P.em ? lb : 16 * beta), "public key size from the block size");
        CHECK(f.lambda <= MAX_LAMBDA && f.k0 <= MAX_DEPTH && f.k1 <= MAX_DEPTH && f.tau <= MAX_TAU && lb <= MAX_LAMBDA_BYTES, "array bounds too small for %s", P.name); H.eval(pi + 12); });
      H.run(fmt("%s operations", P.name), [&] { for (unsigned v = 0; v < (H.thorough ? 16u : 2u); v++) { Guard pk(R.hpk, v & 1), sk(R.hsk, v & 1); draws = v * 50; drawn = 0; CHECK(A.keygen(pk.p, sk.p) == 0, "keygen"); CHECK(pk.clean() && sk.clean(), "keygen writes beyond the published key sizes"); CHECK(drawn && drawn % R.hsk == 0, "keygen drew %zu bytes for keys of %zu", drawn, R.hsk);
          { Bytes p2(R.hpk, 0x3C), s2(R.hsk, 0x3C); draws = v * 50; A.keygen(p2.data(), s2.data()); CHECK(!memcmp(pk.p, p2.data(), R.hpk) && !memcmp(sk.p, s2.data(), R.hsk), "keygen leaves part of the published key size unwritten"); CHECK(A.validate(p2.data(), s2.data()) == 0, "invalid pair"); }
          Bytes m = msg(20 + v, pi); Bytes sg; for (int fill : {0x00, 0xff}) { Guard s(R.hsig, true); memset(s.p, fill, s.n); size_t l = R.hsig; draws = 1; CHECK(A.sign(sk.p, m.data(), m.size(), s.p, &l) == 0, "signing into a buffer of the published size fails"); CHECK(l == R.hsig && s.clean(), "signature length %zu instead of the published %zu", l, R.hsig); Bytes b(s.p, s.p + s.n); if (fill) CHECK(b == sg, "part of the published signature size is not written"); sg = b; }
          size_t l = R.hsig - 1; Bytes b(R.hsig); CHECK(A.sign(sk.p, m.data(), m.size(), b.data(), &l) != 0, "capacity below the published size accepted"); CHECK(A.verify(pk.p, m.data(), m.size(), sg.data(), R.hsig) == 0, "verification of a signature of the published size fails"); Bytes big(sg); big.resize(40000); for (size_t q : {R.hsig - 1, R.hsig + 1}) CHECK(A.verify(pk.p, m.data(), m.size(), big.data(), q) != 0, "verification accepts length %zu", q);
          Bytes pkx(pk.p, pk.p + pk.n); pkx.resize(64); for (unsigned o = 0; o < 12; o++) if (o != pi) CHECK(API[o].verify(pkx.data(), m.data(), m.size(), big.data(), ROW[o].hsig) != 0 && API[o].verify(pkx.data(), m.data(), m.size(), big.data(), R.hsig) != 0, "a %s signature is accepted by %s", P.name, ALL[o].name); H.eval(fnv(sg.data(), sg.size())); } });
    }
    // every identifier value there is
    for (unsigned c = 0; c < 64; c++) H.run(fmt("identifiers %#x00000000/64", c), [&] { uint64_t lo = (uint64_t)c << 26, hi = lo + (1ull << 26); for (uint64_t i = lo; i < hi; i++) { if (i >= 1 && i <= 12) continue; faest_paramset_t s = faest_get_paramset((faest_paramid_t)(uint32_t)i); if (s.faest_paramid != PARAMETER_SET_INVALID) throw Violation{fmt("unknown identifier %llu yields parameter set %d", (unsigned long long)i, (int)s.faest_paramid)}; if (s.faest_param.lambda || s.faest_param.tau || s.faest_param.sigSize || s.faest_param.l) throw Violation{fmt("unknown identifier %llu yields parameters", (unsigned long long)i)}; }
        for (uint64_t i = lo; i < lo + 70000; i++) { const char* n = faest_get_param_name((faest_paramid_t)(uint32_t)i); if (i >= 1 && i <= 12) continue; for (auto& r : ROW) CHECK(n && strcmp(n, r.name), "unknown identifier %llu is named %s", (unsigned long long)i, n ? n : "(null)"); } H.eval(c + 1000); H.count("identifiers", hi - lo); });
  });
}
