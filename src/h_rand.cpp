// C06: every sequence of answers the operating system's random source can give, up to a depth, against
// the required behaviour: a successful call is the function of the delivered bytes; an incomplete
// delivery that is not completed later is a failure.
#include "gen.hpp"
#include "harness.hpp"
#include <sys/random.h>
#include <sys/syscall.h>
using namespace ref; using namespace gen;
namespace src {
enum Ans { FULL, ZERO, ONE, HALF, ALLBUT1, INTR, AGAIN, NOSYS, IO, NA };
static const char* nm[NA] = {"full", "0", "1", "half", "n-1", "EINTR", "EAGAIN", "ENOSYS", "EIO"};
static bool on = false; static std::vector<Ans> script; static Ans tail = FULL; static size_t pos = 0, calls = 0; static Bytes stream; static size_t off = 0; static bool fault = false; static int fds = 0; static const int FD = 999; static bool openFails = false;
static void reset(const std::vector<Ans>& s, Ans t, const Bytes& st) { script = s; tail = t; pos = calls = off = 0; stream = st; fault = false; fds = 0; on = true; openFails = false; }
static ssize_t answer(void* p, size_t n) {
  if (++calls > 20000 + stream.size()) { fprintf(stderr, "random source asked without end\n"); _exit(91); }
  Ans a = pos < script.size() ? script[pos] : tail; pos++; size_t k = n; 
  switch (a) { case FULL: break; case ZERO: k = 0; break; case ONE: k = n ? 1 : 0; break; case HALF: k = n / 2; break; case ALLBUT1: k = n ? n - 1 : 0; break; case INTR: fault = true; errno = EINTR; return -1; case AGAIN: fault = true; errno = EAGAIN; return -1; case NOSYS: fault = true; errno = ENOSYS; return -1; default: fault = true; errno = EIO; return -1; }
  if (k != n) fault = true; if (k > n) k = n;
  for (size_t i = 0; i < k; i++) { if (off >= stream.size()) stream.resize(off + 4096, 0x5c); ((uint8_t*)p)[i] = stream[off++]; } return (ssize_t)k;
}
static Bytes delivered() { return Bytes(stream.begin(), stream.begin() + off); }
}
extern "C" ssize_t getrandom(void* p, size_t n, unsigned f) { if (!src::on) return syscall(SYS_getrandom, p, n, f); return src::answer(p, n); }
extern "C" int getentropy(void* p, size_t n) { if (!src::on) return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1; ssize_t k = src::answer(p, n); if (k < 0) return -1; if ((size_t)k != n) { errno = EIO; return -1; } return 0; }
static bool isRnd(const char* p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
#ifdef VARIANTS
static int v_open(const char* p, int fl, ...) { if (src::on && isRnd(p)) { if (src::openFails) { src::fault = true; errno = ENOENT; return -1; } src::Ans a = src::pos < src::script.size() ? src::script[src::pos] : src::FULL; if (a == src::INTR) { src::pos++; src::fault = true; errno = EINTR; return -1; } src::fds++; return src::FD; } errno = ENOENT; return -1; }
static int v_close(int fd) { if (fd == src::FD) src::fds--; return 0; }
static ssize_t v_read(int fd, void* p, size_t n) { if (fd != src::FD) { errno = EBADF; return -1; } return src::answer(p, n); }
static bool ioctlFails = false; static int v_ioctl(int fd, unsigned long r, ...) { if (ioctlFails) { src::fault = true; errno = EINVAL; return -1; } return 0; }
static void v_arc4random_buf(void* p, size_t n) { src::answer(p, n); }
extern "C" void randombytes(unsigned char* p, unsigned long long n) { src::answer(p, n); }
#include <sys/ioctl.h>
#include <linux/random.h>
#include <sys/stat.h>
#include "macros.h"
#include "randomness.h"
#define getrandom v_getrandom_unused
#define open v_open
#define close v_close
#define read v_read
#define ioctl v_ioctl
#define arc4random_buf v_arc4random_buf
#undef HAVE_CONFIG_H
#undef HAVE_RANDOMBYTES
#undef HAVE_GETRANDOM
#undef HAVE_SYS_RANDOM_H
#undef HAVE_ARC4RANDOM_BUF
#undef GLIBC_CHECK
#define GLIBC_CHECK(a, b) 0
#define rand_bytes rand_bytes_urandom
#include "randomness.c"
#undef rand_bytes
#define rand_bytes rand_bytes_arc4
#define HAVE_ARC4RANDOM_BUF 1
#include "randomness.c"
#undef rand_bytes
#define rand_bytes rand_bytes_hook
#define HAVE_RANDOMBYTES 1
#define randombytes randombytes
#include "randomness.c"
#undef rand_bytes
#undef open
#undef close
#undef read
#undef ioctl
#endif
extern "C" int rand_bytes(uint8_t* p, size_t n);
using src::Ans;
static void seqs(unsigned depth, const std::function<void(const std::vector<Ans>&)>& f) { std::vector<Ans> s; std::function<void()> go = [&] { f(s); if (s.size() == depth) return; for (int a = 0; a < src::NA; a++) { s.push_back((Ans)a); go(); s.pop_back(); } }; go(); }
static std::string str(const std::vector<Ans>& s, Ans t) { std::string r; for (auto a : s) r += std::string(src::nm[a]) + " "; return r + "then always " + src::nm[t]; }
int main(int argc, char** argv) {
  Harness H(argc, argv); H.caseLimit = 60; std::string part = getenv("PART") ? getenv("PART") : "api";
  return H.main([&](Harness& H) {
    // outcome classes reached, per model state (bytes delivered, faults seen)
    auto st = [&](const std::vector<Ans>& s, Ans t, int r, size_t extra) { uint64_t h = fnv(s.data(), s.size() * sizeof(Ans), t * 17 + extra * 1000003 + (r != 0)); H.distinct("model_states", fnv(s.data(), std::min(src::pos, s.size()) * sizeof(Ans), (src::off * 4 + src::fault * 2 + (r != 0)) * 64 + t + extra * 1000003)); H.count("answers", src::calls); H.eval(h); };
    if (part == "api") for (unsigned pi = 0; pi < 12; pi++) { const Params& P = ALL[pi]; const Api& Ap = API[pi];
      for (unsigned bad = 0; bad <= (H.thorough ? 3u : 2u); bad++) for (Ans t : {src::FULL, src::NOSYS, src::IO, src::AGAIN, src::HALF}) H.run(fmt("%s keygen, %u unusable draws, %s", P.name, bad, src::nm[t]), [&] {
        // a stream whose first draws are not valid keys
        Bytes stream; Rng g(bad * 100 + pi); Bytes sk(P.sk), pk(P.pk); for (unsigned i = 0; i < bad; i++) { do g.fill(sk.data(), P.sk); while (keyFrom(P, sk.data(), pk.data())); stream.insert(stream.end(), sk.begin(), sk.end()); } validKey(P, g, sk, pk); stream.insert(stream.end(), sk.begin(), sk.end()); for (int i = 0; i < 40; i++) { validKey(P, g, sk, pk); stream.insert(stream.end(), sk.begin(), sk.end()); }
        seqs(H.thorough ? 5 : 4, [&](const std::vector<Ans>& s) { src::reset(s, t, stream); Bytes k(P.sk + 32, 0xC3), q(P.pk + 32, 0xC3); int r = Ap.keygen(q.data(), k.data()); src::on = false; Bytes D = src::delivered();
          std::string what = str(s, t); for (int i = 0; i < 32; i++) CHECK(k[P.sk + i] == 0xC3 && q[P.pk + i] == 0xC3, "keygen writes past its buffers (%s)", what.c_str());
          if (r == 0) { size_t i = 0; Bytes p(P.pk); for (;; i++) { CHECK((i + 1) * P.sk <= D.size(), "keygen succeeds although the source never delivered a whole valid key (answers: %s; %zu bytes delivered)", what.c_str(), D.size()); if (keyFrom(P, &D[i * P.sk], p.data())) break; } CHECK(!memcmp(k.data(), &D[i * P.sk], P.sk), "secret key is not the randomness the source delivered (answers: %s)", what.c_str()); CHECK(!memcmp(q.data(), p.data(), P.pk), "public key is not the one of the delivered randomness (answers: %s)", what.c_str()); H.count("keygen_success"); }
          else { CHECK(src::fault, "keygen fails (%d) although every answer of the source was complete (%s)", r, what.c_str()); H.count("keygen_refused"); }
          st(s, t, r, bad * 12 + pi); }); });
      for (unsigned bad : {4u, 5u, 7u, 8u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 99u, 100u, 101u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 1024u, 4096u, 65536u}) { if (bad > 1024 && !H.thorough) continue; for (int same = 0; same < 2; same++) H.run(fmt("%s keygen, %u unusable draws in a row%s", P.name, bad, same ? " (the same one)" : ""), [&] {
        Bytes stream; stream.reserve((size_t)(bad + 8) * P.sk); Rng g(bad * 10 + pi + same); Bytes sk(P.sk), pk(P.pk); for (unsigned i = 0; i < bad; i++) { if (!i || !same) do g.fill(sk.data(), P.sk); while (keyFrom(P, sk.data(), pk.data())); stream.insert(stream.end(), sk.begin(), sk.end()); } for (int i = 0; i < 8; i++) { validKey(P, g, sk, pk); stream.insert(stream.end(), sk.begin(), sk.end()); } validKey(P, g, sk, pk);
        std::copy(sk.begin(), sk.end(), stream.begin() + (size_t)bad * P.sk); std::vector<Ans> s; src::reset(s, src::FULL, stream); Bytes k(P.sk), q(P.pk); int r = Ap.keygen(q.data(), k.data()); src::on = false; CHECK(r == 0, "key generation fails after %u unusable draws", bad); CHECK(k == sk && q == pk, "key generation after %u unusable draws does not return the first usable one", bad); st(s, src::FULL, r, 5000 + bad * 24 + pi * 2 + same); }); }
      bool fast = isFast(P); unsigned dep = fast ? (H.thorough ? 4 : 3) : 1;
      for (Ans t : {src::FULL, src::NOSYS, src::HALF}) for (int a0 = -1; a0 < src::NA; a0++) H.run(fmt("%s sign, first answer %s, %s", P.name, a0 < 0 ? "none" : src::nm[a0], src::nm[t]), [&] {
        Bytes stream = msg(4096, pi + 5); Key key = gen::key(P, 9); Bytes m = msg(20, pi), sig(P.sig + 32), want(P.sig); std::map<Bytes, Bytes> memo;
        seqs(dep, [&](const std::vector<Ans>& s) { if (a0 < 0 ? !s.empty() : (s.empty() || s[0] != a0)) return; src::reset(s, t, stream); std::fill(sig.begin(), sig.end(), 0xC3); size_t sl = P.sig; int r = Ap.sign(key.sk.data(), m.data(), m.size(), sig.data(), &sl); src::on = false; Bytes D = src::delivered(); std::string what = str(s, t);
          for (int i = 0; i < 32; i++) CHECK(sig[P.sig + i] == 0xC3, "sign writes past the signature (%s)", what.c_str());
          if (r == 0) { CHECK(D.size() >= P.lb(), "sign succeeds although only %zu of %u random bytes were delivered (answers: %s)", D.size(), P.lb(), what.c_str()); Bytes rho(D.begin(), D.begin() + P.lb()); if (!memo.count(rho)) { size_t wl = P.sig; CHECK(Ap.signr(key.sk.data(), m.data(), m.size(), rho.data(), rho.size(), want.data(), &wl) == 0, "explicit randomness"); memo[rho] = want; } CHECK(!memcmp(sig.data(), memo[rho].data(), P.sig), "the signature is not the one for the delivered randomness (answers: %s)", what.c_str()); CHECK(sl == P.sig, "signature length %zu", sl); H.count("sign_success"); }
          else { CHECK(src::fault, "sign fails (%d) although every answer of the source was complete (%s)", r, what.c_str()); CHECK(sl == P.sig, "failed sign changes the signature length"); H.count("sign_refused"); }
          st(s, t, r, 100 + pi); }); }); }
    auto direct = [&](const char* name, int (*f)(uint8_t*, size_t), bool canFail, int mode) { for (size_t len = 0; len <= (H.thorough ? 300u : 72u); len++) { if (!H.thorough && len > 20 && len % 8 > 1) continue;
      for (Ans t : {src::FULL, src::IO}) { if (!canFail && t != src::FULL) continue; H.run(fmt("%s %zu bytes, %s, mode %d", name, len, src::nm[t], mode), [&] {
        Bytes stream = msg(8192, len); seqs(canFail ? (H.thorough ? 5 : 4) : 0, [&](const std::vector<Ans>& s) { src::reset(s, t, stream);
#ifdef VARIANTS
          src::openFails = mode == 1; ioctlFails = mode == 2;
#endif
          Bytes d(len + 32, 0xC3); int r = f(&d[16], len); src::on = false; Bytes D = src::delivered(); std::string what = str(s, t); for (int i = 0; i < 16; i++) CHECK(d[i] == 0xC3 && d[len + 16 + i] == 0xC3, "%s writes outside its buffer (%s)", name, what.c_str());
          if (r == 0) { CHECK(D.size() >= len, "%s reports success for %zu bytes with only %zu delivered (%s)", name, len, D.size(), what.c_str()); CHECK(!memcmp(&d[16], D.data(), len), "%s: output is not what the source delivered (%s)", name, what.c_str()); } else CHECK(src::fault, "%s fails (%d) although the source answered completely (%s)", name, r, what.c_str());
          CHECK(src::fds == 0, "%s leaves %d descriptors open (%s)", name, src::fds, what.c_str()); st(s, t, r, 200 + len * 8 + mode); }); }); } } };
    if (part == "api") direct("rand_bytes", rand_bytes, true, 0);
#ifdef VARIANTS
    for (int m = 0; m < 3; m++) direct("rand_bytes (/dev/urandom)", rand_bytes_urandom, true, m); direct("rand_bytes (arc4random)", rand_bytes_arc4, false, 0); direct("rand_bytes (randombytes)", rand_bytes_hook, false, 0);
#endif
  });
}
