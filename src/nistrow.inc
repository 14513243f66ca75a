extern "C" {
#include NH
}
static const NistRow CAT(nrow_, NN) = {CRYPTO_SECRETKEYBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef NH
#undef NN
