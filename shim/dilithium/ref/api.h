// Stand-in for the empty deps/dilithium submodule: the constants of the parameter set the
// repository uses and recording implementations (harness/c21.cpp) that touch exactly the
// documented number of bytes.
#ifndef VERIF_SHIM_DIL_API_H
#define VERIF_SHIM_DIL_API_H
#define CRYPTO_PUBLICKEYBYTES 1472U
#define CRYPTO_SECRETKEYBYTES 3504U
#define CRYPTO_BYTES 2701U
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m,
                unsigned long long mlen, const unsigned char *sk);
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm,
                     unsigned long long smlen, const unsigned char *pk);
#endif
