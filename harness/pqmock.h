// Stand-in Dilithium and Kyber primitives (the submodules are absent offline): they touch every byte the real
// ones may touch, record exactly what they were given and can be told to fail.
#ifndef VERIF_PQMOCK_H
#define VERIF_PQMOCK_H
#include "qrl.h"
#include "dilithium/dilithium.h"
#include "kyber/kyber.h"
using namespace vq;

namespace {
const size_t DPK = 1472, DSK = 3504, DSIG = 2701, KPK = 1088, KSK = 2400, KCT = 1152, KSS = 32;
struct Call { std::string name; bytes a, b; const void *out; unsigned long long n; };
std::vector<Call> calls;
int fail = 0;            // the next primitive call fails with this value
uint64_t fresh = 1;
volatile uint8_t sink;
bytes touch(const unsigned char *p, size_t n) {   // reads all of it, byte by byte, where ASan can see
    bytes b(n);
    for (size_t i = 0; i < n; i++) { b[i] = p[i]; sink = p[i]; }
    return b;
}
void fill(unsigned char *p, const bytes &b) { for (size_t i = 0; i < b.size(); i++) p[i] = b[i]; }
bytes stream(const bytes &in, size_t n) { return ref::shake128(in, n); }
bytes cat2(bytes a, const bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
int outcome_code() { int f = fail; fail = 0; return f; }
bytes tag(const bytes &pk, const bytes &m) { return stream(cat2(pk, m), DSIG); }
}  // namespace

// the primitives, with the exact footprint of the reference implementations
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    bytes s = stream({'d', (uint8_t) fresh, (uint8_t) (fresh >> 8), (uint8_t) (fresh >> 16)}, DSK);
    fresh++;
    fill(sk, s);
    fill(pk, bytes(s.begin(), s.begin() + DPK));
    calls.push_back({"sign_keypair", {}, {}, pk, 0});
    return outcome_code();
}
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk) {
    bytes mm = touch(m, mlen), k = touch(sk, DSK);
    for (size_t i = 0; i < DSIG + mlen; i++) sm[i] = 0xee;
    calls.push_back({"sign", mm, k, sm, mlen});
    fill(sm, cat2(tag(bytes(k.begin(), k.begin() + DPK), mm), mm));
    *smlen = DSIG + mlen;
    return outcome_code();
}
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk) {
    bytes s = touch(sm, smlen), k = touch(pk, DPK);
    calls.push_back({"sign_open", s, k, m, smlen});
    int f = outcome_code();
    bool good = smlen >= DSIG && !f;
    bytes mm;
    if (good) {
        mm.assign(s.begin() + DSIG, s.end());
        good = tag(k, mm) == bytes(s.begin(), s.begin() + DSIG);
    }
    for (size_t i = 0; i < smlen; i++) m[i] = good ? 0xcd : 0;   // the reference works in and clears all of it
    *mlen = (unsigned long long) -1;
    if (!good) return f ? f : -1;
    fill(m, mm);
    *mlen = mm.size();
    return 0;
}
namespace {
bytes derive(const bytes &pk, const bytes &ct) { return stream(cat2(pk, ct), KSS); }
}
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
    bytes s = stream({'k', (uint8_t) fresh, (uint8_t) (fresh >> 8), (uint8_t) (fresh >> 16)}, KSK);
    fresh++;
    fill(sk, s);
    fill(pk, bytes(s.begin(), s.begin() + KPK));
    calls.push_back({"kem_keypair", {}, {}, pk, 0});
    return outcome_code();
}
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) {
    bytes k = touch(pk, KPK), c = stream({'c', (uint8_t) fresh, (uint8_t) (fresh >> 8), (uint8_t) (fresh >> 16)}, KCT);
    fresh++;
    fill(ct, c);
    fill(ss, derive(k, c));
    calls.push_back({"kem_enc", k, c, ct, 0});
    return outcome_code();
}
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) {
    bytes c = touch(ct, KCT), k = touch(sk, KSK);
    fill(ss, derive(bytes(k.begin(), k.begin() + KPK), c));
    calls.push_back({"kem_dec", c, k, ss, 0});
    return outcome_code();
}
void randombytes(unsigned char *x, unsigned long long n) { for (unsigned long long i = 0; i < n; i++) x[i] = (uint8_t) (fresh++); }

#endif
