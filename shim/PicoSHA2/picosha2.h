// Stand-in for the PicoSHA2 submodule, which is empty in this sandbox: same
// interface (namespace picosha2, hash256 over iterator ranges), own code.
// Like the original it consumes all input before it writes any output.
#ifndef VERIF_SHIM_PICOSHA2_H
#define VERIF_SHIM_PICOSHA2_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
namespace picosha2 {
typedef unsigned char byte_t;
static const size_t k_digest_size = 32;
namespace detail {
inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline const uint32_t *ktab() {
    static const uint32_t k[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
        0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
        0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
        0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
        0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    return k;
}
inline void block(uint32_t h[8], const uint8_t *p) {
    const uint32_t *k = ktab();
    uint32_t w[64];
    for (int i = 0; i < 16; i++)
        w[i] = (uint32_t(p[4*i]) << 24) | (uint32_t(p[4*i+1]) << 16) | (uint32_t(p[4*i+2]) << 8) | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t s0 = ror(w[i-15],7) ^ ror(w[i-15],18) ^ (w[i-15] >> 3);
        uint32_t s1 = ror(w[i-2],17) ^ ror(w[i-2],19) ^ (w[i-2] >> 10);
        w[i] = w[i-16] + s0 + w[i-7] + s1;
    }
    uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],x=h[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = x + (ror(e,6)^ror(e,11)^ror(e,25)) + ((e&f)^(~e&g)) + k[i] + w[i];
        uint32_t t2 = (ror(a,2)^ror(a,13)^ror(a,22)) + ((a&b)^(a&c)^(b&c));
        x=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=x;
}
}  // namespace detail
template <typename InIter, typename OutIter>
void hash256(InIter first, InIter last, OutIter first2, OutIter last2, int = 1000000) {
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    uint8_t buf[64];
    uint64_t total = 0;
    int fill = 0;
    for (; first != last; ++first) {
        buf[fill++] = static_cast<uint8_t>(*first);
        total++;
        if (fill == 64) { detail::block(h, buf); fill = 0; }
    }
    buf[fill++] = 0x80;
    if (fill > 56) { while (fill < 64) buf[fill++] = 0; detail::block(h, buf); fill = 0; }
    while (fill < 56) buf[fill++] = 0;
    uint64_t bits = total * 8;
    for (int i = 0; i < 8; i++) buf[56 + i] = static_cast<uint8_t>(bits >> (56 - 8 * i));
    detail::block(h, buf);
    for (int i = 0; i < 32 && first2 != last2; i++, ++first2)
        *first2 = static_cast<uint8_t>(h[i / 4] >> (24 - 8 * (i % 4)));
}
template <typename InContainer, typename OutContainer>
void hash256(const InContainer &src, OutContainer &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
}  // namespace picosha2
#endif
