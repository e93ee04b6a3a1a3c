#include "ref.h"
#include <cstring>
#include <stdexcept>
namespace ref {
// ---------------------------------------------------------------- SHA-256
static uint32_t K256[64];
static uint32_t H256[8];
static bool k256_init() {
    // first 32 bits of the fractional parts of cube / square roots of the first primes
    int p = 2, c = 0;
    auto frac = [](int prime, int root) {
        // integer Newton in 128-bit arithmetic: floor(prime^(1/root) * 2^32) mod 2^32
        unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 40;
        while (lo + 1 < hi) {
            unsigned __int128 mid = (lo + hi) / 2;
            bool le;
            if (root == 2) {
                le = mid * mid <= ((unsigned __int128)prime << 64);
            } else {
                // mid^3 <= prime * 2^96 ; mid < 2^40 so mid^3 < 2^120
                le = mid * mid * mid <= ((unsigned __int128)prime << 96);
            }
            if (le) lo = mid; else hi = mid;
        }
        return (uint32_t)lo;
    };
    while (c < 64) {
        bool prime = true;
        for (int d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
        if (prime) { if (c < 8) H256[c] = frac(p, 2); K256[c++] = frac(p, 3); }
        p++;
    }
    return true;
}
static const bool k256_ready = k256_init();
bytes sha256(const uint8_t *in, size_t len) {
    (void)k256_ready;
    uint32_t h[8];
    memcpy(h, H256, sizeof h);
    auto r = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    auto comp = [&](const uint8_t *b) {
        uint32_t w[64], v[8];
        for (int t = 0; t < 16; t++)
            w[t] = ((uint32_t)b[4*t] << 24) | ((uint32_t)b[4*t+1] << 16) | ((uint32_t)b[4*t+2] << 8) | b[4*t+3];
        for (int t = 16; t < 64; t++)
            w[t] = (r(w[t-2],17) ^ r(w[t-2],19) ^ (w[t-2] >> 10)) + w[t-7] +
                   (r(w[t-15],7) ^ r(w[t-15],18) ^ (w[t-15] >> 3)) + w[t-16];
        memcpy(v, h, sizeof v);
#define RND(A,B,C,D,E,F,G,H,t) { \
            uint32_t t1 = H + (r(E,6) ^ r(E,11) ^ r(E,25)) + (G ^ (E & (F ^ G))) + K256[t] + w[t]; \
            D += t1; \
            H = t1 + (r(A,2) ^ r(A,13) ^ r(A,22)) + ((A & B) | (C & (A | B))); }
        for (int t = 0; t < 64; t += 8) {
            RND(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],t)
            RND(v[7],v[0],v[1],v[2],v[3],v[4],v[5],v[6],t+1)
            RND(v[6],v[7],v[0],v[1],v[2],v[3],v[4],v[5],t+2)
            RND(v[5],v[6],v[7],v[0],v[1],v[2],v[3],v[4],t+3)
            RND(v[4],v[5],v[6],v[7],v[0],v[1],v[2],v[3],t+4)
            RND(v[3],v[4],v[5],v[6],v[7],v[0],v[1],v[2],t+5)
            RND(v[2],v[3],v[4],v[5],v[6],v[7],v[0],v[1],t+6)
            RND(v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[0],t+7)
        }
#undef RND
        for (int i = 0; i < 8; i++) h[i] += v[i];
    };
    size_t off = 0;
    for (; off + 64 <= len; off += 64) comp(in + off);
    uint8_t tail[128];
    size_t rem = len - off;
    memset(tail, 0, sizeof tail);
    if (rem) memcpy(tail, in + off, rem);
    tail[rem] = 0x80;
    size_t tl = rem < 56 ? 64 : 128;
    uint64_t bits = (uint64_t)len * 8;
    for (int i = 0; i < 8; i++) tail[tl - 1 - i] = (uint8_t)(bits >> (8 * i));
    comp(tail);
    if (tl == 128) comp(tail + 64);
    bytes out(32);
    for (int i = 0; i < 32; i++) out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
    return out;
}
// ---------------------------------------------------------------- Keccak
static uint64_t RC[24];
static bool rc_init() {
    uint8_t lfsr = 1;
    for (int i = 0; i < 24; i++) {
        uint64_t c = 0;
        for (int j = 0; j < 7; j++) {
            if (lfsr & 1) c |= 1ULL << ((1 << j) - 1);
            lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
        }
        RC[i] = c;
    }
    return true;
}
static const bool rc_ready = rc_init();
static inline uint64_t rl(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccak_f(uint64_t s[25]) {
    (void)rc_ready;
    // rho offsets and pi destinations generated by the (x,y) -> (y,2x+3y) walk
    static const int rot[24] = {1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44};
    static const int piln[24] = {10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
    for (int rnd = 0; rnd < 24; rnd++) {
        uint64_t c[5], d;
#pragma GCC unroll 5
        for (int i = 0; i < 5; i++) c[i] = s[i] ^ s[i+5] ^ s[i+10] ^ s[i+15] ^ s[i+20];
#pragma GCC unroll 5
        for (int i = 0; i < 5; i++) {
            d = c[(i + 4) % 5] ^ rl(c[(i + 1) % 5], 1);
            s[i] ^= d; s[i+5] ^= d; s[i+10] ^= d; s[i+15] ^= d; s[i+20] ^= d;
        }
        uint64_t t = s[1];
#pragma GCC unroll 24
        for (int i = 0; i < 24; i++) { int j = piln[i]; uint64_t b = s[j]; s[j] = rl(t, rot[i]); t = b; }
#pragma GCC unroll 5
        for (int j = 0; j < 25; j += 5) {
            uint64_t a0 = s[j], a1 = s[j+1], a2 = s[j+2], a3 = s[j+3], a4 = s[j+4];
            s[j] = a0 ^ (~a1 & a2); s[j+1] = a1 ^ (~a2 & a3); s[j+2] = a2 ^ (~a3 & a4);
            s[j+3] = a3 ^ (~a4 & a0); s[j+4] = a4 ^ (~a0 & a1);
        }
        s[0] ^= RC[rnd];
    }
}
static void shake_into(unsigned rate, const uint8_t *in, size_t len, uint8_t *out, size_t outlen) {
    uint64_t s[25];
    memset(s, 0, sizeof s);
    uint8_t *b = (uint8_t *)s;  // little-endian host
    size_t pos = 0;
    while (len - pos >= rate) {
        for (unsigned i = 0; i < rate / 8; i++) { uint64_t v; memcpy(&v, in + pos + 8 * i, 8); s[i] ^= v; }
        keccak_f(s);
        pos += rate;
    }
    for (size_t i = pos; i < len; i++) b[i - pos] ^= in[i];
    b[len - pos] ^= 0x1F;
    b[rate - 1] ^= 0x80;
    size_t o = 0;
    do {
        keccak_f(s);
        size_t take = outlen - o < rate ? outlen - o : rate;
        if (take) memcpy(out + o, b, take);
        o += take;
    } while (o < outlen);
}
bytes shake(unsigned rate, const uint8_t *in, size_t len, size_t outlen) {
    bytes out(outlen);
    shake_into(rate, in, len, out.data(), outlen);
    return out;
}
// ---------------------------------------------------------------- WOTS+ parameters
bool wots_params(uint32_t w, Wots &o) {
    int lw;
    switch (w) { case 2: lw = 1; break; case 4: lw = 2; break; case 16: lw = 4; break; case 256: lw = 8; break; default: return false; }
    o.w = (int)w; o.logw = lw; o.len1 = 256 / lw;
    // number of base-w digits of the largest checksum len1*(w-1)
    int v = o.len1 * (o.w - 1), c = 0;
    while (v) { v >>= lw; c++; }
    o.len2 = c; o.len = o.len1 + o.len2;
    return true;
}
uint64_t sig_base_size(uint32_t w) { Wots p; return wots_params(w, p) ? 36 + 32ull * p.len : 0; }
std::vector<int> wots_digits(const Wots &p, const uint8_t d[32]) {
    std::vector<int> r;
    int sum = 0;
    for (int i = 0; i < p.len1; i++) {
        int bit = i * p.logw;
        int v = (d[bit / 8] >> (8 - p.logw - bit % 8)) & (p.w - 1);
        r.push_back(v);
        sum += p.w - 1 - v;
    }
    // checksum digits, most significant first
    for (int i = p.len2 - 1; i >= 0; i--) r.push_back((sum >> (i * p.logw)) & (p.w - 1));
    return r;
}
// ---------------------------------------------------------------- tweakable hashes
n32 thash(int hf, int type, const uint8_t *key, size_t keylen, const uint8_t *in, size_t inlen) {
    uint8_t small[256];
    bytes big;
    size_t total = 32 + keylen + inlen;
    uint8_t *p = small;
    if (total > sizeof small) { big.resize(total); p = big.data(); }
    memset(p, 0, 32);
    p[31] = (uint8_t)type;
    memcpy(p + 32, key, keylen);
    if (inlen) memcpy(p + 32 + keylen, in, inlen);
    n32 out;
    if (hf == SHA2_256) { bytes b = sha256(p, total); memcpy(out.data(), b.data(), 32); }
    else shake_into(hf == SHAKE_128 ? 168 : 136, p, total, out.data(), 32);
    return out;
}
n32 prf(int hf, const uint8_t key[32], const uint8_t in[32]) { return thash(hf, 3, key, 32, in, 32); }
static n32 prf_addr(int hf, const n32 &seed, const Addr &a) {
    uint8_t b[32];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) b[4 * i + j] = (uint8_t)(a.a[i] >> (24 - 8 * j));
    return prf(hf, seed.data(), b);
}
static n32 F(int hf, const n32 &x, const n32 &pub, Addr a) {
    a.a[7] = 0; n32 key = prf_addr(hf, pub, a);
    a.a[7] = 1; n32 bm = prf_addr(hf, pub, a);
    for (int i = 0; i < 32; i++) bm[i] ^= x[i];
    return thash(hf, 0, key.data(), 32, bm.data(), 32);
}
static n32 H(int hf, const n32 &l, const n32 &r, const n32 &pub, Addr a) {
    uint8_t buf[64];
    a.a[7] = 0; n32 key = prf_addr(hf, pub, a);
    a.a[7] = 1; n32 b0 = prf_addr(hf, pub, a);
    a.a[7] = 2; n32 b1 = prf_addr(hf, pub, a);
    for (int i = 0; i < 32; i++) { buf[i] = b0[i] ^ l[i]; buf[32 + i] = b1[i] ^ r[i]; }
    return thash(hf, 1, key.data(), 32, buf, 64);
}
n32 chain(int hf, const n32 &x, int from, int to, const n32 &pub, uint32_t ots, uint32_t cn) {
    Addr a;
    a.a[3] = 0; a.a[4] = ots; a.a[5] = cn;
    n32 v = x;
    for (int i = from; i < to; i++) { a.a[6] = (uint32_t)i; v = F(hf, v, pub, a); }
    return v;
}
n32 node(const Key &k, int height, uint32_t i, const n32 &l, const n32 &r) {
    // node `i` at `height` (height >= 1) made of two nodes at height-1
    Addr a;
    a.a[3] = 2; a.a[5] = (uint32_t)(height - 1); a.a[6] = i;
    return H(k.hf, l, r, k.pub_seed, a);
}
n32 ots_seed(const Key &k, uint32_t idx) {
    Addr a;
    a.a[4] = idx;
    return prf_addr(k.hf, k.sk_seed, a);
}
static void u256(uint64_t v, uint8_t b[32]) { memset(b, 0, 32); for (int i = 0; i < 8; i++) b[31 - i] = (uint8_t)(v >> (8 * i)); }
static n32 start_from(int hf, const n32 &os, int cn) { uint8_t b[32]; u256((uint64_t)cn, b); return prf(hf, os.data(), b); }
n32 chain_start(const Key &k, uint32_t idx, int cn) { return start_from(k.hf, ots_seed(k, idx), cn); }
static n32 ltree(int hf, std::vector<n32> v, const n32 &pub, uint32_t idx) {
    Addr a;
    a.a[3] = 1; a.a[4] = idx;
    for (uint32_t ht = 0; v.size() > 1; ht++) {
        a.a[5] = ht;
        std::vector<n32> nx;
        for (size_t i = 0; i + 1 < v.size(); i += 2) { a.a[6] = (uint32_t)(i / 2); nx.push_back(H(hf, v[i], v[i + 1], pub, a)); }
        if (v.size() & 1) nx.push_back(v.back());
        v.swap(nx);
    }
    return v[0];
}
n32 leaf(const Key &k, uint32_t idx) {
    n32 os = ots_seed(k, idx);
    std::vector<n32> pk(k.w.len);
    for (int i = 0; i < k.w.len; i++) pk[i] = chain(k.hf, start_from(k.hf, os, i), 0, k.w.w - 1, k.pub_seed, idx, (uint32_t)i);
    return ltree(k.hf, pk, k.pub_seed, idx);
}
Key make_key(const bytes &seed, int hf, int h, uint32_t w, bool build) {
    Key k;
    k.hf = hf; k.h = h;
    if (!wots_params(w, k.w)) throw std::logic_error("ref: W");
    bytes e = shake256(seed, 96);
    memcpy(k.sk_seed.data(), &e[0], 32);
    memcpy(k.sk_prf.data(), &e[32], 32);
    memcpy(k.pub_seed.data(), &e[64], 32);
    if (!build) return k;
    k.level.resize(h + 1);
    k.level[0].resize(1u << h);
    for (uint32_t i = 0; i < (1u << h); i++) k.level[0][i] = leaf(k, i);
    for (int l = 1; l <= h; l++) {
        k.level[l].resize(1u << (h - l));
        for (uint32_t i = 0; i < (1u << (h - l)); i++) k.level[l][i] = node(k, l, i, k.level[l-1][2*i], k.level[l-1][2*i+1]);
    }
    k.root = k.level[h][0];
    return k;
}
Key fabricate(int hf, int h, uint32_t w, const n32 &ss, const n32 &sp, const n32 &ps, uint32_t idx, const std::vector<n32> &auth) {
    Key k;
    k.hf = hf; k.h = h;
    if (!wots_params(w, k.w)) throw std::logic_error("ref: W");
    k.sk_seed = ss; k.sk_prf = sp; k.pub_seed = ps;
    n32 v = leaf(k, idx);
    for (int l = 0; l < h; l++) {
        uint32_t pos = idx >> l;
        v = (pos & 1) ? node(k, l + 1, idx >> (l + 1), auth[l], v) : node(k, l + 1, idx >> (l + 1), v, auth[l]);
    }
    k.root = v;
    return k;
}
bytes Key::secret(uint32_t idx) const {
    bytes b{(uint8_t)(idx >> 24), (uint8_t)(idx >> 16), (uint8_t)(idx >> 8), (uint8_t)idx};
    b.insert(b.end(), sk_seed.begin(), sk_seed.end());
    b.insert(b.end(), sk_prf.begin(), sk_prf.end());
    b.insert(b.end(), pub_seed.begin(), pub_seed.end());
    b.insert(b.end(), root.begin(), root.end());
    return b;
}
bytes Key::epk(int af) const {
    bytes b = descriptor(hf, 0, h, af);
    b.insert(b.end(), root.begin(), root.end());
    b.insert(b.end(), pub_seed.begin(), pub_seed.end());
    return b;
}
std::vector<n32> auth_path(const Key &k, uint32_t idx) {
    std::vector<n32> a;
    for (int l = 0; l < k.h; l++) a.push_back(k.level[l][(idx >> l) ^ 1]);
    return a;
}
n32 sig_random(const Key &k, uint32_t idx) { uint8_t b[32]; u256(idx, b); return prf(k.hf, k.sk_prf.data(), b); }
n32 digest(int hf, const uint8_t R[32], const n32 &root, uint32_t idx, const bytes &msg) {
    uint8_t key[96];
    memcpy(key, R, 32);
    memcpy(key + 32, root.data(), 32);
    u256(idx, key + 64);
    return thash(hf, 2, key, 96, msg.data(), msg.size());
}
bytes sign_with(const Key &k, uint32_t idx, const bytes &msg, const std::vector<n32> &auth) {
    bytes s{(uint8_t)(idx >> 24), (uint8_t)(idx >> 16), (uint8_t)(idx >> 8), (uint8_t)idx};
    n32 R = sig_random(k, idx);
    n32 d = digest(k.hf, R.data(), k.root, idx, msg);
    s.insert(s.end(), R.begin(), R.end());
    std::vector<int> pos = wots_digits(k.w, d.data());
    n32 os = ots_seed(k, idx);
    for (int i = 0; i < k.w.len; i++) {
        n32 v = chain(k.hf, start_from(k.hf, os, i), 0, pos[i], k.pub_seed, idx, (uint32_t)i);
        s.insert(s.end(), v.begin(), v.end());
    }
    for (auto &a : auth) s.insert(s.end(), a.begin(), a.end());
    return s;
}
bytes sign(const Key &k, uint32_t idx, const bytes &msg) { return sign_with(k, idx, msg, auth_path(k, idx)); }
n32 root_from_sig(int hf, int h, const Wots &w, const n32 &root, const n32 &pub, const bytes &msg, const bytes &sig) {
    uint32_t idx = ((uint32_t)sig[0] << 24) | ((uint32_t)sig[1] << 16) | ((uint32_t)sig[2] << 8) | sig[3];
    n32 d = digest(hf, &sig[4], root, idx, msg);
    std::vector<int> pos = wots_digits(w, d.data());
    std::vector<n32> pk(w.len);
    size_t off = 36;
    for (int i = 0; i < w.len; i++, off += 32) {
        n32 v;
        memcpy(v.data(), &sig[off], 32);
        pk[i] = chain(hf, v, pos[i], w.w - 1, pub, idx, (uint32_t)i);
    }
    n32 v = ltree(hf, pk, pub, idx);
    Key k;
    k.hf = hf; k.pub_seed = pub;
    for (int l = 0; l < h; l++, off += 32) {
        n32 a;
        memcpy(a.data(), &sig[off], 32);
        uint32_t par = l + 1 < 32 ? idx >> (l + 1) : 0;
        v = ((idx >> l) & 1) ? node(k, l + 1, par, a, v) : node(k, l + 1, par, v, a);
    }
    return v;
}
bool verify(const bytes &msg, const bytes &sig, const bytes &epk, uint32_t w) {
    Wots p;
    if (!wots_params(w, p)) return false;
    if (epk.size() != 67 || !descriptor_ok(bytes(epk.begin(), epk.begin() + 3))) return false;
    int h = 2 * (epk[1] & 15);
    if (h < 4) return false;
    if (sig.size() != sig_base_size(w) + 32ull * h) return false;
    n32 root, pub;
    memcpy(root.data(), &epk[3], 32);
    memcpy(pub.data(), &epk[35], 32);
    return root_from_sig(epk[0] & 15, h, p, root, pub, msg, sig) == root;
}
// ---------------------------------------------------------------- formats
bytes descriptor(int hf, int st, int h, int af) { return {(uint8_t)(st << 4 | hf), (uint8_t)(af << 4 | h / 2), 0}; }
bool descriptor_ok(const bytes &d) { return d.size() == 3 && (d[0] & 15) <= 2 && (d[0] >> 4) == 0 && (d[1] >> 4) == 0; }
bytes address(const bytes &epk) {
    bytes a{epk[0], epk[1], 0};
    bytes h = sha256(epk);
    a.insert(a.end(), h.begin(), h.end());
    bytes c = sha256(a);
    a.insert(a.end(), c.begin() + 28, c.end());
    return a;
}
bool address_valid(const bytes &a) {
    if (a.size() != 39 || !descriptor_ok(bytes(a.begin(), a.begin() + 3))) return false;
    bytes c = sha256(a.data(), 35);
    return memcmp(&c[28], &a[35], 4) == 0;
}
std::string hex(const bytes &b) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; }
    return s;
}
bytes unhex(const std::string &s) {
    bytes b;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(v(s[i]) << 4 | v(s[i + 1])));
    return b;
}
static std::vector<std::string> WORDS;
const std::vector<std::string> &words() { return WORDS; }
void set_words(const std::vector<std::string> &w) { WORDS = w; }
std::string mnemonic(const bytes &b) {
    std::string s;
    for (size_t i = 0; i + 2 < b.size(); i += 3) {
        int v = b[i] << 16 | b[i + 1] << 8 | b[i + 2];
        if (i) s += ' ';
        s += WORDS[v >> 12];
        s += ' ';
        s += WORDS[v & 4095];
    }
    return s;
}
}  // namespace ref
