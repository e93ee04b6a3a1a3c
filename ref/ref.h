// Independent reference implementation of everything qrllib promises, written from the
// published construction (FIPS 180-4, FIPS 202, XMSS draft as used by QRL, QRL address and
// mnemonic formats). It shares no code with /repo.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> bytes;
typedef std::array<uint8_t, 32> n32;

bytes sha256(const uint8_t *in, size_t len);
inline bytes sha256(const bytes &b) { return sha256(b.data(), b.size()); }
bytes shake(unsigned rate, const uint8_t *in, size_t len, size_t outlen);
inline bytes shake128(const bytes &b, size_t outlen) { return shake(168, b.data(), b.size(), outlen); }
inline bytes shake256(const bytes &b, size_t outlen) { return shake(136, b.data(), b.size(), outlen); }

enum { SHA2_256 = 0, SHAKE_128 = 1, SHAKE_256 = 2 };

struct Wots { int w = 0, logw = 0, len1 = 0, len2 = 0, len = 0; };
bool wots_params(uint32_t w, Wots &out);             // false: not a supported W
uint64_t sig_base_size(uint32_t w);                  // 0 if unsupported
std::vector<int> wots_digits(const Wots &p, const uint8_t digest[32]);

struct Addr { uint32_t a[8] = {0, 0, 0, 0, 0, 0, 0, 0}; };
n32 thash(int hf, int type, const uint8_t *key, size_t keylen, const uint8_t *in, size_t inlen);
n32 prf(int hf, const uint8_t key[32], const uint8_t in[32]);
// one chain step sequence: value at position `from` advanced to position `to`
n32 chain(int hf, const n32 &x, int from, int to, const n32 &pub_seed, uint32_t ots, uint32_t chain_no);

struct Key {
    int hf = 0, h = 0;
    Wots w;
    n32 sk_seed{}, sk_prf{}, pub_seed{}, root{};
    std::vector<std::vector<n32>> level;             // level[0] = leaves (empty if not built)
    bytes secret(uint32_t idx) const;                // idx|sk_seed|sk_prf|pub_seed|root
    bytes epk(int addrfmt = 0) const;
};
Key make_key(const bytes &seed48, int hf, int h, uint32_t w, bool build = true);
// A key whose tree is not built: leaf idx is genuine, the siblings are `auth`, the root follows.
Key fabricate(int hf, int h, uint32_t w, const n32 &sk_seed, const n32 &sk_prf, const n32 &pub_seed,
              uint32_t idx, const std::vector<n32> &auth);
n32 ots_seed(const Key &k, uint32_t idx);
n32 chain_start(const Key &k, uint32_t idx, int chain_no);
n32 leaf(const Key &k, uint32_t idx);
n32 node(const Key &k, int height, uint32_t i, const n32 &l, const n32 &r);
std::vector<n32> auth_path(const Key &k, uint32_t idx);
n32 sig_random(const Key &k, uint32_t idx);
n32 digest(int hf, const uint8_t R[32], const n32 &root, uint32_t idx, const bytes &msg);
bytes sign(const Key &k, uint32_t idx, const bytes &msg);
bytes sign_with(const Key &k, uint32_t idx, const bytes &msg, const std::vector<n32> &auth);
// the root a signature leads to
n32 root_from_sig(int hf, int h, const Wots &w, const n32 &root_in_key, const n32 &pub_seed,
                  const bytes &msg, const bytes &sig);
bool verify(const bytes &msg, const bytes &sig, const bytes &epk, uint32_t w);

bytes descriptor(int hf, int sigtype, int h, int addrfmt);
bool descriptor_ok(const bytes &d);                  // size 3 and only known nibbles
bytes address(const bytes &epk);                     // epk must be well formed
bool address_valid(const bytes &a);
std::string hex(const bytes &b);
bytes unhex(const std::string &s);                   // test helper; input must be valid
const std::vector<std::string> &words();             // filled by set_words (harness loads a committed list)
void set_words(const std::vector<std::string> &w);
std::string mnemonic(const bytes &b);
}  // namespace ref
#endif
