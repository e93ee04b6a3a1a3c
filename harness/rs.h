// The Rust port, behind the C interface of /verif/rust.
#ifndef VERIF_RS_H
#define VERIF_RS_H
#include "common.h"
extern "C" {
struct RsOut { uint8_t *p; size_t n; int rc; };
struct RsKey; struct RsPoolT;
void rs_init();
void rs_free(RsOut);
RsKey *rs_key(int fast, const uint8_t *seed, size_t n, uint8_t height, uint32_t hf, uint32_t w, RsOut *why);
RsKey *rs_key_ext(const uint8_t *p, size_t n, RsOut *why);
void rs_key_free(RsKey *);
RsOut rs_sign(RsKey *, const uint8_t *, size_t);
RsOut rs_set_index(RsKey *, uint32_t);
RsOut rs_get(RsKey *, int);
RsOut rs_signature_size(RsKey *, uint32_t);
RsOut rs_verify(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint32_t);
RsOut rs_height_from_size(size_t, uint32_t);
RsOut rs_base_size(uint32_t);
RsOut rs_hash(int, const uint8_t *, size_t, size_t);
RsOut rs_descr(int, const uint8_t *, size_t);
RsOut rs_descr_new(uint32_t, uint8_t);
RsOut rs_address(const uint8_t *, size_t);
RsOut rs_address_valid(const uint8_t *, size_t);
RsOut rs_text(int, const uint8_t *, size_t, uint32_t);
RsOut rs_chain(const uint8_t *, size_t, uint32_t, uint32_t);
RsOut rs_random(uint32_t, const uint8_t *, size_t);
RsOut rs_word(size_t);
size_t rs_words();
RsPoolT *rs_pool(const uint8_t *, size_t, uint8_t, size_t, size_t, RsOut *);
RsKey *rs_pool_next(RsPoolT *, RsOut *);
RsOut rs_pool_available(RsPoolT *);
uint64_t rs_pool_index(RsPoolT *);
void rs_pool_free(RsPoolT *);
RsOut rs_dil(int, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
size_t rs_pq_size(int);
RsKey *rs_plant(const uint8_t *, size_t, uint8_t, uint32_t, uint32_t, const uint8_t *, size_t);
RsOut rs_wots(int, uint32_t, uint32_t, const uint8_t *, const uint8_t *, const uint8_t *, uint32_t, const uint8_t *, size_t);
RsOut rs_base_moves(uint32_t, uint8_t, const uint8_t *, size_t, const uint32_t *, size_t);
RsOut rs_kyb(int, const uint8_t *, size_t, const uint8_t *, size_t);
}
namespace rs {
using vf::bytes;
struct R {  // value, refused (ok false), or panicked (reported as a violation where it happens)
    bool ok = false;
    bytes v;
    std::string s() const { return std::string(v.begin(), v.end()); }
    uint32_t u32() const { uint32_t x = 0; memcpy(&x, v.data(), std::min<size_t>(4, v.size())); return x; }
};
inline R take(RsOut o, const std::string &what) {
    R r;
    r.ok = o.rc == 0;
    r.v.assign(o.p, o.p + o.n);
    if (o.rc == 2) {
        std::string m = r.s(), at = m.substr(m.rfind(" at ") == std::string::npos ? 0 : m.rfind(" at ") + 4);
        std::string file = at.substr(at.rfind('/') == std::string::npos ? 0 : at.rfind('/') + 1);
        vf::violation("rust-panic:" + file.substr(0, file.find(':')), what + ": " + m);
    }
    rs_free(o);
    return r;
}
struct Key {
    RsKey *k = nullptr;
    bool made = false;
    Key(bool fast, const bytes &seed, uint8_t h, int hf, uint32_t w) { RsOut why; k = rs_key(fast, seed.data(), seed.size(), h, hf, w, &why); made = take(why, vf::cat("Rust key h=", (int) h, " w=", w, " seed bytes=", seed.size())).ok; }
    explicit Key(const bytes &ext) { RsOut why; k = rs_key_ext(ext.data(), ext.size(), &why); made = take(why, "Rust key from extended seed " + vf::hexs(ext)).ok; }
    explicit Key(RsKey *p) : k(p), made(p) {}
    Key(const Key &) = delete;
    ~Key() { rs_key_free(k); }
    bytes get(int w) { return take(rs_get(k, w), vf::cat("Rust accessor ", w)).v; }
    uint32_t index() { return take(rs_get(k, 10), "Rust get_index").u32(); }
    R sign(const bytes &m) { return take(rs_sign(k, m.data(), m.size()), "Rust sign"); }
    R set_index(uint32_t i) { return take(rs_set_index(k, i), vf::cat("Rust set_index ", i)); }
};
inline bool verify(const bytes &m, const bytes &s, const bytes &p, uint32_t w) {
    R r = take(rs_verify(m.data(), m.size(), s.data(), s.size(), p.data(), p.size(), w), "Rust verify");
    if (r.ok && bytes(r.v.begin() + 1, r.v.end()) != m) vf::violation("rust-verify-altered-message", vf::hexs(m));
    return r.ok && r.v[0] == 1;
}
inline R hash(int kind, const bytes &b, size_t out) { return take(rs_hash(kind, b.data(), b.size(), out), vf::cat("Rust hash ", kind, " of ", b.size(), " bytes to ", out)); }
inline R text(int kind, const bytes &b, uint32_t wrap = 0) { return take(rs_text(kind, b.data(), b.size(), wrap), vf::cat("Rust text ", kind, " ", vf::hexs(b))); }
inline R text(int kind, const std::string &b, uint32_t wrap = 0) { return text(kind, bytes(b.begin(), b.end()), wrap); }
}  // namespace rs
#endif
