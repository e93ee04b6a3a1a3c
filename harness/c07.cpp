// C07: which chain positions a signature reveals, judged against chains walked from the secret
// starts, and attempts to turn a signature into one for another message by hashing forward.
#include <unordered_map>
#include "qrl.h"
#include "rs.h"
#ifdef VERIF_INTERNALS
#include "xmss-alt/wots.h"
#endif
using namespace vq;

struct H32 { size_t operator()(const ref::n32 &x) const { size_t v; memcpy(&v, x.data(), sizeof v); return v; } };
// Every value of every chain of one one-time key, so that a revealed value can be located.
struct Chains {
    ref::Wots w;
    int hf;
    uint32_t ots;
    ref::n32 pub, seed;
    std::vector<std::vector<ref::n32>> v;
    std::unordered_map<ref::n32, int, H32> where;  // value -> chain * 256 + position
    Chains(int hf_, uint32_t W, const ref::n32 &pub_, const ref::n32 &seed_, uint32_t ots_, const std::function<ref::n32(int)> &start) : hf(hf_), ots(ots_), pub(pub_), seed(seed_) {
        ref::wots_params(W, w);
        for (int c = 0; c < w.len; c++) {
            std::vector<ref::n32> ch{start(c)};
            for (int i = 1; i < w.w; i++) ch.push_back(ref::chain(hf, ch.back(), i - 1, i, pub, ots, (uint32_t) c));
            for (int i = 0; i < w.w; i++) where[ch[i]] = c * 256 + i;
            v.push_back(ch);
        }
    }
    // positions revealed by a WOTS signature; empty if a value is not on its chain
    std::vector<int> locate(const uint8_t *sig, std::string &err) const {
        std::vector<int> p;
        for (int c = 0; c < w.len; c++) {
            ref::n32 x;
            memcpy(x.data(), sig + 32 * c, 32);
            auto it = where.find(x);
            if (it == where.end()) { err = cat("chain ", c, ": value is on no chain"); return {}; }
            if (it->second / 256 != c) { err = cat("chain ", c, ": value belongs to chain ", it->second / 256); return {}; }
            p.push_back(it->second % 256);
        }
        return p;
    }
};
static bool dominates(const std::vector<int> &a, const std::vector<int> &b) {  // a can be advanced to b
    for (size_t i = 0; i < a.size(); i++) if (b[i] < a[i]) return false;
    return true;
}
#ifdef VERIF_INTERNALS
static Chains lowlevel(int hf, uint32_t W, const ref::n32 &pub, const ref::n32 &seed, uint32_t ots) {
    return Chains(hf, W, pub, seed, ots, [&](int c) {
        uint8_t b[32] = {0};
        b[31] = (uint8_t) c; b[30] = (uint8_t) (c >> 8);
        return ref::prf(hf, seed.data(), b);
    });
}
// the Rust port's one-time signature on the same digest reveals the same values
static rs::R rust_wots(int op, const Chains &k, const bytes &digest, const bytes &sig = {}) {
    return rs::take(rs_wots(op, (uint32_t) k.hf, (uint32_t) k.w.w, digest.data(), k.seed.data(), k.pub.data(), k.ots, sig.data(), sig.size()), cat("Rust one-time signature w=", k.w.w, " digest=", hexs(digest)));
}
static void rust_reveal(const Chains &k, const bytes &digest) {
    rs::R r = rust_wots(0, k, digest);
    if (!r.ok) return;
    std::string err;
    if (r.v.size() != 32u * k.w.len) { vf::violation("rust-number-of-chains", cat("w=", k.w.w, " ", r.v.size(), " bytes")); return; }
    auto pos = k.locate(r.v.data(), err);
    auto want = ref::wots_digits(k.w, digest.data());
    if (pos.empty()) vf::violation("rust-value-off-its-chain", cat("w=", k.w.w, " ", err, " digest=", hexs(digest)));
    else if (pos != want) {
        size_t i = 0;
        while (pos[i] == want[i]) i++;
        vf::violation(i < (size_t) k.w.len1 ? "rust-message-position" : "rust-checksum-position", cat("w=", k.w.w, " chain ", i, " position ", pos[i], " scheme ", want[i], " digest=", hexs(digest)));
    }
    vf::eval(vf::fnv(digest, (uint64_t) k.w.w * 31 + k.hf + 1000003));
    vf::count("rust_digests");
}
static std::vector<int> reveal(const Chains &k, const bytes &digest, bool *ok = nullptr) {
    wots_params p;
    wots_set_params(&p, 32, k.w.w);
    std::string err;
    if (p.len != (uint32_t) k.w.len) {
        vf::violation("number-of-chains", cat("w=", k.w.w, " library ", p.len, " scheme ", k.w.len));
        if (ok) *ok = false;
        return {};
    }
    uint32_t addr[8] = {0, 0, 0, 0, k.ots, 0, 0, 0};
    bytes sig(32 * k.w.len);
    wots_sign(HF[k.hf], sig.data(), digest.data(), k.seed.data(), &p, k.pub.data(), addr);
    auto pos = k.locate(sig.data(), err);
    auto want = ref::wots_digits(k.w, digest.data());
    if (pos.empty()) vf::violation("value-off-its-chain", cat("w=", k.w.w, " ", err, " digest=", hexs(digest)));
    else if (pos != want) {
        size_t i = 0;
        while (pos[i] == want[i]) i++;
        vf::violation(i < (size_t) k.w.len1 ? "message-position" : "checksum-position", cat("w=", k.w.w, " chain ", i, " position ", pos[i], " scheme ", want[i], " digest=", hexs(digest)));
    }
    if (ok) *ok = !pos.empty();
    rust_reveal(k, digest);
    vf::eval(vf::fnv(digest, (uint64_t) k.w.w * 31 + k.hf));
    vf::count("digests");
    vf::count("with_internals");
    vf::count("chain_values_located", pos.size());
    return pos;
}
static bytes from_digits(const ref::Wots &w, const std::vector<int> &d) {
    bytes b(32, 0);
    for (int i = 0; i < w.len1; i++) {
        int bit = i * w.logw;
        b[bit / 8] |= (uint8_t) (d[i] << (8 - w.logw - bit % 8));
    }
    return b;
}
// a digest whose checksum is exactly c
static bytes with_checksum(const ref::Wots &w, int c, vf::Rng &r) {
    std::vector<int> d(w.len1, w.w - 1);
    std::vector<int> order(w.len1);
    for (int i = 0; i < w.len1; i++) order[i] = i;
    for (int i = w.len1 - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    for (int i : order) { int t = std::min(c, w.w - 1); d[i] -= t; c -= t; if (!c) break; }
    return from_digits(w, d);
}
// The attacker: knows the values revealed for digest a, wants a signature for digest b. Every
// chain that can be advanced is; the others are left. The verifier's code decides.
static void forge(const Chains &k, const bytes &a, const std::vector<int> &pa, const bytes &b, const bytes &pk_bytes) {
    wots_params p;
    wots_set_params(&p, 32, k.w.w);
    if (p.len != (uint32_t) k.w.len) return;
    auto digits = ref::wots_digits(k.w, b.data());
    bytes sig;
    for (int c = 0; c < k.w.len; c++) {
        int to = std::max(pa[c], digits[c]);
        auto &x = k.v[c][to];
        sig.insert(sig.end(), x.begin(), x.end());
    }
    // also: leave every checksum chain where it is / push it to the top
    for (int mode = 0; mode < 3; mode++) {
        bytes s = sig;
        for (int c = k.w.len1; mode && c < k.w.len; c++) {
            auto &x = k.v[c][mode == 1 ? pa[c] : k.w.w - 1];
            memcpy(&s[32 * c], x.data(), 32);
        }
        bytes got(32 * k.w.len);
        uint32_t addr[8] = {0, 0, 0, 0, k.ots, 0, 0, 0};
        wots_pkFromSig(HF[k.hf], got.data(), s.data(), b.data(), &p, k.pub.data(), addr);
        vf::check(got != pk_bytes, "forgery-accepted", [&] { return cat("w=", k.w.w, " from ", hexs(a), " to ", hexs(b), " mode ", mode); });
        vf::evals(1);
        vf::count("forgeries_tried");
        rs::R r = rust_wots(1, k, b, s);
        if (r.ok) {
            vf::check(r.v != pk_bytes, "rust-forgery-accepted", [&] { return cat("w=", k.w.w, " from ", hexs(a), " to ", hexs(b), " mode ", mode); });
            vf::count("rust_forgeries_tried");
        }
    }
}
static bytes pk_of(const Chains &k) {
    wots_params p;
    wots_set_params(&p, 32, k.w.w);
    uint32_t addr[8] = {0, 0, 0, 0, k.ots, 0, 0, 0};
    bytes pk(32 * p.len), want;
    wots_pkgen(HF[k.hf], pk.data(), k.seed.data(), &p, k.pub.data(), addr);
    for (auto &c : k.v) want.insert(want.end(), c.back().begin(), c.back().end());
    vf::check(pk == want, "one-time-public-key", [&] { return cat("w=", k.w.w); });
    rs::R r = rust_wots(2, k, bytes(32));
    vf::check(!r.ok || r.v == want, "rust-one-time-public-key", [&] { return cat("w=", k.w.w); });
    return want;
}
// Chosen digests, put to the library's own one-time signature routines.
static void chosen(bool san) {
    // every achievable checksum value (thorough: also for w=256), each with its own digest
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t W : WS) {
            ref::Wots w;
            ref::wots_params(W, w);
            int top = w.len1 * (w.w - 1);
            int step = W == 256 ? (int) vf::scale(31, 1) : 1;
            if (san) step = step * 40 + 1;
            if (W == 256 && hf && !vf::thorough()) step *= 5;
            for (int part = 0; part < 4; part++)
                vf::run("checksums", [&](vf::Rng &r) {
                    Chains k = lowlevel(hf, W, r.n32(), r.n32(), (uint32_t) r.next());
                    for (int c = part * step; c <= top; c += 4 * step) { reveal(k, with_checksum(w, c, r)); vf::count("checksum_values"); }
                    if (W == 256)  // around each carry of the high digit
                        for (int c = part * 256; c <= top + 1; c += 1024)
                            for (int d = -1; d <= 1; d++) if (c + d >= 0 && c + d <= top) { reveal(k, with_checksum(w, c + d, r)); vf::count("checksum_values"); }
                });
        }
    // special and random digests; pairs never dominate; forward-only forgeries fail
    for (int n = 0; n < (san ? 1 : vf::scale(2, 12)); n++)
        for (int hf = 0; hf < 3; hf++)
            for (uint32_t W : WS)
                vf::run("pairs", [&](vf::Rng &r) {
                    Chains k = lowlevel(hf, W, r.n32(), r.n32(), (uint32_t) r.below(1u << 30));
                    bytes pk = pk_of(k);
                    std::vector<bytes> ds{bytes(32, 0), bytes(32, 0xff), bytes(32, 0x55), bytes(32, 0xaa), bytes(32, 0x0f), bytes(32, 0xf0), bytes(32, 0x80), bytes(32, 1)};
                    for (int i = 0; i < 32; i += 5) { bytes b(32, 0); b[i] = 0xff; ds.push_back(b); bytes c(32, 0xff); c[i] = 0; ds.push_back(c); }
                    for (int i = 0; i < 10; i++) ds.push_back(r.buf(32));
                    std::vector<std::vector<int>> ps;
                    for (auto &d : ds) ps.push_back(reveal(k, d));
                    for (size_t i = 0; i < ds.size(); i++)
                        for (size_t j = 0; j < ds.size(); j++)
                            if (i != j && !ps[i].empty() && !ps[j].empty()) {
                                vf::check(!dominates(ps[i], ps[j]), "positions-dominate", [&] { return cat("w=", W, " ", hexs(ds[i]), " -> ", hexs(ds[j])); });
                                vf::count("dominance_pairs");
                            }
                    // raise message digits only: by one somewhere, by a lot, by exactly the amounts that carry
                    int tries = W == 256 ? 12 : 24;
                    for (int t = 0; t < tries; t++) {
                        bytes a = t < (int) ds.size() / 2 ? ds[r.below(ds.size())] : r.buf(32);
                        bool ok = false;
                        auto pa = reveal(k, a, &ok);
                        if (!ok) continue;
                        std::vector<int> d = ref::wots_digits(k.w, a.data());
                        static const int amounts[] = {1, 2, 4, 8, 15, 16, 17, 31, 32, 64, 128, 240, 255, 256, 257, 512, 768, 1024, 4096};
                        int left = amounts[r.below(19)], total = left;
                        for (int tries2 = 0; left > 0 && tries2 < 4000; tries2++) {
                            int c = (int) r.below(k.w.len1), room = k.w.w - 1 - d[c], u = std::min(room, (int) r.range(1, left));
                            d[c] += u; left -= u;
                        }
                        if (left == total) continue;
                        d.resize(k.w.len1);
                        bytes b = from_digits(k.w, d);
                        if (b == a) continue;
                        auto pb = reveal(k, b, &ok);
                        if (ok) vf::check(!dominates(pa, pb), "positions-dominate", [&] { return cat("w=", W, " raised by ", total - left, ": ", hexs(a), " -> ", hexs(b)); });
                        forge(k, a, pa, b, pk);
                        vf::count("raised_digests");
                    }
                });
}
#endif

void harness() {
    bool san = vf::S().part == "san";
#ifdef VERIF_INTERNALS
    chosen(san);
    const int rounds = 1;
#else
    const int rounds = san ? 1 : 8;
#endif
    // whole signatures issued by keys: located on the chains of their index
    for (int n = 0; n < rounds; n++)
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t W : WS)
            vf::run("issued", [&](vf::Rng &r) {
                Cfg c{hf, 4, W};
                bytes seed = r.buf(48);
                ref::Key rk = ref::make_key(seed, hf, 4, W);
                auto k = make(r.chance(1, 2), seed, c);
                rs::Key rk2(false, seed, 4, hf, W);
                for (uint32_t idx = 0; idx < 16; idx += 1 + (W == 256) * 3) {
                    if (idx) k->setIndex(idx);
                    Chains ch(hf, W, rk.pub_seed, ref::ots_seed(rk, idx), idx, [&](int n) { return ref::chain_start(rk, idx, n); });
                    bytes msg = r.buf(msglen(r)), sig = k->sign(msg);
                    std::string err;
                    if (sig.size() != ref::sig_base_size(W) + 128) { vf::violation("signature-size", name(c)); return; }
                    auto pos = ch.locate(&sig[36], err);
                    ref::n32 R;
                    memcpy(R.data(), &sig[4], 32);
                    auto d = ref::digest(hf, R.data(), rk.root, idx, msg);
                    vf::check(!pos.empty() && pos == ref::wots_digits(ch.w, d.data()), "issued-positions", [&] { return cat(name(c), " idx=", idx, " ", err); });
                    vf::eval(cat("issued", name(c), idx));
                    vf::count("issued_signatures");
                    if (rk2.made && (!idx || rk2.index() == idx || rk2.set_index(idx).ok)) {
                        rs::R rsig = rk2.sign(msg);
                        vf::check(rsig.ok && rsig.v == sig, "rust-issued-positions", [&] { return cat(name(c), " idx=", idx); });
                        vf::count("rust_issued_signatures");
                    }
                    // the holder of this signature pushes chains forward: nothing else verifies
                    for (int t = 0; t < 6 && !pos.empty(); t++) {
                        bytes s2 = sig, m2 = t < 3 ? msg : r.buf(20);
                        int cn = t == 1 ? ch.w.len - 1 : (int) r.below(ch.w.len);
                        int to = std::min(W == 2 ? 1 : (int) W - 1, pos[cn] + 1 + (int) r.below(W));
                        if (to == pos[cn] && m2 == msg) continue;
                        memcpy(&s2[36 + 32 * cn], ch.v[cn][to].data(), 32);
                        vf::check(!XmssBase::verify(m2, s2, k->getPK(), W), "forgery-accepted", [&] { return cat(name(c), " idx=", idx, " chain ", cn, " to ", to); });
                        vf::count("forgeries_tried");
                        vf::evals(1);
                    }
                }
            });
}
