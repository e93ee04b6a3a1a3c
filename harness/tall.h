// Keys of any height (4..30) that stand at any index, without generating 2^h leaves: the key generation
// routine is replaced at link time (--wrap) while a plan is active, and fills the key and its traversal
// state from a sparse reference tree. Inside the window [a,b) the leaves are those of the scheme; a subtree
// that does not touch the window is a pseudo-random node. Everything above is hashed by the reference, so
// signatures in the window are genuine and the expected bytes are known.
// The library's own code then moves the key, signs, copies and refuses.
#ifndef VERIF_TALL_H
#define VERIF_TALL_H
#include <map>
#include "qrl.h"
namespace tall {
using vf::bytes;
using vf::cat;
using vq::Cfg;
struct Sparse {
    ref::Key k;
    uint32_t a = 0, b = 0;
    std::map<std::pair<int, uint32_t>, ref::n32> cache;
    ref::n32 node(int l, uint32_t i) {
        auto it = cache.find({l, i});
        if (it != cache.end()) return it->second;
        uint64_t lo = (uint64_t) i << l, hi = ((uint64_t) i + 1) << l;
        ref::n32 v;
        if (hi <= a || lo >= b) {
            bytes t(k.sk_prf.begin(), k.sk_prf.end());
            for (uint32_t x : {0x7a11u, (uint32_t) l, i}) for (int q = 0; q < 4; q++) t.push_back((uint8_t) (x >> (8 * q)));
            bytes s = ref::sha256(t);
            std::copy(s.begin(), s.end(), v.begin());
        } else if (l == 0) v = ref::leaf(k, i);
        else { ref::n32 x = node(l - 1, 2 * i), y = node(l - 1, 2 * i + 1); v = ref::node(k, l, i, x, y); }
        cache[{l, i}] = v;
        return v;
    }
    std::vector<ref::n32> path(uint32_t idx) {
        std::vector<ref::n32> p;
        for (int i = 0; i < k.h; i++) p.push_back(node(i, (idx >> i) ^ 1));
        return p;
    }
    bytes sign(uint32_t idx, const bytes &msg) { return ref::sign_with(k, idx, msg, path(idx)); }
    bytes secret(uint32_t idx) const { return k.secret(idx); }
};
// A reference key of the given shape standing at s whose next `steps` leaves are real.
inline std::shared_ptr<Sparse> sparse(const bytes &seed, const Cfg &c, uint32_t s, uint32_t steps) {
    auto r = std::make_shared<Sparse>();
    r->k = ref::make_key(seed, c.hf, c.h, c.w, false);
    r->a = s;
    r->b = (uint32_t) std::min<uint64_t>(1ull << c.h, (uint64_t) s + (steps ? 3ull * steps + 12 : 1));  // 0: one signature at s is genuine
    r->k.root = r->node(c.h, 0);
    return r;
}
// The traversal state the scheme prescribes before signing at s (the parts that can still be read).
struct State { bytes sk, auth, keep, nodes, retain; };
inline State state_at(Sparse &t, uint32_t s) {
    const int h = t.k.h;
    const uint64_t n = 1ull << h;
    State o;
    auto put = [](bytes &b, size_t at, const ref::n32 &v) { memcpy(&b[32 * at], v.data(), 32); };
    o.sk = t.secret(s);
    o.auth.resize(32 * h); o.keep.resize(32 * (h / 2)); o.nodes.resize(32 * (h - 2)); o.retain.resize(32);
    for (int i = 0; i < h; i++) put(o.auth, i, t.node(i, (s >> i) ^ 1));
    for (int l = 0; l <= h - 2; l++) {  // right nodes kept for the left node above them
        uint64_t m = 1ull << (l + 2), want = (1ull << (l + 1)) - 1, L = s - s % m + want;
        if (L < s) L += m;
        if (L >= n || L - (1ull << l) >= s) continue;
        put(o.keep, l >> 1, t.node(l, (uint32_t) (L >> l)));
    }
    for (int i = 0; i < h - 2; i++) {
        uint64_t m = 1ull << (i + 1), L1 = (uint64_t) s - s % m + m;  // L+1, the next multiple above s
        if (L1 < n) put(o.nodes, i, t.node(i, (uint32_t) (L1 >> i) + 1));
    }
    put(o.retain, 0, t.node(h - 2, 3));
    return o;
}
// Trees that are really generated, at heights whose real leaves would take hours: while `grow` is set, the
// last two steps of making a leaf (the one-time public key and the L-tree) are replaced at link time by a
// cheap injective mark of their inputs; seeds, addresses, the Merkle tree, the traversal and the signatures
// stay the library's own. The reference tree has the same leaves. (Such signatures equal the reference's
// byte for byte; they do not verify, since verification computes real leaves.)
struct Grown {
    ref::Key k;
    int b = 8;
    std::vector<std::vector<ref::n32>> top;   // levels b..h
    uint32_t at = 0xffffffffu;
    std::vector<std::vector<ref::n32>> low;   // levels 0..b-1 of subtree `at`
    ref::n32 leaf(uint32_t i) const {
        ref::n32 v = ref::ots_seed(k, i);
        for (int q = 0; q < 4; q++) { v[q] ^= (uint8_t) (i >> (8 * q)); v[8 + q] ^= (uint8_t) (i >> (8 * q)); }
        return v;
    }
    void open(uint32_t s) {
        if (at == s) return;
        at = s;
        low.assign(b + 1, {});
        for (uint32_t i = 0; i < (1u << b); i++) low[0].push_back(leaf((s << b) + i));
        for (int l = 1; l <= b; l++)
            for (uint32_t i = 0; i < (1u << (b - l)); i++) low[l].push_back(ref::node(k, l, (s << (b - l)) + i, low[l - 1][2 * i], low[l - 1][2 * i + 1]));
    }
    Grown(const bytes &seed, const Cfg &c) {
        k = ref::make_key(seed, c.hf, c.h, c.w, false);
        b = std::min(c.h, 8);
        top.resize(c.h - b + 1);
        for (uint32_t s = 0; s < (1u << (c.h - b)); s++) { open(s); top[0].push_back(low[b][0]); if (s % 16 == 0) vf::evals(0); }
        for (int l = 1; l <= c.h - b; l++)
            for (uint32_t i = 0; i < (1u << (c.h - b - l)); i++) top[l].push_back(ref::node(k, b + l, i, top[l - 1][2 * i], top[l - 1][2 * i + 1]));
        k.root = top[c.h - b][0];
    }
    std::vector<ref::n32> path(uint32_t idx) {
        open(idx >> b);
        std::vector<ref::n32> p;
        for (int l = 0; l < k.h; l++) p.push_back(l < b ? low[l][((idx >> l) ^ 1) & ((1u << (b - l)) - 1)] : top[l - b][(idx >> l) ^ 1]);
        return p;
    }
    bytes sign(uint32_t idx, const bytes &msg) { return ref::sign_with(k, idx, msg, path(idx)); }
    // the path carried by a signature leads from its leaf to the root in the public key
    bool leads(const bytes &sig, const bytes &epk) const {
        if (sig.size() != ref::sig_base_size(k.w.w) + 32u * k.h || epk.size() != 67) return false;
        uint32_t idx = (uint32_t) sig[0] << 24 | (uint32_t) sig[1] << 16 | (uint32_t) sig[2] << 8 | sig[3];
        if (idx >> k.h) return false;
        ref::n32 x = leaf(idx), y;
        for (int l = 0; l < k.h; l++) {
            std::copy_n(&sig[ref::sig_base_size(k.w.w) + 32 * l], 32, y.begin());
            x = (idx >> l) & 1 ? ref::node(k, l + 1, idx >> (l + 1), y, x) : ref::node(k, l + 1, idx >> (l + 1), x, y);
        }
        return std::equal(x.begin(), x.end(), &epk[3]);
    }
};
#ifdef VERIF_INTERNALS
extern thread_local const ref::Key *grow;   // keys made and used by this thread have cheap leaves
extern thread_local uint64_t grown_leaves;
struct Grow { explicit Grow(const ref::Key *k) { grow = k; } ~Grow() { grow = nullptr; } };
bool grows();
#else
struct Grow { explicit Grow(const ref::Key *) {} };
inline bool grows() { return false; }
#endif
#ifdef VERIF_INTERNALS
struct Plan { Sparse *t; uint32_t s; bool used; };
extern thread_local Plan *plan;
extern thread_local std::function<void()> *at_keygen;  // called when this thread starts generating a key
bool works();  // the planted state is understood by this tree's code (compared with genuinely generated keys)
inline std::unique_ptr<XmssFast> make(Sparse &t, const bytes &seed, uint32_t s, bool from_ext = false) {
    struct Guard { ~Guard() { plan = nullptr; } } g;
    Plan p{&t, s, false};
    plan = &p;
    Cfg c{t.k.hf, t.k.h, (uint32_t) t.k.w.w};
    std::unique_ptr<XmssFast> k;
    if (from_ext) {
        bytes ext = ref::descriptor(c.hf, 0, c.h, 0);
        ext.insert(ext.end(), seed.begin(), seed.end());
        k.reset(new XmssFast(ext));
        if (c.w != 16) k->initialize_tree(c.w);
    } else k.reset(new vq::FastW(seed, c.h, c.hf, c.w));
    if (!p.used) return nullptr;
    return k;
}
#else
inline bool works() { return false; }
inline std::unique_ptr<XmssFast> make(Sparse &, const bytes &, uint32_t, bool = false) { return nullptr; }
#endif
// Places near which carries, words and shifts change, and the ends of the tree.
inline uint32_t place(vf::Rng &r, int h, uint32_t steps) {
    uint64_t n = 1ull << h, b;
    switch (r.below(6)) {
        case 0: b = n; break;
        case 1: b = n / 2; break;
        case 2: b = 1ull << r.range(1, h); break;
        case 3: b = (r.below(n >> 8 ? n >> 8 : 1) + 1) << 8; break;
        case 4: b = h > 16 ? (r.below(n >> 16) + 1) << 16 : r.below(n); break;
        default: b = h > 24 ? (r.below(n >> 24) + 1) << 24 : r.below(n); break;
    }
    uint64_t back = 1 + r.below(steps);
    uint64_t s = b > back ? b - back : 0;
    return (uint32_t) std::min<uint64_t>(s, n - 1);
}
// the boundaries every height must be seen at, in turn
inline uint32_t place(vf::Rng &r, int h, uint32_t steps, int turn) {
    uint64_t n = 1ull << h;
    static const int sh[] = {8, 16, 24, 15, 20, 12, 28};
    uint64_t b = turn == 0 ? n : turn == 1 ? n / 2 : turn - 2 < 7 && sh[turn - 2] < h ? 1ull << sh[turn - 2] : 0;
    if (!b) return place(r, h, steps);
    uint64_t back = turn == 0 ? 1 + r.below(steps) : 1 + r.below(steps > 3 ? steps - 2 : 1);
    return (uint32_t) (b > back ? b - back : 0);
}
}  // namespace tall
#ifdef VERIF_INTERNALS
#include "xmss-alt/algsxmss.h"
#include "xmss-alt/algsxmss_fast.h"
#define VERIF_GENKEY _Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
extern "C" int VERIF_CAT(__real_, VERIF_GENKEY)(eHashFunction, xmss_params *, unsigned char *, unsigned char *, bds_state *, unsigned char *);
extern "C" int VERIF_CAT(__wrap_, VERIF_GENKEY)(eHashFunction hf, xmss_params *params, unsigned char *pk, unsigned char *sk, bds_state *st, unsigned char *seed) {
    using namespace tall;
    if (at_keygen) (*at_keygen)();
    if (!plan) return VERIF_CAT(__real_, VERIF_GENKEY)(hf, params, pk, sk, st, seed);
    Sparse &t = *plan->t;
    const int h = t.k.h;
    const uint32_t s = plan->s;
    if ((int) params->h != h || (int) params->wots_par.w != t.k.w.w) { memset(sk, 0, 132); return 0; }  // the W=16 pass before another W
    plan->used = true;
    const State o = state_at(t, s);
    memcpy(sk, o.sk.data(), 132);
    memcpy(pk, t.k.root.data(), 32);
    memcpy(pk + 32, t.k.pub_seed.data(), 32);
    st->stackoffset = 0;
    memcpy(st->auth, o.auth.data(), o.auth.size());
    memcpy(st->keep, o.keep.data(), o.keep.size());
    for (int i = 0; i < h - 2; i++) {
        st->treehash[i].h = i;
        st->treehash[i].next_idx = 0;
        st->treehash[i].stackusage = 0;
        st->treehash[i].completed = 1;
        memcpy(st->treehash[i].node, &o.nodes[32 * i], 32);
    }
    memcpy(st->retain, o.retain.data(), 32);
    return 0;
}
#define VERIF_PKGEN _Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj
#define VERIF_LTREE _Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj
extern "C" void VERIF_CAT(__real_, VERIF_PKGEN)(eHashFunction, unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
extern "C" void VERIF_CAT(__real_, VERIF_LTREE)(eHashFunction, const wots_params *, unsigned char *, unsigned char *, const unsigned char *, uint32_t *) __attribute__((weak));
extern "C" void VERIF_CAT(__wrap_, VERIF_PKGEN)(eHashFunction hf, unsigned char *pk, const unsigned char *sk, const wots_params *p, const unsigned char *pub_seed, uint32_t *addr) {
    if (!tall::grow) return VERIF_CAT(__real_, VERIF_PKGEN)(hf, pk, sk, p, pub_seed, addr);
    tall::grown_leaves++;
    memmove(pk, sk, 32);
    for (int q = 0; q < 4; q++) pk[8 + q] ^= (uint8_t) (addr[4] >> (8 * q));
    if (memcmp(pub_seed, tall::grow->pub_seed.data(), 32) || (int) hf != tall::grow->hf || (int) p->w != tall::grow->w.w || (addr[0] | addr[1] | addr[2] | addr[3])) pk[16] ^= 1;
}
extern "C" void VERIF_CAT(__wrap_, VERIF_LTREE)(eHashFunction hf, const wots_params *p, unsigned char *leaf, unsigned char *pk, const unsigned char *pub_seed, uint32_t *addr) {
    if (!tall::grow) return VERIF_CAT(__real_, VERIF_LTREE)(hf, p, leaf, pk, pub_seed, addr);
    tall::grown_leaves++;
    memmove(leaf, pk, 32);
    for (int q = 0; q < 4; q++) leaf[q] ^= (uint8_t) (addr[4] >> (8 * q));
    if (memcmp(pub_seed, tall::grow->pub_seed.data(), 32) || (int) hf != tall::grow->hf || (int) p->w != tall::grow->w.w || (addr[0] | addr[1] | addr[2]) || addr[3] != 1) leaf[17] ^= 1;
    if (vf::thorough() && tall::grown_leaves % 1024 == 0) vf::evals(0);
}
namespace tall {
thread_local const ref::Key *grow = nullptr;
thread_local uint64_t grown_leaves = 0;
bool grows() {   // the stand-ins are called as expected: once each for every leaf of a small tree
    static const bool ok = [] {
        try {
            vf::Rng r(78, 5);
            bytes seed = r.buf(48);
            Grown t(seed, Cfg{1, 6, 16});
            Grow g(&t.k);
            grown_leaves = 0;
            XmssFast k(seed, 6, eHashFunction::SHAKE_128, SHA256_2X);
            return grown_leaves == 128;
        } catch (...) { return false; }
    }();
    static const bool once = ok && (vf::count("with_grown"), true);
    (void) once;
    return ok;
}
thread_local Plan *plan = nullptr;
thread_local std::function<void()> *at_keygen = nullptr;
bool works() {
    static const bool ok = [] {
        try {
            vf::Rng r(77, 5);
            // a tree with all leaves real, planted at s, against a generated key moved to s
            Cfg c{2, 6, 2};
            bytes seed = r.buf(48);
            auto t = sparse(seed, c, 0, 64);
            vq::FastW g(seed, c.h, c.hf, c.w);
            std::unique_ptr<XmssFast> p;
            while (g.getIndex() < 64) {
                uint32_t s = g.getIndex();
                if (s == 0 || s == 5 || s == 22 || s == 31 || s == 47 || s == 60) {
                    p = make(*t, seed, s);
                    if (!p || p->getPK() != g.getPK() || p->getSK() != g.getSK()) return false;
                }
                if (p->sign({2}) != g.sign({2})) return false;
            }
            return true;
        } catch (...) { return false; }
    }();
    static const bool once = ok && (vf::count("with_internals"), true);
    (void) once;
    return ok;
}
}  // namespace tall
#endif
#endif
