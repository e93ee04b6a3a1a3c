// C06: keys and signatures are byte for byte those of the published construction.
#include <fstream>
#include "tall.h"
using namespace vq;

static void eq(const bytes &got, const bytes &want, const char *cls, const std::string &where) {
    vf::count("bytes_compared", want.size());
    if (got == want) return;
    size_t p = 0;
    while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
    vf::violation(cls, cat(where, ": ", got.size(), " bytes, expected ", want.size(), ", first difference at ", p, " got ", hexs(got, 48), " want ", hexs(want, 48)));
}

static void whole(const Cfg &c, vf::Rng &r, bool edge) {
    bytes seed = edge ? seed48(r) : r.buf(48);
    ref::Key rk = ref::make_key(seed, c.hf, c.h, c.w);
    std::string where = cat(name(c), " seed=", hexs(seed, 48));
    for (int fast = 0; fast < 2; fast++) {
        if (!fast && c.h > 6) continue;
        auto k = make(fast, seed, c);
        const char *s = fast ? "fast " : "basic ";
        eq(k->getSK(), rk.secret(0), "secret-key", s + where);
        eq(k->getRoot(), vec(rk.root), "root", s + where);
        eq(k->getPK(), rk.epk(), "public-key", s + where);
        eq(k->getAddress(), ref::address(rk.epk()), "address", s + where);
        vf::eval(cat("key", s, where));
        vf::count("keys");
        int sigs = c.h <= 4 ? 16 : c.h == 6 ? (fast ? 20 : 3) : 10;
        for (int q = 0; q < sigs; q++) {
            uint32_t n = 1u << c.h, idx = c.h <= 4 ? (uint32_t) q : (uint32_t) std::min<uint64_t>(n - 1, k->getIndex() + r.below(n / sigs));
            if (k->getIndex() >= n) break;
            k->setIndex(idx);
            bytes msg = r.buf(msglen(r));
            eq(k->sign(msg), ref::sign(rk, idx, msg), "signature", cat(s, where, " idx=", idx, " len=", msg.size()));
            eq(k->getSK(), rk.secret(idx + 1), "secret-key-after-sign", s + where);
            vf::eval(cat("sig", s, where, idx, ",", msg.size()));
            vf::count("signatures");
            vf::count(cat("signatures_w", c.w));
        }
    }
    vf::sample(where);
}

// Any index of any tree up to height 30: the traversal state and root are planted (tall.h), so that no
// tree has to be built; the library then signs there with its own code.
static void planted(vf::Rng &r, int hf, int h, uint32_t w, uint32_t idx) {
    bytes seed = seed48(r), msg = r.buf(msglen(r, w == 16));
    Cfg c{hf, h, w};
    std::string where = cat("planted ", name(c), " idx=", idx, " len=", msg.size());
    vf::at(where);
    auto t = tall::sparse(seed, c, idx, 0);
    auto k = tall::make(*t, seed, idx, r.chance(1, 4));
    if (!k) return;
    bytes want = t->sign(idx, msg), m = msg;
    eq(k->getSK(), t->secret(idx), "secret-key-large-index", where);
    eq(k->getPK(), t->k.epk(), "public-key-large-tree", where);
    eq(k->getAddress(), ref::address(t->k.epk()), "address-large-tree", where);
    eq(k->sign(m), want, "signature-large-index", where);
    eq(m, msg, "message-modified", where);
    eq(k->getSK(), t->secret(idx + 1), "next-index", where);
    vf::check(XmssBase::verify(msg, want, t->k.epk(), w), "rejects-genuine", [&] { return where; });
    vf::eval(vf::fnv(want));
    vf::count("planted_signatures");
    if (idx >= (1u << 16)) vf::count("planted_above_65535");
    if (idx >= (1u << 24)) vf::count("planted_above_2^24");
}

// Keys really generated at larger heights by both signers (cheap leaves, tall.h): root, secret key and signatures.
static void grown(vf::Rng &r, Cfg c, bool fast, int sigs) {
    if (!tall::grows()) return;
    bytes seed = seed48(r);
    std::string where = cat("grown ", fast ? "fast " : "basic ", name(c), " seed=", hexs(seed, 48));
    vf::at(where);
    tall::Grown t(seed, c);
    tall::Grow g(&t.k);
    auto k = make(fast, seed, c);
    vf::evals(0);
    eq(k->getSK(), t.k.secret(0), "secret-key-generated", where);
    eq(k->getPK(), t.k.epk(), "public-key-generated", where);
    const uint64_t n = 1ull << c.h;
    for (int q = 0; q < sigs; q++) {
        uint32_t i = k->getIndex();
        if (i >= n) break;
        if (q) i = fast ? (uint32_t) std::min<uint64_t>(n - 1, i + r.below(std::min<uint64_t>(n / sigs, 6000))) : q == sigs - 1 ? (uint32_t) (n - 1) : (uint32_t) (i + r.below((n - i) / 2));
        if (i != k->getIndex()) k->setIndex(i);
        bytes msg = r.buf(msglen(r, true));
        vf::at(cat(where, " index ", i));
        eq(k->sign(msg), t.sign(i, msg), "signature-generated", cat(where, " idx=", i));
        vf::eval(cat(where, i));
        vf::count("grown_signatures");
    }
    vf::count(cat("grown_h", c.h));
}

static std::vector<std::string> lines() {
    const char *d = getenv("VERIF_DIR");
    std::ifstream f(std::string(d ? d : "/verif") + "/vectors/golden.txt");
    std::vector<std::string> v;
    for (std::string l; std::getline(f, l);) if (!l.empty() && l[0] != '#') v.push_back(l);
    if (v.empty()) { fprintf(stderr, "no golden vectors\n"); exit(3); }
    return v;
}
// hf h w idx seed msg pk address sha256(signature) mnemonic-sha
static std::string vector_line(int hf, int h, uint32_t w, uint32_t idx, const bytes &seed, const bytes &msg) {
    auto k = make(h > 4, seed, Cfg{hf, h, w});
    if (idx) k->setIndex(idx);
    bytes sig = k->sign(msg);
    return cat(hf, " ", h, " ", w, " ", idx, " ", ref::hex(seed), " ", msg.empty() ? "-" : ref::hex(msg), " ", ref::hex(k->getPK()), " ", ref::hex(k->getAddress()), " ",
               ref::hex(ref::sha256(sig)), " ", ref::hex(ref::sha256(str2bin(bin2mnemonic(k->getExtendedSeed())))));
}

void harness() {
    std::string part = vf::S().part;
    if (part == "gen") {  // how vectors/golden.txt was made, on the original tree
        vf::Rng r(20261119, 6);
        for (int hf = 0; hf < 3; hf++)
            for (int h : {4, 6, 8})
                for (uint32_t w : {16u, 2u, 4u}) {
                    if (h == 8 && w != 16) continue;
                    for (int q = 0; q < 3; q++) {
                        bytes seed = q ? r.buf(48) : bytes(48, 0), msg = r.buf(q * 70);
                        uint32_t idx = q == 0 ? 0 : (uint32_t) r.below(1u << h);
                        printf("%s\n", vector_line(hf, h, w, idx, seed, msg).c_str());
                    }
                }
        return;
    }
    bool san = part == "san";
    for (int n = 0; n < (san ? 1 : vf::scale(2, 20)); n++)
        for (int hf = 0; hf < 3; hf++) {
            for (uint32_t w : WS)
                vf::run("whole-tree", [&](vf::Rng &r) { whole(Cfg{hf, 4, w}, r, n % 2 == 0); });
            if (n % 2 == 0) {
                vf::run("whole-tree", [&](vf::Rng &r) { whole(Cfg{hf, 6, 16}, r, true); });
                vf::run("whole-tree", [&](vf::Rng &r) { whole(Cfg{hf, 6, 4}, r, true); });
            }
            if (!san && n == 1) vf::run("whole-tree", [&](vf::Rng &r) { whole(Cfg{hf, 8, 16}, r, false); });
            if (!san && n == 1 && vf::thorough()) vf::run("whole-tree", [&](vf::Rng &r) { whole(Cfg{hf, 10, 16}, r, false); });
        }
    for (int h = 4; h <= 30; h += 2)
        for (int hf = 0; hf < 3; hf++)
            vf::run("planted", [&](vf::Rng &r) {
                    if (!tall::works()) return;
                int q = san ? 2 : (int) vf::scale(8, 150);
                for (int i = 0; i < q; i++) {
                    uint32_t w = WS[r.below(i % 5 ? 3 : 4)];
                    uint64_t n = 1ull << h;
                    uint32_t idx = i == 0 ? (uint32_t) (n - 1) : i == 1 ? 0 : i == 2 ? (uint32_t) (n / 2 - 1) : i == 3 ? (uint32_t) (n - 2)
                                 : r.chance(1, 2) ? (uint32_t) r.below(n) : (uint32_t) std::min<uint64_t>(n - 1, (1ull << r.below(h)) - r.below(2));
                    planted(r, hf, h, w, idx);
                }
            });
    for (int h = 8; h <= (san ? 12 : vf::scale(18, 22)); h += 2)
        for (int fast = 0; fast < 2; fast++)
            for (int hf = 0; hf < 3; hf++)
                if (h < 16 || hf == 1 || vf::thorough())
                    vf::run("grown", [&](vf::Rng &r) { grown(r, Cfg{hf, h, h <= 12 ? WS[r.below(3)] : 16}, fast, h >= 18 ? 3 : 5); });
    for (int hf = 0; hf < 3; hf++)  // every message length over several blocks of every hash function
        for (size_t part = 0; part < (san ? 2 : 11); part++)
            vf::run("every-length", [&](vf::Rng &r) {
                Cfg c{hf, 4, WS[part % 3]};
                bytes seed = seed48(r);
                ref::Key rk = ref::make_key(seed, c.hf, c.h, c.w);
                for (size_t j = 0; j < 64; j++) {
                    static std::unique_ptr<XmssBase> k;
                    bool fast = part % 4 != 3 || vf::thorough();
                    if (j % 16 == 0) k = make(fast, seed, c);
                    uint32_t i = k->getIndex();
                    bytes msg = r.buf(san ? (part * 64 + j) * 5 % 641 : part * 64 + j);
                    eq(k->sign(msg), ref::sign(rk, i, msg), "signature", cat(fast ? "fast " : "basic ", name(c), " seed=", hexs(seed, 48), " idx=", i, " len=", msg.size()));
                    vf::eval(cat("len", hf, fast, msg.size(), hexs(seed, 48)));
                    vf::count("message_lengths");
                    if (j % 16 == 15) k.reset();
                }
            });
    if (san) return;
    vf::run("grown", [&](vf::Rng &r) { grown(r, Cfg{1, 20, 16}, false, 2); });
    if (vf::thorough()) for (int h : {24, 26}) vf::run("grown", [&](vf::Rng &r) { grown(r, Cfg{1, h, 16}, h == 26, 2); });
    for (int fast = 0; fast < 2; fast++)
        vf::run("long-message", [&](vf::Rng &r) {
            Cfg c{(int) ((vf::S().seed + fast) % 3), 4, 16};
            bytes seed = seed48(r);
            ref::Key rk = ref::make_key(seed, c.hf, c.h, c.w);
            auto k = make(fast, seed, c);
            uint32_t i = 0;
            for (size_t n : {(size_t) 1 << 16, ((size_t) 1 << 17) - 1, ((size_t) 1 << 20) + 3, ((size_t) 1 << 24) + r.below(9), (size_t) vf::scale(1u << 23, 300u << 20)}) {
                bytes msg = r.buf(n);
                eq(k->sign(msg), ref::sign(rk, i++, msg), "signature", cat(fast ? "fast " : "basic ", name(c), " seed=", hexs(seed, 48), " len=", n));
                vf::count("long_messages");
            }
        });
    // values published before: the tests of the project, and outputs of the original library
    for (int part8 = 0; part8 < 8; part8++)
        vf::run("golden", [&](vf::Rng &) {
            auto v = lines();
            for (size_t i = part8; i < v.size(); i += 8) {
                std::istringstream s(v[i]);
                int hf, h; uint32_t w, idx;
                std::string seed, msg;
                s >> hf >> h >> w >> idx >> seed >> msg;
                std::string got = vector_line(hf, h, w, idx, ref::unhex(seed), msg == "-" ? bytes() : ref::unhex(msg));
                vf::check(got == v[i], "published-value-changed", [&] { return cat("now ", got, " was ", v[i]); });
                vf::eval(v[i]);
                vf::count("golden_vectors");
            }
        });
    vf::run("published", [&](vf::Rng &) {
        auto addr = [&](int hf, const char *want) {
            XmssFast k(bytes(48, 0), 4, HF[hf]);
            XmssBasic b(bytes(48, 0), 4, HF[hf], SHA256_2X);
            vf::check(ref::hex(k.getAddress()) == want && ref::hex(b.getAddress()) == want, "published-value-changed", [&] { return cat(want, " now ", ref::hex(k.getAddress())); });
            vf::eval(want);
            vf::count("golden_vectors");
        };
        addr(0, "00020096e5c065cf961565169e795803c1e60f521af7a3ea0326b42aa40c0e75390e5d8f4336de");
        addr(1, "01020095f03f084bcb29b96b0529c17ce92c54c1e8290193a93803812ead95e8e6902506b67897");
    });
}
