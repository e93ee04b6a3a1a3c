// C01: every signature a key issues is accepted, and nothing else changes.
#include "tall.h"
using namespace vq;

static void one_signature(XmssBase &k, const Cfg &c, bool fast, vf::Rng &r, size_t mlen, const bytes &pk, const bytes &addr) {
    bytes msg = r.buf(mlen);
    const bytes msg0 = msg;
    uint32_t idx = k.getIndex();
    vf::at(cat(name(c), fast ? " fast" : " basic", " sign idx ", idx, " len ", mlen));
    bytes sig = k.sign(msg);
    auto where = [&] { return cat(name(c), fast ? " fast" : " basic", " idx=", idx, " len=", mlen, " msg=", hexs(msg0), " seed=", hexs(k.getSeed())); };
    vf::check(msg == msg0, "sign-altered-message", where);
    vf::check(sig.size() == k.getSignatureSize(c.w), "signature-size", [&] { return cat(where(), " got ", sig.size(), " announced ", k.getSignatureSize(c.w)); });
    vf::check(sig.size() == ref::sig_base_size(c.w) + 32u * c.h, "signature-size-scheme", where);
    const bytes sig0 = sig, pk0 = pk;
    bytes pkc = pk;
    bool ok = c.w == 16 && r.chance(1, 2) ? XmssBase::verify(msg, sig, pkc) : XmssBase::verify(msg, sig, pkc, c.w);
    vf::check(ok, "own-signature-rejected", where);
    vf::check(sig == sig0 && pkc == pk0 && msg == msg0, "verify-altered-arguments", where);
    vf::check(XmssBase::verify(msg, sig, k.getPK(), c.w), "own-signature-rejected-again", where);
    vf::check(k.getPK() == pk, "signing-altered-public-key", where);
    vf::check(k.getAddress() == addr, "signing-altered-address", where);
    vf::eval(cat(name(c), fast, "/", idx, "/", mlen, "/", hexs(k.getSeed())));
    vf::count(cat("signatures_", HFN[c.hf], "_w", c.w));
    vf::count(fast ? "signatures_fast" : "signatures_basic");
    if (mlen == 0) vf::count("empty_messages");
    if (idx + 1 == (1u << c.h)) vf::count("last_index_signatures");
    if (idx < 2) vf::sample(where());
}

// every index of one key, in order or with skips
static void history(const Cfg &c, bool fast, vf::Rng &r, int nsig, bool from_ext) {
    bytes seed = seed48(r);
    std::unique_ptr<XmssBase> kp;
    if (from_ext) {
        bytes ext = ref::descriptor(c.hf, 0, c.h, 0);
        ext.insert(ext.end(), seed.begin(), seed.end());
        kp.reset(new XmssFast(ext));
    } else kp = make(fast, seed, c);
    XmssBase &k = *kp;
    bytes pk = k.getPK(), addr = k.getAddress();
    uint32_t total = 1u << c.h;
    for (int s = 0; s < nsig && k.getIndex() < total; s++) {
        uint32_t left = total - k.getIndex();
        if (nsig < (int) total && left > (uint32_t) (nsig - s)) {
            // spread the signatures over the whole index range; end on the last index
            uint32_t step = (uint32_t) r.below(2 * left / (nsig - s));
            uint32_t to = s == nsig - 1 ? total - 1 : std::min(total - 1, k.getIndex() + step);
            vf::at(cat(name(c), " setIndex ", to));
            k.setIndex(to);
            vf::count("skips");
        }
        one_signature(k, c, fast, r, s == 0 ? 0 : msglen(r), pk, addr);
    }
}

// A key of any height from any index on (tall.h), through the first, last and boundary indices.
static void tall_key(vf::Rng &r, const Cfg &c, uint32_t steps, int turn) {
    bytes seed = seed48(r);
    uint32_t s = tall::place(r, c.h, steps, turn);
    auto t = tall::sparse(seed, c, s, steps);
    auto k = tall::make(*t, seed, s, r.chance(1, 3));
    if (!k) return;
    const uint64_t n = 1ull << c.h, end = std::min<uint64_t>(n, (uint64_t) s + steps);
    bytes pk = k->getPK(), addr = k->getAddress();
    vf::check(pk == t->k.epk() && addr == ref::address(pk), "tall-key-identity", [&] { return name(c); });
    while (k->getIndex() < end) {
        if (r.chance(1, 4)) k->setIndex((uint32_t) std::min<uint64_t>(end - 1, k->getIndex() + r.below(4)));
        uint32_t idx = k->getIndex();
        one_signature(*k, c, true, r, msglen(r, c.w == 16), pk, addr);
        vf::count("tall_signatures");
        vf::count(cat("tall_h", c.h));
        for (int b : {8, 16, 24}) if (idx >> b) vf::count(cat("tall_above_2^", b));
    }
}

// Keys really generated at larger heights, by both signers (tall.h): each path must lead to the key's own root.
static void grown(vf::Rng &r, Cfg c, bool fast, int sigs) {
    if (!tall::grows()) return;
    bytes seed = seed48(r);
    tall::Grown t(seed, c);
    tall::Grow g(&t.k);
    auto k = make(fast, seed, c);
    vf::evals(0);
    const bytes pk = k->getPK();
    const uint64_t n = 1ull << c.h;
    for (int q = 0; q < sigs; q++) {
        uint32_t i = k->getIndex();
        if (i >= n) break;
        if (q) i = q >= sigs - 2 && (!fast || c.h <= 14) ? (uint32_t) (n - (sigs - q)) : (uint32_t) std::min<uint64_t>(n - 1, i + r.below(fast ? std::min<uint64_t>(n / sigs, 4000) : (n - i) / 2));
        if (i > k->getIndex()) k->setIndex(i);
        i = k->getIndex();
        bytes msg = r.buf(r.below(100));
        auto where = [&] { return cat("generated ", fast ? "fast " : "basic ", name(c), " seed=", hexs(seed, 48), " idx=", i); };
        vf::at(where());
        bytes sig = k->sign(msg);
        vf::check(t.leads(sig, pk), "path-leads-elsewhere", where);
        vf::check(sig.size() == k->getSignatureSize(c.w), "signature-size", where);
        vf::check(k->getPK() == pk, "signing-altered-public-key", where);
        vf::eval(cat("grown", where()));
        vf::count("grown_signatures");
        if (i == n - 1) vf::count("grown_last_index");
    }
    vf::count(cat("grown_h", c.h));
}

void harness() {
    bool san = vf::S().part == "san";
    int reps = san ? 1 : vf::scale(1, 6);
    for (int rep = 0; rep < reps; rep++)
        for (int hf = 0; hf < 3; hf++)
            for (uint32_t w : WS)
                for (int fast = 0; fast < 2; fast++) {
                    vf::run("all-indices", [&](vf::Rng &r) { Cfg c{hf, 4, w}; history(c, fast, r, san ? 5 : 16, false); });
                    if (san) continue;
                    vf::run("spread", [&](vf::Rng &r) { Cfg c{hf, 6, w}; history(c, fast, r, fast ? (w == 256 ? 20 : 64) : (w == 256 ? 1 : 4), false); });
                }
    if (!san)
        for (int hf = 0; hf < 3; hf++) {
            for (int rep = 0; rep < vf::scale(2, 10); rep++)
                vf::run("h8", [&](vf::Rng &r) { Cfg c{hf, 8, 16}; history(c, true, r, vf::scale(120, 256), rep & 1); });
            vf::run("h10", [&](vf::Rng &r) { Cfg c{hf, 10, 16}; history(c, true, r, vf::scale(40, 1024), true); });
            vf::run("h10w", [&](vf::Rng &r) { Cfg c{hf, hf == 0 ? 8 : 10, WS[hf == 0 ? 3 : hf - 1]}; history(c, true, r, vf::scale(40, 600), false); });
            if (vf::thorough()) vf::run("h12", [&](vf::Rng &r) { Cfg c{hf, 12, 16}; history(c, true, r, 600, true); });
        }
        for (int h = 6; h <= 30; h += 2)
            for (int turn = 0; turn < (san ? (h % 8 == 6) : vf::scale(9, 60)); turn++)
                vf::run("tall", [&](vf::Rng &r) {
                    if (!tall::works()) return;
                    uint32_t w = (turn + h / 2) % 3 == 0 ? 16 : turn % 10 == 8 && h % 8 == 6 ? 256 : turn % 2 ? 4 : 2;
                    tall_key(r, Cfg{(int) ((vf::S().seed + turn + h / 2) % 3), h, w}, san || w == 256 ? 3 : w == 16 ? 6 : 10, turn % 12);
                });
    for (int h = 8; h <= (san ? 10 : vf::scale(18, 22)); h += 2)
        for (int fast = 0; fast < 2; fast++)
            for (int hf = 0; hf < 3; hf++)
                if (h < 16 || hf == 1 || vf::thorough())
                    vf::run("grown", [&](vf::Rng &r) { grown(r, Cfg{hf, h, h <= 12 ? WS[r.below(3)] : 16}, fast, h >= 18 ? 4 : 10); });
    for (int hf = 0; hf < 3; hf++)  // every message length over several blocks of every hash function
        for (size_t part = 0; part < (san ? 2 : 11); part++)
            vf::run("every-length", [&](vf::Rng &r) {
                Cfg c{hf, 6, WS[part % 3]};
                auto k = make(true, seed48(r), c);
                bytes pk = k->getPK(), addr = k->getAddress();
                for (size_t n = 0; n < 64; n++) {
                    one_signature(*k, c, true, r, san ? (part * 64 + n) * 5 % 641 : part * 64 + n, pk, addr);
                    vf::count("message_lengths");
                }
            });
    if (!san)  // very long messages
        for (int fast = 0; fast < 2; fast++)
            vf::run("long-message", [&](vf::Rng &r) {
                Cfg c{(int) ((vf::S().seed + fast) % 3), 4, 16};
                auto k = make(fast, seed48(r), c);
                for (size_t n : {(size_t) 1 << 16, ((size_t) 1 << 17) - 1, ((size_t) 1 << 20) + 3, ((size_t) 1 << 24) + r.below(9)}) one_signature(*k, c, fast, r, n, k->getPK(), k->getAddress());
                if (vf::thorough()) one_signature(*k, c, fast, r, 300u << 20, k->getPK(), k->getAddress());
                vf::count("long_messages");
            });
}
