// C02: verify() decides exactly as an independent implementation of the scheme, for genuine
// signatures (up to height 30 and any index, made from fabricated trees) and for every tampering.
#include "qrl.h"
using namespace vq;

struct Item { bytes msg, sig, pk; uint32_t w; bool expect; std::string what; };

struct Memory {  // earlier questions are asked again: the answer may depend only on the arguments
    std::vector<Item> kept;
    void keep(const Item &i, vf::Rng &r) {
        if (kept.size() < 64) kept.push_back(i);
        else if (r.chance(1, 8)) kept[r.below(64)] = i;
    }
};

static void judge(const Item &i, vf::Rng &r, Memory *m = nullptr) {
    vf::at(i.what);
    const bytes a = i.msg, b = i.sig, c = i.pk;
    bool got = XmssBase::verify(i.msg, i.sig, i.pk, i.w);
    auto where = [&] {
        return cat(i.what, " w=", i.w, " pk=", hexs(i.pk, 67), " siglen=", i.sig.size(), " sig=", hexs(i.sig, 40), " msg=", hexs(i.msg), " lib=", got, " scheme=", i.expect);
    };
    if (got != i.expect) vf::violation(got ? "accepts-what-scheme-rejects" : "rejects-what-scheme-accepts", where());
    vf::check(a == i.msg && b == i.sig && c == i.pk, "verify-altered-arguments", where);
    vf::eval(vf::fnv(i.sig, vf::fnv(i.pk, vf::fnv(i.msg, 77 + i.w))));
    vf::count(got ? "accepted" : "rejected");
    if (m) m->keep(i, r);
}
static Item made(const bytes &msg, const bytes &sig, const bytes &pk, uint32_t w, const std::string &what) {
    return Item{msg, sig, pk, w, ref::verify(msg, sig, pk, w), what};
}
static void again(Memory &m, vf::Rng &r) {
    for (size_t n = 0; n < m.kept.size(); n++) {
        auto &i = m.kept[r.below(m.kept.size())];
        bool got = XmssBase::verify(i.msg, i.sig, i.pk, i.w);
        vf::check(got == i.expect, "answer-depends-on-history", [&] { return i.what + " " + hexs(i.pk, 67); });
        vf::evals(1);
        vf::count("re-asked");
    }
}
static uint32_t some_index(vf::Rng &r, int h) {
    uint64_t top = (1ull << h) - 1;
    switch (r.below(6)) {
        case 0: return 0;
        case 1: return (uint32_t) top;
        case 2: return (uint32_t) (1ull << r.below(h));
        case 3: return (uint32_t) ((1ull << r.below(h)) - 1);
        default: return (uint32_t) r.below(top + 1);
    }
}
static const int HEIGHTS[] = {4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30};

static bytes forge(vf::Rng &r, const Cfg &c, bytes &pk, const bytes &msg, uint32_t idx, ref::Key *out = nullptr,
                   const ref::n32 *claim = nullptr) {  // claim: bits to flip in the root the signer claims
    std::vector<ref::n32> auth(c.h);
    for (auto &a : auth) a = r.n32();
    ref::Key k = ref::fabricate(c.hf, c.h, c.w, r.n32(), r.n32(), r.n32(), idx, auth);
    if (claim) for (int i = 0; i < 32; i++) k.root[i] ^= (*claim)[i];
    pk = k.epk();
    if (out) *out = k;
    return ref::sign_with(k, idx, msg, auth);
}

static void genuine_and_tampered(const Cfg &c, vf::Rng &r, int nmut) {
    Memory mem;
    uint32_t idx = some_index(r, c.h);
    bytes msg = r.buf(msglen(r, c.w == 16)), pk;
    bytes sig = forge(r, c, pk, msg, idx);
    std::string base = cat("genuine ", name(c), " idx=", idx, " len=", msg.size());
    Item g = made(msg, sig, pk, c.w, base);
    if (!g.expect) throw std::logic_error("reference rejects its own signature");
    judge(g, r, &mem);
    vf::count("genuine");
    vf::count(cat("genuine_h", c.h));
    vf::sample(base + " pk=" + hexs(pk, 67));
    if (c.w == 16) {  // default argument
        vf::check(XmssBase::verify(msg, sig, pk), "default-w", [&] { return base; });
    }
    size_t wots = ref::sig_base_size(c.w);
    for (int n = 0; n < nmut; n++) {
        bytes m2 = msg, s2 = sig, p2 = pk;
        uint32_t w2 = c.w;
        std::string what;
        auto flip = [&](bytes &b, size_t lo, size_t hi) { size_t p = lo + r.below(hi - lo); b[p] ^= (uint8_t) (1 << r.below(8)); return p; };
        switch (n % 22) {
            case 0: what = cat("flip-index byte ", flip(s2, 0, 4)); break;
            case 1: what = cat("flip-R byte ", flip(s2, 4, 36)); break;
            case 2: case 3: what = cat("flip-wots byte ", flip(s2, 36, wots)); break;
            case 4: case 5: what = cat("flip-auth byte ", flip(s2, wots, s2.size())); break;
            case 6: what = cat("flip-root byte ", flip(p2, 3, 35)); break;
            case 7: what = cat("flip-pubseed byte ", flip(p2, 35, 67)); break;
            case 8: what = cat("flip-descriptor byte ", flip(p2, 0, 3)); break;
            case 9: p2[0] = (uint8_t) ((c.hf + 1 + r.below(2)) % 3); what = "relabel-hash"; break;
            case 10: p2[1] = (uint8_t) ((p2[1] & 0xf0) | r.below(16)); what = "relabel-height"; break;
            case 11: if (m2.empty()) m2 = r.buf(1); else flip(m2, 0, m2.size()); what = "flip-message"; break;
            case 12: m2.push_back(0); what = "extend-message"; break;
            case 13: if (!m2.empty()) m2.pop_back(); else m2.push_back(1); what = "truncate-message"; break;
            case 14: s2.push_back((uint8_t) r.next()); what = "extend-signature"; break;
            case 15: s2.pop_back(); what = "truncate-signature"; break;
            case 16: { int d = (int) r.range(1, 3); for (int i = 0; i < d * 32; i++) s2.push_back((uint8_t) r.next()); what = cat("signature+", d, "nodes"); if (r.chance(1, 2) && d == 2) p2[1]++; break; }
            case 17: { int d = (int) r.range(1, 3); s2.resize(s2.size() - 32 * d); what = cat("signature-", d, "nodes"); if (r.chance(1, 2) && d == 2) p2[1]--; break; }
            case 18: w2 = WS[r.below(4)]; what = cat("other-W ", w2); break;
            case 19: {  // swap two sibling nodes or two chains
                size_t i = r.below(s2.size() / 32 - 2), j = r.below(s2.size() / 32 - 2);
                for (int q = 0; q < 32; q++) std::swap(s2[36 + 32 * i + q >= s2.size() ? 4 + q : 36 + 32 * i + q], s2[36 + 32 * j + q >= s2.size() ? 4 + q : 36 + 32 * j + q]);
                what = "swap-blocks"; break; }
            case 20: {  // the same one-time leaf claimed for a neighbouring index
                uint32_t o = idx ^ (1u << r.below(c.h)); s2[0] = o >> 24; s2[1] = o >> 16; s2[2] = o >> 8; s2[3] = o; what = "other-index"; break; }
            default: {
                size_t k = r.range(2, 5); for (size_t i = 0; i < k; i++) flip(s2, 0, s2.size()); what = "flip-many"; }
        }
        Item i = made(m2, s2, p2, w2, cat("tampered(", what, ") ", base));
        judge(i, r, &mem);
        vf::count("tampered");
        if (i.expect && !(m2 == msg && s2 == sig && w2 == c.w)) vf::count("tampering_accepted_by_both");
    }
    again(mem, r);
}

// A message longer than 2^32 bytes is not taken for its beginning.
static void gigabytes(vf::Rng &r) {
    if (vf::available_memory() < 24ull << 30) { vf::count("gigabytes_skipped"); return; }
    Cfg c{(int) (vf::S().seed % 3), 4, 16};
    bytes shrt = r.buf(77), pk, sig = forge(r, c, pk, shrt, 3);
    vf::check(XmssBase::verify(shrt, sig, pk, 16), "genuine-rejected", [&] { return name(c); });
    bytes lng = shrt;
    lng.resize(77 + (1ull << 32));
    vf::check(!XmssBase::verify(lng, sig, pk, 16), "accepted-wrong", [&] { return cat(name(c), ": a message of 2^32+77 bytes verifies with the signature on its first 77 bytes ", hexs(shrt, 77)); });
    vf::eval("gigabytes");
    vf::count("gigabytes");
}

void harness() {
    if (vf::S().part == "huge") { vf::run("gigabytes", gigabytes); return; }
    bool san = vf::S().part == "san";
    int reps = vf::scale(1, 8);
    for (int rep = 0; rep < reps; rep++)
        for (int hf = 0; hf < 3; hf++)
            for (uint32_t w : WS)
                for (int h : HEIGHTS) {
                    if (san && (h % 8 != 6)) continue;
                    vf::run("genuine", [&](vf::Rng &r) { genuine_and_tampered(Cfg{hf, h, w}, r, w == 256 ? 22 : 44); });
                }
    if (san) return;
    // many indices (all byte positions of the index matter)
    for (int n = 0; n < vf::scale(12, 120); n++)
        vf::run("indices", [&](vf::Rng &r) {
            for (int q = 0; q < 25; q++) {
                Cfg c{(int) r.below(3), HEIGHTS[r.below(14)], WS[r.below(3)]};
                uint32_t idx = some_index(r, c.h);
                bytes msg = r.buf(r.below(80)), pk, sig = forge(r, c, pk, msg, idx);
                judge(made(msg, sig, pk, c.w, cat("index ", name(c), " ", idx)), r);
            }
        });
    // one signature, damaged at every byte (every bit in the thorough tier); also message and key
    for (int hf = 0; hf < 3; hf++)
        for (int part = 0; part < 8; part++)
            vf::run("every-byte", [&](vf::Rng &r) {
                vf::Rng fix(vf::S().seed, 1000 + hf);
                Cfg c{hf, 4, vf::S().seed % 2 ? 16u : 4u};
                bytes msg = fix.buf(40), pk, sig = forge(fix, c, pk, msg, 9);
                for (size_t p = part; p < sig.size(); p += 8)
                    for (int bit = 0; bit < 8; bit++) {
                        if (!vf::thorough() && bit != (int) ((p / 8 + vf::S().seed) % 8)) continue;
                        bytes s2 = sig;
                        s2[p] ^= (uint8_t) (1 << bit);
                        judge(made(msg, s2, pk, c.w, cat("bit ", bit, " of byte ", p, " ", name(c))), r);
                        vf::count("signature_bits_flipped");
                    }
                for (size_t p = part; p < msg.size() * 8; p += 8) {
                    bytes m2 = msg;
                    m2[p / 8] ^= (uint8_t) (1 << (p % 8));
                    judge(made(m2, sig, pk, c.w, cat("message bit ", p)), r);
                }
                for (size_t p = part; p < 67 * 8; p += 8) {
                    bytes p2 = pk;
                    p2[p / 8] ^= (uint8_t) (1 << (p % 8));
                    judge(made(msg, sig, p2, c.w, cat("key bit ", p)), r);
                }
            });
    // a signature made for a claimed root that the tree does not have, wrong in one bit, one byte or all but one byte
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t w : WS) {
            if (w == 256 && !vf::thorough()) continue;
            vf::run("near-root", [&](vf::Rng &r) {
                for (int n = 0; n < 100; n++) {
                    Cfg c{hf, HEIGHTS[r.below(14)], w};
                    ref::n32 m{};
                    if (n < 64) m[n % 32] = (uint8_t) (1 << r.below(8));
                    else if (n < 96) { for (auto &x : m) x = (uint8_t) r.range(1, 255); m[n % 32] = 0; }
                    else for (int i = 0; i < 16; i++) m[i + (n & 1) * 16] = (uint8_t) r.range(1, 255);
                    bytes msg = r.buf(r.below(60)), pk, sig = forge(r, c, pk, msg, some_index(r, c.h), nullptr, &m);
                    Item i = made(msg, sig, pk, c.w, cat("claimed root off by ", hexs(bytes(m.begin(), m.end()), 32), " ", name(c)));
                    if (i.expect) throw std::logic_error("reference accepts a root the tree does not have");
                    judge(i, r);
                    vf::count("near_roots");
                }
            });
        }
    // every descriptor prefix against one signature
    for (int part = 0; part < 8; part++)
        vf::run("every-descriptor", [&](vf::Rng &r) {
            vf::Rng fix(vf::S().seed, 2000);
            Cfg c{1, 6, 16};
            bytes msg = fix.buf(20), pk, sig = forge(fix, c, pk, msg, 33);
            for (int d = part; d < 65536; d += 8) {
                bytes p2 = pk;
                p2[0] = (uint8_t) d;
                p2[1] = (uint8_t) (d >> 8);
                p2[2] = (uint8_t) r.next();
                judge(made(msg, sig, p2, c.w, cat("descriptor ", hexs(p2, 3))), r);
                vf::count("descriptors");
            }
        });
    // all signature sizes and key sizes
    vf::run("every-size", [&](vf::Rng &r) {
        Cfg c{2, 4, 16};
        bytes msg = r.buf(20), pk, sig = forge(r, c, pk, msg, 3);
        for (size_t n = 0; n < 3600; n++) {
            bytes s2 = sig;
            s2.resize(n, 0x5a);
            bytes p2 = pk;
            if (n > 2180 && (n - 2180) % 64 == 0) p2[1] = (uint8_t) (((n - 2180) / 64) & 15);
            judge(made(msg, s2, p2, c.w, cat("size ", n)), r);
        }
        for (size_t n = 0; n < 140; n++) {
            bytes p2 = pk;
            p2.resize(n, 0);
            judge(made(msg, sig, p2, c.w, cat("keysize ", n)), r);
        }
    });
    // well-made signatures of trees of heights no key can have
    vf::run("low-trees", [&](vf::Rng &r) {
        for (int hf = 0; hf < 3; hf++)
            for (uint32_t w : WS)
                for (int h : {0, 2}) {
                    bytes msg = r.buf(r.below(60)), pk, sig = forge(r, Cfg{hf, h, w}, pk, msg, (uint32_t) r.below(1u << h));
                    judge(made(msg, sig, pk, w, cat("a tree of height ", h)), r);
                    for (int d = 1; d <= 15; d++) { bytes p2 = pk; p2[1] = (uint8_t) d; judge(made(msg, sig, p2, w, cat("a tree of height ", h, " labelled ", 2 * d)), r); }
                    vf::count("low_trees");
                }
    });
    // Winternitz parameters the scheme does not have
    vf::run("odd-W", [&](vf::Rng &r) {
        for (uint32_t w : WS) {
            Cfg c{1, 4, w};
            bytes msg = r.buf(20), pk, sig = forge(r, c, pk, msg, 3);
            for (uint32_t w2 : {0u, 1u, 3u, 5u, 6u, 7u, 8u, 9u, 15u, 17u, 20u, 31u, 32u, 33u, 64u, 100u, 128u, 255u, 257u, 512u, 1024u, 65535u, 65536u, 65540u, 1u << 24,
                                0x10000010u, 1u << 31, 0x80000010u, 0xfffffff0u, 0xffffffffu}) {
                judge(made(msg, sig, pk, w2, cat("W ", w2, " for a signature with W ", w)), r);
                for (size_t n : {std::size_t(36), std::size_t(68), std::size_t(164), std::size_t(36 + 256 * 32), std::size_t(2308), std::size_t(8192)}) {
                    bytes s2 = sig;
                    s2.resize(n, 1);
                    judge(made(msg, s2, pk, w2, cat("W ", w2, " size ", n)), r);
                }
                vf::count("unsupported_W");
            }
        }
    });
    // long messages: nothing of them is left out of the decision, and none is taken for its own beginning
    for (int hf = 0; hf < 3; hf++)
        vf::run("long-messages", [&](vf::Rng &r) {
            for (int e : {8, 9, 10, 12, 14, 15, 16, 17, 20, 24}) {
                if (e > (san ? 17 : 20) && hf != (int) (vf::S().seed % 3)) continue;
                Cfg c{hf, 4, WS[r.below(3)]};
                bytes shrt = r.buf(r.below(60)), pk, lng = shrt;
                bytes sig = forge(r, c, pk, shrt, 3);
                judge(made(shrt, sig, pk, c.w, "short"), r);
                lng.resize(shrt.size() + (size_t(1) << e), (uint8_t) (r.chance(1, 2) ? 0 : r.next()));
                judge(made(lng, sig, pk, c.w, cat("2^", e, " bytes more")), r);
                sig = forge(r, c, pk, lng, 5);
                judge(made(lng, sig, pk, c.w, cat("genuine 2^", e)), r);
                judge(made(shrt, sig, pk, c.w, cat("2^", e, " bytes less")), r);
                for (int t = 0; t < (e > 17 ? 4 : 10); t++) {
                    bytes m = lng;
                    size_t at = t == 0 ? 0 : t == 1 ? m.size() - 1 : t == 2 ? m.size() / 2 : r.below(m.size());
                    if (t == 3) m.pop_back(); else if (t == 4) m.push_back(0); else m[at] ^= (uint8_t) (1 << r.below(8));
                    judge(made(m, sig, pk, c.w, cat("2^", e, " changed at ", at)), r);
                }
                vf::count("long_messages");
            }
        });
    // every message length over several blocks of every hash function
    for (int hf = 0; hf < 3; hf++)
        for (size_t part = 0; part < 11; part++)
            vf::run("every-message-length", [&](vf::Rng &r) {
                for (size_t n = part * 64; n < part * 64 + 64; n++) {
                    if (san && n % 7 != (size_t) (vf::S().seed + hf) % 7) continue;
                    Cfg c{hf, HEIGHTS[r.below(14)], WS[n % 3]};
                    bytes msg = r.buf(n), pk, sig = forge(r, c, pk, msg, some_index(r, c.h));
                    judge(made(msg, sig, pk, c.w, cat("message length ", n, " ", name(c))), r);
                    bytes m = msg;
                    m.push_back((uint8_t) (r.chance(1, 2) ? 0 : r.next()));
                    judge(made(m, sig, pk, c.w, cat("message length ", n, " and one byte")), r);
                    if (n) {
                        m = msg, m.pop_back();
                        judge(made(m, sig, pk, c.w, cat("message length ", n, " less one byte")), r);
                        m = msg, m[r.chance(1, 2) ? n - 1 : r.below(n)] ^= (uint8_t) (1 << r.below(8));
                        judge(made(m, sig, pk, c.w, cat("message length ", n, " with one bit changed")), r);
                    }
                    vf::count("message_lengths");
                }
            });
    // signatures issued by the library itself (both signers) and damaged copies of them
    for (int hf = 0; hf < 3; hf++)
        vf::run("issued", [&](vf::Rng &r) {
            Cfg c{hf, 4, WS[r.below(3)]};
            for (int fast = 0; fast < 2; fast++) {
                auto k = make(fast, r.buf(48), c);
                bytes pk = k->getPK();
                for (int n = 0; n < 16; n++) {
                    bytes msg = r.buf(msglen(r));
                    bytes sig = k->sign(msg);
                    judge(made(msg, sig, pk, c.w, cat("issued ", name(c), fast ? " fast" : " basic")), r);
                    sig[r.below(sig.size())] ^= 0x10;
                    judge(made(msg, sig, pk, c.w, "issued and damaged"), r);
                }
            }
        });
}
