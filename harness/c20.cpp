// C20: signature sizes and heights. Small sizes exhaustively for every W, the full 64-bit range by
// structured and random sampling, every 32-bit W class; C++ and Rust against the scheme's arithmetic.
#include "qrl.h"
#include "rs.h"
using namespace vq;

namespace {
// chains of 32-byte digests in base w plus the checksum, straight from the scheme
uint64_t chains(uint32_t w) {
    int lg = w == 2 ? 1 : w == 4 ? 2 : w == 16 ? 4 : w == 256 ? 8 : 0;
    if (!lg) return 0;
    uint64_t len1 = 256 / (uint64_t) lg, top = len1 * (w - 1), len2 = 0;
    while (top) { len2++; top >>= lg; }
    return len1 + len2;
}
uint64_t base(uint32_t w) { return 4 + 32 + 32 * chains(w); }
int expected(uint64_t size, uint32_t w) {    // height, or -1
    if (!chains(w) || size < base(w) || (size - base(w)) % 32) return -1;
    uint64_t h = (size - base(w)) / 32;
    return h <= 254 ? (int) h : -1;
}
void one(uint64_t size, uint32_t w, bool rust, bool key = true) {
    int want = expected(size, w), got = -2;
    std::string e = vf::outcome([&] { got = XmssBase::getHeightFromSigSize((size_t) size, w); });
    auto what = [&] { return cat("height of size ", size, " w=", w, ": got ", got == -2 ? e : std::to_string(got), ", expected ", want); };
    if (want < 0) { if (e != "invalid_argument") vf::violation(e.empty() ? "impossible-size-accepted" : "wrong-kind-of-error", what()); }
    else if (got != want) vf::violation(e.empty() ? "wrong-height" : "possible-size-refused", what());
    if (w == 16) {
        int g16 = -2;
        std::string e16 = vf::outcome([&] { g16 = XmssBase::getHeightFromSigSize((size_t) size); });
        if (e16 != e || g16 != got) vf::violation("default-w-differs", what());
    }
    if (rust) {
        rs::R r = rs::take(rs_height_from_size((size_t) size, w), what());
        if (r.ok != (want >= 0) || (r.ok && r.v != bytes{(uint8_t) want})) vf::violation("rust-height", what() + cat(" Rust ", r.ok ? std::to_string(r.v[0]) : r.s()));
    }
    if (key) vf::eval(size * 0x9E3779B97F4A7C15ull ^ ((uint64_t) w << 7)); else vf::evals(1);
    vf::count(want < 0 ? "refused" : "heights");
}
struct Tall : XmssBase {
    Tall(const bytes &s, uint8_t h, int hf) : XmssBase(s, h, HF[hf], SHA256_2X) {}
    TSIGNATURE sign(const TMESSAGE &) override { return {}; }
};
}  // namespace

void harness() {
    rs_init();
    const bool san = vf::S().part == "san";
    const uint64_t step = san ? 37 : 1;
    for (uint32_t w : WS)
        for (int part = 0; part < 4; part++)
            vf::run("small", [&](vf::Rng &) {
                vf::at(cat("sizes up to 100000 w=", w));
                for (uint64_t s = (uint64_t) part * 25000; s < (uint64_t) (part + 1) * 25000 + (part == 3); s += step) one(s, w, true);
                vf::count("small_sizes", 25000 / step);
            });
    for (uint32_t w : WS)
        vf::run("inverse", [&](vf::Rng &) {
            for (uint64_t h = 0; h <= 70000; h += h < 300 ? 1 : step) {
                uint64_t s = base(w) + 32 * h;
                one(s, w, true);
                if (h <= (san ? 8 : 300)) for (int d = -33; d <= 33; d++) one(s + (uint64_t) d, w, true);
            }
            vf::count("inverses");
        });
    // sizes that only look right after truncation to 8, 16, 31, 32 or 63 bits
    for (int n = 0; n < vf::scale(san ? 30 : 120, 2000); n++)
        vf::run("wide", [&](vf::Rng &r) {
            for (int q = 0; q < 400; q++) {
                uint32_t w = WS[r.below(4)];
                uint64_t s;
                switch (r.below(6)) {
                    case 0: s = base(w) + 32 * (r.below(255) + (r.range(1, 1000) << 8)); break;
                    case 1: s = base(w) + 32 * r.below(255) + (r.range(1, 0xffff) << 32); break;
                    case 2: s = base(w) + 32 * (r.below(255) + (1ull << r.range(8, 58))); break;
                    case 3: s = r.next(); break;
                    case 4: s = ~0ull - r.below(40000); break;
                    default: s = (1ull << r.below(64)) + r.below(80) - 40; break;
                }
                one(s, w, true);
                vf::count("wide_sizes");
            }
            // sizes around zero after wrapping
            for (uint32_t w : WS) for (uint64_t s : {0ull, 1ull, 3ull, 4ull, 35ull, 36ull, ~0ull, ~0ull - 27, ~0ull - 28, 1ull << 63, (1ull << 63) + base(w), (1ull << 32) + base(w), 0xffffffffull}) one(s, w, true, false);
        });
    // Winternitz parameters
    vf::run("w", [&](vf::Rng &r) {
        auto tryw = [&](uint32_t w) {
            bool ok = chains(w) != 0;
            uint32_t got = 0;
            std::string e = vf::outcome([&] { got = XmssBase::calculateSignatureBaseSize(w); });
            if (!ok ? e != "invalid_argument" : got != base(w)) vf::violation(ok ? "wrong-base-size" : "unsupported-w-accepted", cat("base size for w=", w, ": ", e.empty() ? std::to_string(got) : e));
            rs::R q = rs::take(rs_base_size(w), cat("base size for w=", w));
            if (q.ok != ok || (ok && q.u32() != base(w))) vf::violation("rust-base-size", cat("w=", w, ": ", q.ok ? std::to_string(q.u32()) : q.s()));
            if (!ok) for (uint64_t s : {(uint64_t) 0, base(2) + 320, base(4) + 320, base(16), base(16) + 320, base(256) + 320, (uint64_t) 36, (uint64_t) 68}) one(s, w, true, false);
            vf::eval(cat("w", w));
            vf::count(ok ? "w_supported" : "w_refused");
        };
        for (uint32_t w = 0; w <= 5000; w++) tryw(w);
        for (int b = 0; b < 32; b++) for (int d = -1; d <= 1; d++) tryw((1u << b) + (uint32_t) d);
        for (uint32_t w : WS) for (int b = 8; b < 32; b++) tryw(w | (1u << b));
        for (int i = 0; i < (san ? 1000 : 20000); i++) { uint32_t w = (uint32_t) r.next(); if (w != 0xffffffffu) tryw(w); }
        tryw(16);
    });
    // announced sizes of keys of every height, and what a signature really weighs
    for (int h = 0; h <= 254; h++)
        vf::run("announced", [&](vf::Rng &r) {
            std::unique_ptr<Tall> t;
            vf::outcome([&] { t.reset(new Tall(r.buf(48), (uint8_t) h, (int) r.below(3))); });
            if (!t) { vf::count("heights_not_offered"); return; }
            for (uint32_t w : WS) {
                if (t->getSignatureSize(w) != base(w) + 32u * (uint32_t) h) vf::violation("wrong-announced-size", cat("h=", h, " w=", w, ": ", t->getSignatureSize(w)));
                if (w == 16 && t->getSignatureSize() != base(w) + 32u * (uint32_t) h) vf::violation("wrong-announced-size", cat("h=", h, " default w: ", t->getSignatureSize()));
                if (XmssBase::getHeightFromSigSize(t->getSignatureSize(w), w) != h) vf::violation("not-inverse", cat("h=", h, " w=", w));
                vf::eval(cat("announced", h, w));
                vf::count("announced_sizes");
            }
            for (uint32_t w : {0u, 1u, 3u, 5u, 8u, 32u, 64u, 128u, 512u, 65536u}) {
                std::string e = vf::outcome([&] { t->getSignatureSize(w); });
                if (e != "invalid_argument") vf::violation("unsupported-w-accepted", cat("announced size for w=", w, ": ", e));
            }
        });
    for (int i = 0; i < vf::scale(4, 20); i++)
        for (uint32_t w : WS)
            vf::run("weighed", [&](vf::Rng &r) {
                int hf = (int) r.below(3), h = w == 256 ? 4 : (int) (4 + 2 * r.below(2));
                bytes seed = r.buf(48);
                for (int fast = 0; fast < 2; fast++) {
                    auto k = make(fast, seed, Cfg{hf, h, w});
                    bytes s = k->sign(r.buf(r.below(100)));
                    if (s.size() != base(w) + 32u * (uint32_t) h || s.size() != k->getSignatureSize(w) || XmssBase::getHeightFromSigSize(s.size(), w) != h)
                        vf::violation("signature-of-another-size", cat(fast ? "fast h=" : "basic h=", h, " w=", w, ": ", s.size()));
                    vf::eval(cat("weighed", hf, h, w, fast));
                    vf::count("signatures_weighed");
                }
                rs::Key q(true, seed, (uint8_t) h, hf, w);
                rs::R z = rs::take(rs_signature_size(q.k, w), "get_signature_size"), y = q.sign({1});
                if (!z.ok || z.u32() != base(w) + 32u * (uint32_t) h || y.v.size() != z.u32()) vf::violation("rust-signature-size", cat("h=", h, " w=", w));
            });
}
