// C04: whatever way a fast key reaches an index, its signature there is the one the whole tree gives.
#include "qrl.h"
#include "tall.h"
using namespace vq;

static void compare(const bytes &got, const ref::Key &rk, uint32_t idx, const bytes &want, const std::string &how) {
    if (got != want) {
        size_t p = 0;
        while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
        size_t base = ref::sig_base_size((uint32_t) rk.w.w);
        vf::violation(p >= base ? "authentication-path" : p < 4 ? "index" : p < 36 ? "randomness" : "wots-part",
                      cat(how, " idx=", idx, " first difference at byte ", p, p >= base ? cat(" (level ", (p - base) / 32, ")") : ""));
    }
}

// One history: the indices at which it signs; between them it skips (in one or several calls).
static void follow(XmssFast &k, const ref::Key &rk, const std::vector<uint32_t> &signs, vf::Rng &r, const std::string &tag, bool split) {
    std::string h;
    for (uint32_t s : signs) h += cat(s, ",");
    for (uint32_t s : signs) {
        uint32_t cur = k.getIndex();
        if (s > cur) {
            if (split && s > cur + 1 && r.chance(1, 2)) { k.setIndex((uint32_t) r.range(cur, s)); vf::count("split_skips"); }
            k.setIndex(s);
            vf::count("skips");
            vf::count(cat("skip_log2_", 31 - __builtin_clz(s - cur)));
        }
        bytes msg = r.buf(r.below(40));
        bytes sig = k.sign(msg);
        compare(sig, rk, s, ref::sign(rk, s, msg), cat(tag, " signs at {", h, "}"));
        vf::eval(vf::fnv(tag + h.substr(0, 400) + cat(s)));
        vf::count("signatures");
        if (s + 1 == (1u << rk.h)) vf::count("last_leaf_signatures");
    }
}

// ---- every history of a 16-leaf tree: the traversal state is copied at each branch
static void explore(const XmssFast &s, uint32_t idx, const ref::Key &rk, const std::vector<bytes> &want, const bytes &msg, std::string path) {
    const uint32_t n = 1u << rk.h;
    XmssFast cur(s);
    for (uint32_t j = idx; j < n; j++) {  // skip to j (one leaf at a time from the branch point, or in one call), then sign
        if (j > idx) {
            if (path.size() % 9 == 0) { XmssFast whole(s); whole.setIndex(j); cur = whole; }
            else cur.setIndex(j);
        }
        XmssFast t(cur);
        bytes sig = t.sign(msg);
        if (sig != want[j]) compare(sig, rk, j, want[j], "every-history " + path);
        vf::evals(1);
        vf::count("exhaustive_histories");
        vf::at(path);
        explore(t, j + 1, rk, want, msg, path + cat(j, ","));
    }
}

// Trees too tall to generate, from any index (see tall.h).
static void tall_history(vf::Rng &r, const Cfg &c, uint32_t steps, int turn) {
    bytes seed = r.buf(48);
    uint32_t s = tall::place(r, c.h, steps, turn);
    auto t = tall::sparse(seed, c, s, steps);
    auto kp = tall::make(*t, seed, s, r.chance(1, 3));
    if (!kp) return;
    XmssFast &k = *kp;
    const uint64_t n = 1ull << c.h;
    const uint32_t end = (uint32_t) std::min<uint64_t>(n, (uint64_t) s + steps);
    int style = (int) r.below(5);
    std::string h;
    while (k.getIndex() < end) {
        uint32_t cur = k.getIndex(), to = cur;
        if (style == 1) to += (uint32_t) r.below(3);
        else if (style == 2) to += (uint32_t) r.below(steps / 2 + 1);
        else if (style == 3) to = (uint32_t) std::min<uint64_t>(n - 1, (cur | ((1u << r.below(5)) - 1)) + r.below(2));
        else if (style == 4 && cur == s) to = end - 1;
        if (to >= end) to = end - 1;
        if (to < cur) break;
        if (to > cur) {
            h += cat("->", to, " ");
            vf::at(cat("tall ", name(c), " from ", s, " ", h));
            if (to > cur + 1 && r.chance(1, 3)) k.setIndex((uint32_t) r.range(cur, to));
            k.setIndex(to);
            vf::count("tall_skips");
        }
        bytes msg = r.buf(r.below(40));
        h += cat("sign@", to, " ");
        vf::at(cat("tall ", name(c), " from ", s, " ", h));
        compare(k.sign(msg), t->k, to, t->sign(to, msg), cat("tall ", name(c), " planted at ", s, " ", h));
        vf::eval(cat("tall", name(c), h));
        vf::count("tall_signatures");
        vf::count(cat("tall_h", c.h));
        if (to + 1ull == n) vf::count("tall_last_leaf");
        for (int b : {8, 16, 24}) if (to && to % (1u << b) == 0) vf::count(cat("tall_crossed_2^", b));
        if (to + 1ull >= n) break;
    }
    vf::sample(cat("tall ", name(c), " from ", s, " ", h));
}

// A key generated by the library at heights it could not otherwise reach (tall.h), taken from index 0 up to
// `most`, signing `signs` times or so: at every boundary, around powers of two, and at random.
static void grown_history(vf::Rng &r, Cfg c, uint32_t most, uint32_t signs) {
    if (!tall::grows()) return;
    const uint64_t n = 1ull << c.h;
    most = (uint32_t) std::min<uint64_t>(most, n);
    bytes seed = seed48(r);
    const std::string who = cat("grown ", name(c), " seed ", hexs(seed, 48));
    vf::at(who);
    tall::Grown t(seed, c);
    tall::Grow g(&t.k);
    FastW k(seed, c.h, c.hf, c.w);
    vf::evals(0);
    if (k.getSK() != t.k.secret(0)) { vf::violation("root-of-generated-tree", cat(who, ": ", hexs(k.getRoot(), 32), " expected ", hexs(t.k.root.data(), 32))); return; }
    vf::eval(who);
    std::set<uint32_t> at = {0, 1, 2, 3};
    for (int e = 2; e < 31; e++)
        for (int d = -3; d <= 3; d++) if ((1ll << e) + d < (long long) most) at.insert((uint32_t) ((1ll << e) + d));
    for (int d = 1; d <= 4; d++) { at.insert(most - d); if (most / 2 + 2 < most) at.insert(most / 2 - d + 2); if (most / 4 * 3 + 2 < most) at.insert(most / 4 * 3 - d + 2); }
    while (at.size() < signs && at.size() < most) {
        uint32_t x = (uint32_t) r.below(most);
        for (uint32_t run = 1 + (uint32_t) r.below(6); run-- && x < most; x++) at.insert(x);
    }
    bytes msg = r.buf(20);
    std::unique_ptr<XmssFast> copy;
    for (uint32_t i : at) {
        vf::at(cat(who, " index ", i));
        if (i != k.getIndex()) { k.setIndex(i); vf::count("grown_skips"); }
        bytes want = t.sign(i, msg), got = k.sign(msg);
        if (got != want) {
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
            long level = ((long) p - (long) ref::sig_base_size(c.w)) / 32;
            vf::violation("wrong-path-in-generated-tree", cat(who, " index ", i, ": differs at byte ", p, " (authentication node ", level, ")"));
            return;
        }
        vf::eval(vf::fnv(want));
        vf::count("grown_signatures");
        if (i == n - 1) vf::count("grown_last_leaf");
    }
    if (k.getIndex() == n) vf::check(!vf::outcome([&] { k.sign(msg); }).empty(), "signs-after-the-last-leaf", [&] { return who; });
    vf::count(cat("grown_h", c.h));
}

void harness() {
    std::string part = vf::S().part;
    if (part == "every") {
        // all 2^16 ways to choose the signing indices of a 16-leaf tree; split over the first three chosen (16: none)
        int hfs = vf::scale(1, 3);
        for (int q = 0; q < hfs; q++)
            for (uint32_t a = 0; a < 16; a++)
                for (uint32_t b = a + 1; b <= 16; b++)
                    for (uint32_t c = std::min(16u, b + 1); c <= 16; c++)
                        vf::run("every-history", [&](vf::Rng &) {
                            int hf = (int) ((vf::S().seed + q) % 3);
                            struct Fix { bytes msg; ref::Key rk; std::vector<bytes> want; std::unique_ptr<FastW> k; };
                            static std::map<int, Fix> fixes;
                            Fix &f = fixes[hf];
                            if (!f.k) {
                                vf::Rng fix(vf::S().seed, 40 + q);
                                bytes seed = fix.buf(48);
                                f.msg = fix.buf(8);
                                f.rk = ref::make_key(seed, hf, 4, 2);
                                for (uint32_t i = 0; i < 16; i++) f.want.push_back(ref::sign(f.rk, i, f.msg));
                                f.k.reset(new FastW(seed, 4, hf, 2));
                            }
                            XmssFast s(*f.k);
                            std::string path;
                            for (uint32_t j : {a, b, c}) {
                                if (j == 16) break;
                                if (j != s.getIndex()) s.setIndex(j);
                                path += cat(j, ",");
                                bytes sig = s.sign(f.msg);
                                if (sig != f.want[j]) compare(sig, f.rk, j, f.want[j], "every-history " + path);
                            }
                            vf::eval(cat("every", hf, path, c));
                            vf::count("exhaustive_histories");
                            if (c < 16) explore(s, c + 1, f.rk, f.want, f.msg, path);
                        });
        return;
    }
    bool san = part == "san";
    auto random_signs = [](vf::Rng &r, int h, size_t most) {
        std::vector<uint32_t> s;
        uint32_t n = 1u << h, i = 0;
        int style = (int) r.below(6);
        while (i < n && s.size() < most) {
            uint32_t gap;
            switch (style) {
                case 0: gap = 0; break;                                         // plain signing
                case 1: gap = (uint32_t) r.below(3); break;
                case 2: gap = (uint32_t) r.below(n / 4 + 1); break;
                case 3: gap = (1u << r.below(h)) - 1; break;
                case 4: { uint32_t b = 1u << r.below(h); gap = (b - i % b) % b; if (r.chance(1, 2) && gap) gap--; break; }  // subtree boundaries
                default: gap = r.chance(1, 5) ? (uint32_t) r.below(n / 2) : 0; break;
            }
            if (i + gap >= n) { if (r.chance(1, 2)) break; gap = n - 1 - i; }
            i += gap;
            s.push_back(i++);
        }
        if (s.empty() || (s.back() != n - 1 && r.chance(1, 2))) s.push_back(n - 1);
        return s;
    };
    std::vector<std::pair<int, uint32_t>> shapes = {{4, 2}, {4, 4}, {4, 16}, {6, 2}, {6, 4}, {6, 16}, {8, 4}, {8, 16}};
    if (!san) shapes.push_back({10, 4});
    if (!san) shapes.push_back({4, 256});
    if (vf::thorough() && !san) { shapes.push_back({10, 16}); shapes.push_back({12, 4}); shapes.push_back({6, 256}); }
    for (int n = 0; n < (san ? 1 : vf::scale(2, 16)); n++)
        for (int hf = 0; hf < 3; hf++)
            for (auto &sh : shapes) {
                int keys = sh.first <= 6 ? san ? 2 : 4 : 1;
                if (sh.first >= 10 && !vf::thorough() && (n || hf != (int) (vf::S().seed % 3))) continue;
                if (n && sh.first == 8 && !vf::thorough()) continue;
                if (san && (sh.second == 2 || sh.first == 8 || (sh.first == 6 && (hf + sh.second / 4) % 3))) continue;
                vf::run("histories", [&](vf::Rng &r) {
                    Cfg c{hf, sh.first, sh.second};
                    bytes seed = seed48(r);
                    ref::Key rk = ref::make_key(seed, hf, c.h, c.w);
                    for (int q = 0; q < keys; q++) {
                        FastW k(seed, c.h, hf, c.w);
                        auto s = random_signs(r, c.h, c.h >= 8 ? 120 : 64);
                        follow(k, rk, s, r, cat(name(c), " key ", q), true);
                        if (q == 0) vf::sample(cat(name(c), " signs at ", s.size(), " indices, first ", s[0], " last ", s.back()));
                        vf::count("histories");
                    }
                });
            }
        for (int h = 8; h <= 30; h += 2)
            for (int turn = 0; turn < (san ? (h % 8 == 6) : vf::scale(7, 40)); turn++)
                vf::run("tall", [&](vf::Rng &r) {
                    if (!tall::works()) return;
                    bool wide = vf::thorough() ? turn % 10 == 9 : turn == 6 && (h / 2 + vf::S().seed) % 5 == 0;
                    uint32_t w = wide ? 256 : (turn + h / 2) % 4 == 0 ? 16 : turn % 2 ? 4 : 2;
                    uint32_t steps = san ? 4 : w == 256 ? 4 : vf::thorough() && turn % 4 == 0 ? 300 : w == 16 ? 8 : 24;
                    tall_history(r, Cfg{(int) ((vf::S().seed + turn + h / 2) % 3), h, w}, steps, turn % 10);
                });
    // trees that are really generated (cheap leaves), walked from the first index on
    struct G { int h; uint32_t most, signs; };
    std::vector<G> gs;
    if (san) gs = {{12, 600, 60}};
    else gs = {{10, 1024, 1024}, {12, 4096, 700}, {14, 16384, 500}, {16, 65536, 500}, {18, 70000, 300}};
    for (auto &g : gs)
        for (int hf = 0; hf < 3; hf++) {
            if (san && hf != 1) continue;
            vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{hf, g.h, g.h <= 14 && !san ? WS[r.below(3)] : 16}, hf == 1 ? 1u << g.h : g.most, g.signs); });
        }
    if (!san) {
        vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{1, 20, 16}, vf::scale(140000, 1 << 20), 300); });
        vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{1, 22, 16}, vf::scale(70000, 1 << 22), 200); });
        if (vf::thorough()) {
            for (int hf = 0; hf < 3; hf++) vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{hf, 20, 16}, 1 << 20, 2000); });
            vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{1, 24, 16}, 1 << 24, 2000); });
            vf::run("grown", [&](vf::Rng &r) { grown_history(r, Cfg{1, 26, 16}, 1 << 18, 500); });
        }
    }
    if (san) return;
    // plain signing through complete trees, all parameters
    for (int hf = 0; hf < 3; hf++)
        for (int h : {4, 6, 8})
            for (uint32_t w : {2u, 4u, 16u, 256u}) {
                if (w == 256 && h > 4) continue;
                if (h == 8 && !vf::thorough() && (w == 2 || hf != (int) ((vf::S().seed + 1) % 3))) continue;
                vf::run("whole-tree", [&](vf::Rng &r) {
                    Cfg c{hf, h, w};
                    bytes seed = r.buf(48);
                    ref::Key rk = ref::make_key(seed, hf, h, w);
                    FastW k(seed, h, hf, w);
                    std::vector<uint32_t> all;
                    for (uint32_t i = 0; i < (1u << h); i++) all.push_back(i);
                    follow(k, rk, all, r, name(c), false);
                    vf::count("whole_trees");
                });
            }
    // one skip from every index to every other, then sign there and at the next two
    for (uint32_t from = 0; from < 16; from++)
        vf::run("one-skip", [&](vf::Rng &r) {
            int hf = (int) r.below(3);
            bytes seed = r.buf(48);
            ref::Key rk = ref::make_key(seed, hf, 4, 4);
            for (uint32_t to = from + 1; to < 16; to++)
                for (int signfirst = 0; signfirst < 2; signfirst++) {
                    FastW k(seed, 4, hf, 4);
                    std::vector<uint32_t> s;
                    if (signfirst) for (uint32_t i = 0; i <= from; i++) s.push_back(i);
                    else s.push_back(from);
                    for (uint32_t i = to > from ? to : to + 1; i < 16 && i < to + 3; i++) s.push_back(i);
                    follow(k, rk, s, r, cat("one-skip hf", hf, " ", from, "-", to), false);
                }
        });
    // the basic signer agrees at the same index
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t w : WS)
            vf::run("basic-agrees", [&](vf::Rng &r) {
                Cfg c{hf, 4, w};
                bytes seed = seed48(r);
                auto f = make(true, seed, c), b = make(false, seed, c);
                while (true) {
                    uint32_t to = (uint32_t) (f->getIndex() + r.below(4));
                    if (to > 15) break;
                    f->setIndex(to);
                    if (b->getIndex() != to) b->setIndex(to);
                    bytes msg = r.buf(msglen(r));
                    vf::check(f->sign(msg) == b->sign(msg), "signers-disagree", [&] { return cat(name(c), " idx ", to); });
                    vf::eval(cat("agree", name(c), to));
                    vf::count("both_signers");
                }
            });
}
