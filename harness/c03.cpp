// C03: recorded histories of sign()/setIndex()/accessors are judged against the state machine
// "index only grows, stays in the tree, each index signs at most once, refusals change nothing".
#include "tall.h"
#include <algorithm>
using namespace vq;

// The index arithmetic of the base class at heights whose trees cannot be generated.
struct Probe : XmssBase {
    Probe(const bytes &seed, uint8_t h) : XmssBase(seed, h, SHAKE_128, SHA256_2X) { _sk = TKEY(132, 0); }
    TSIGNATURE sign(const TMESSAGE &) override { return {}; }
};

struct Log {  // the offline part: everything issued, in order, checked after the run
    std::vector<uint32_t> reported, carried;
    std::string history;
    void ev(const std::string &s) { if (history.size() < 2500) history += s + ";"; }
};

static uint32_t carried(const bytes &sig) {
    return (uint32_t) sig[0] << 24 | (uint32_t) sig[1] << 16 | (uint32_t) sig[2] << 8 | sig[3];
}

static uint32_t pick_index(vf::Rng &r, uint32_t cur, uint64_t n) {
    switch (r.below(16)) {
        case 0: return cur;
        case 1: case 2: return cur + 1;
        case 3: return cur + 2;
        case 4: return (uint32_t) (n - 1);
        case 5: return (uint32_t) n;
        case 6: return (uint32_t) (n + 1 + r.below(5));
        case 7: return cur ? cur - 1 : 0;
        case 8: return (uint32_t) r.below(cur + 1);
        case 9: return 0;
        case 10: return 0xffffffffu - (uint32_t) r.below(3);
        case 11: return (1u << 31) + (uint32_t) r.below(4);
        case 12: return (uint32_t) (n << r.range(1, 8)) + (uint32_t) r.below(n);  // right low bits, too high
        case 13: return (uint32_t) std::min<uint64_t>(n, ((cur >> 1) + 1ull) << 1);
        default: return cur + (uint32_t) r.below(n < 64 ? 4 : n / 16);
    }
}

// Rejects what is left of the tree quickly or slowly so that exhaustion is reached in many runs.
static void history(XmssBase &k, const Cfg &c, vf::Rng &r, const ref::Key &rk, Log &log, int ops, const char *who, bool tail) {
    const uint64_t n = 1ull << c.h;
    uint64_t model = k.getIndex();
    bytes pk = k.getPK();
    bool changed_by_refusal = false;
    auto where = [&] { return cat(who, " ", name(c), " idx=", model, " history=", log.history); };
    auto state = [&](const char *after) {
        vf::check(k.getIndex() == model, cat("index-wrong-after-", after), [&] { return cat("reports ", k.getIndex(), " ", where()); });
        vf::check((uint64_t) k.getRemainingSignatures() + k.getIndex() == n, "remaining-plus-index", where);
        vf::check(k.getNumberSignatures() == n, "number-of-signatures", where);
        vf::check(k.getSK() == rk.secret((uint32_t) model), cat("secret-key-changed-after-", after), where);
    };
    state("start");
    for (int i = 0; i < ops; i++) {
        bool close = tail && model + 4 < n && i < 2;
        if (!close && r.chance(1, 2)) {
            bytes msg = r.buf(r.below(48));
            uint32_t before = k.getIndex();
            vf::at(cat(who, " sign at ", before, " ", log.history.substr(log.history.size() > 300 ? log.history.size() - 300 : 0)));
            bytes sig;
            std::string o = vf::outcome([&] { sig = k.sign(msg); });
            if (model >= n) {
                log.ev("sign!");
                vf::check(!o.empty(), "signed-when-exhausted", [&] { return cat("index ", sig.size() >= 4 ? carried(sig) : 0, " ", where()); });
                vf::count("exhausted_refusals");
                changed_by_refusal = true;
                if (o.empty()) return;
                state("refused-sign");
            } else {
                log.ev("sign");
                if (!o.empty()) { vf::violation("refused-while-signatures-remain", o + " " + where()); return; }
                log.reported.push_back(before);
                log.carried.push_back(carried(sig));
                vf::check(carried(sig) == before, "signature-index-is-not-the-reported-one", [&] { return cat(carried(sig), " ", where()); });
                // the whole signature, so a refused call that disturbed anything is seen here
                vf::check(sig == ref::sign(rk, (uint32_t) model, msg), changed_by_refusal ? "signature-changed-after-refusal" : "signature-wrong", where);
                vf::count(changed_by_refusal ? "signatures_after_refusals" : "signatures");
                model++;
                vf::eval(vf::fnv(log.history));
                state("sign");
            }
        } else {
            uint32_t to = close ? (uint32_t) (n - 1 - r.below(3)) : pick_index(r, (uint32_t) model, n);
            vf::at(cat(who, " setIndex ", to, " from ", model));
            uint32_t ret = 0;
            std::string o = vf::outcome([&] { ret = k.setIndex(to); });
            bool legal = to >= model && to < n;
            log.ev(cat(legal ? "set" : "bad", to));
            if (legal) {
                if (!o.empty()) { vf::violation("forward-move-refused", cat(to, " ", o, " ", where())); return; }
                vf::check(ret == to, "setIndex-returns", [&] { return cat(ret, " ", where()); });
                model = to;
                vf::count("forward_moves");
                state("setIndex");
            } else {
                vf::check(!o.empty(), to < model ? "rewind-accepted" : "past-end-accepted", [&] { return cat(to, " ", where()); });
                vf::count(to < model ? "rewinds_refused" : "past_end_refused");
                changed_by_refusal = true;
                state("refused-setIndex");
            }
            vf::eval(vf::fnv(log.history));
        }
    }
    vf::check(k.getPK() == pk, "public-key-changed", where);
}

// The same state machine for trees of any height, from any index on (tall.h): short moves and signatures,
// long and impossible moves refused, the end of the tree reached.
static void tall_history(vf::Rng &r, const Cfg &c, uint32_t steps, int turn) {
    bytes seed = seed48(r);
    const uint64_t n = 1ull << c.h;
    uint32_t s = tall::place(r, c.h, steps, turn);
    auto t = tall::sparse(seed, c, s, steps);
    auto kp = tall::make(*t, seed, s);
    if (!kp) return;
    XmssBase &k = *kp;
    uint64_t model = s, end = std::min<uint64_t>(n, (uint64_t) s + steps);
    Log log;
    auto where = [&] { return cat("tall ", name(c), " idx=", model, " from ", s, " history=", log.history); };
    auto state = [&](const char *after) {
        vf::check(k.getIndex() == model, cat("index-wrong-after-", after), [&] { return cat("reports ", k.getIndex(), " ", where()); });
        vf::check((uint64_t) k.getRemainingSignatures() + k.getIndex() == n && k.getNumberSignatures() == n, "remaining-plus-index", where);
        vf::check(k.getSK() == t->secret((uint32_t) model), cat("secret-key-changed-after-", after), where);
    };
    bool refused = false;
    state("start");
    for (int i = 0; i < (int) steps * 4 && (model < end || (model == n && i < (int) steps * 4)); i++) {
        vf::at(where());
        if (r.chance(1, 2)) {
            bytes msg = r.buf(r.below(40)), sig;
            uint32_t before = k.getIndex();
            std::string o = vf::outcome([&] { sig = k.sign(msg); });
            if (model >= n) {
                log.ev("sign!");
                vf::check(!o.empty(), "signed-when-exhausted", [&] { return cat("index ", sig.size() >= 4 ? carried(sig) : 0, " ", where()); });
                if (o.empty()) return;
                vf::count("tall_exhausted_refusals");
                state("refused-sign");
                continue;
            }
            log.ev("sign");
            if (!o.empty()) { vf::violation("refused-while-signatures-remain", o + " " + where()); return; }
            log.reported.push_back(before);
            log.carried.push_back(carried(sig));
            vf::check(carried(sig) == before, "signature-index-is-not-the-reported-one", where);
            vf::check(sig == t->sign((uint32_t) model, msg), refused ? "signature-changed-after-refusal" : "signature-wrong", where);
            model++;
            vf::count("tall_signatures");
            vf::eval(cat("tall", name(c), vf::fnv(log.history), model));
            state("sign");
        } else {
            uint32_t to = r.chance(1, 3) ? (uint32_t) std::min<uint64_t>(end - 1, model + r.below(4)) : pick_index(r, (uint32_t) model, n);
            if (to >= end && to < n) to = r.chance(1, 2) ? to | 0x40000000u << r.below(2) : (uint32_t) (model ? model - 1 : 0);  // too far to walk: refuse instead
            if (to >= end && to < n) continue;
            bool legal = to >= model && to < n;
            log.ev(cat(legal ? "set" : "bad", to));
            uint32_t ret = 0;
            std::string o = vf::outcome([&] { ret = k.setIndex(to); });
            if (legal) {
                if (!o.empty()) { vf::violation("forward-move-refused", cat(to, " ", o, " ", where())); return; }
                vf::check(ret == to, "setIndex-returns", where);
                model = to;
                vf::count("tall_moves");
                state("setIndex");
            } else {
                vf::check(!o.empty(), to < model ? "rewind-accepted" : "past-end-accepted", [&] { return cat(to, " ", where()); });
                refused = true;
                vf::count(to < model ? "tall_rewinds_refused" : "tall_past_end_refused");
                state("refused-setIndex");
                if (o.empty()) return;
            }
        }
    }
    for (size_t i = 1; i < log.carried.size(); i++) vf::check(log.carried[i] > log.carried[i - 1], "index-reused-or-went-back", where);
    vf::count("tall_histories");
    vf::count(cat("tall_h", c.h));
}

static void judge_log(const Log &l, const Cfg &c, const char *who) {
    for (size_t i = 0; i < l.carried.size(); i++) {
        vf::check(l.carried[i] < (1ull << c.h), "index-outside-tree", [&] { return cat(who, " ", l.carried[i], " ", l.history); });
        if (i) vf::check(l.carried[i] > l.carried[i - 1], "index-reused-or-went-back", [&] { return cat(who, " ", l.carried[i - 1], " then ", l.carried[i], " ", l.history); });
    }
    vf::count("histories");
}

// A really generated tree of cheap leaves (tall.h), the basic signer at every carry of the index and at the end.
static void grown_basic(vf::Rng &r, Cfg c) {
    if (!tall::grows()) return;
    const uint64_t n = 1ull << c.h;
    bytes seed = seed48(r);
    ref::Key rk = ref::make_key(seed, c.hf, c.h, c.w, false);
    tall::Grow g(&rk);
    const std::string who = cat("generated basic ", name(c), " seed ", hexs(seed, 48));
    vf::at(who);
    auto k = make(false, seed, c);
    std::vector<uint32_t> starts{0};
    for (int e = 8; e <= c.h; e += 8) if ((1ull << e) < n) starts.push_back((uint32_t) (1u << e) - 1);
    if (c.h > 16) starts.push_back((3u << 16) - 1);
    starts.push_back((uint32_t) n - 1);
    for (uint32_t i : starts) {
        auto where = [&] { return cat(who, " index ", i); };
        vf::at(where());
        if (i != k->getIndex()) vf::check(k->setIndex(i) == i, "setIndex-value", where);
        for (int q = 0; q < (c.h > 16 ? 1 : 2) && i < n; q++, i++) {
            bytes sig = k->sign({1, 2});
            vf::check(sig.size() > 4 && ((uint32_t) sig[0] << 24 | (uint32_t) sig[1] << 16 | (uint32_t) sig[2] << 8 | sig[3]) == i, "issued-index", where);
            vf::check(k->getIndex() == i + 1 && k->getRemainingSignatures() == n - i - 1, "index-after-signing", [&] { return cat(where(), ": then ", k->getIndex()); });
            vf::check(k->getIndex() == 0 || !vf::outcome([&] { k->setIndex(i); }).empty(), "rewind-accepted", where);
            vf::eval(where());
            vf::count("grown_basic_signatures");
        }
    }
    vf::check(!vf::outcome([&] { k->sign({1}); }).empty() && k->getIndex() == n, "signed-when-exhausted", [&] { return who; });
}

void harness() {
    bool san = vf::S().part == "san";
    auto one = [&](const Cfg &c, int reps) {
        vf::run("history", [&](vf::Rng &r) {
            for (int q = 0; q < reps; q++) {
                bytes seed = seed48(r);
                ref::Key rk = ref::make_key(seed, c.hf, c.h, c.w);
                for (int fast = 0; fast < 2; fast++) {
                    if (!fast && c.h > 6) continue;
                    auto k = make(fast, seed, c);
                    Log log;
                    int ops = c.h == 4 ? (int) r.range(20, 60) : fast ? (int) r.range(30, 120) : 25;
                    history(*k, c, r, rk, log, ops, fast ? "fast" : "basic", r.chance(1, 2));
                    judge_log(log, c, fast ? "fast" : "basic");
                    if (q == 0) vf::sample(cat(fast ? "fast " : "basic ", name(c), " ", log.history.substr(0, 160)));
                }
            }
        });
    };
    int reps = san ? 1 : (int) vf::scale(2, 12);
    for (int n = 0; n < (san ? 3 : vf::scale(5, 60)); n++)
        for (int hf = 0; hf < 3; hf++) {
            one(Cfg{hf, 4, WS[n % 3]}, reps * 2);
            if (n % 4 == 0 && !san) one(Cfg{hf, 4, 256}, 1);
            one(Cfg{hf, 6, n % 2 ? 16u : 4u}, 1);
            if (n % 4 == 1 && !san) one(Cfg{hf, 8, 16}, 1);
            if (n % 8 == 3 && !san && vf::thorough()) one(Cfg{hf, 10, 16}, 1);
        }
    // every pair (reached index, requested index) of a small tree, both signers, then sign
    for (int hf = 0; hf < 3; hf++)
        for (int fast = 0; fast < 2; fast++)
            for (int from = 0; from <= 16; from++) {
                if (san && from % 5) continue;
                vf::run("pairs", [&](vf::Rng &r) {
                    Cfg c{hf, 4, 4};
                    bytes seed = r.buf(48);
                    ref::Key rk = ref::make_key(seed, hf, 4, 4);
                    auto k = make(fast, seed, c);
                    if (from == 16) { k->setIndex(15); k->sign({}); }
                    else if (from) k->setIndex((uint32_t) from);
                    for (uint32_t to = 0; to < 40; to++) {
                        if ((int) to >= from && to < 16) continue;
                        std::string o = vf::outcome([&] { k->setIndex(to); });
                        vf::check(!o.empty(), (int) to < from ? "rewind-accepted" : "past-end-accepted", [&] { return cat(fast, " ", from, "->", to); });
                        vf::check(k->getIndex() == (uint32_t) from && k->getSK() == rk.secret((uint32_t) from), "refused-setIndex-changed-key", [&] { return cat(fast, " ", from, "->", to); });
                        vf::eval(cat("pair", hf, fast, from, ",", to));
                    }
                    bytes sig;
                    std::string o = vf::outcome([&] { sig = k->sign({1, 2}); });
                    if (from == 16) vf::check(!o.empty(), "signed-when-exhausted", [&] { return cat(fast); });
                    else vf::check(o.empty() && sig == ref::sign(rk, (uint32_t) from, {1, 2}), "signature-changed-after-refusal", [&] { return cat(fast, " ", from, " ", o); });
                });
            }
        for (int h = 6; h <= 30; h += 2)
            for (int turn = 0; turn < (san ? (h % 8 == 6) : vf::scale(9, 60)); turn++)
                vf::run("tall", [&](vf::Rng &r) {
                    if (!tall::works()) return;
                    uint32_t w = (turn + h / 2) % 4 == 0 ? 16 : turn % 2 ? 4 : 2;
                    tall_history(r, Cfg{(int) ((vf::S().seed + turn + h / 2) % 3), h, w}, san ? 3 : w == 16 ? 5 : 10, turn % 12);
                });
    if (san) return;
    for (int h : {10, 12, 18})
        for (int hf = 0; hf < 3; hf++)
            if (h < 18 || hf == (int) (vf::S().seed % 3) || vf::thorough()) vf::run("grown-basic", [&](vf::Rng &r) { grown_basic(r, Cfg{hf, h, 4}); });
    // the whole range of indices: heights 4..30
    for (int h = 4; h <= 30; h += 2)
        vf::run("probe", [&](vf::Rng &r) {
            for (int q = 0; q < 200; q++) {
                Probe p(r.buf(48), (uint8_t) h);
                uint64_t n = 1ull << h, model = 0;
                for (int i = 0; i < 40; i++) {
                    uint32_t to = r.chance(1, 3) ? (uint32_t) std::min<uint64_t>(0xffffffffull, model + (1ull << r.below(h + 1)))
                                                 : pick_index(r, (uint32_t) model, n);
                    if (r.chance(1, 6)) to = (uint32_t) ((model & ~0xffull) + r.below(256));
                    std::string o = vf::outcome([&] { p.setIndex(to); });
                    bool legal = to >= model && to < n;
                    if (legal) model = to;
                    vf::check(o.empty() == legal, legal ? "forward-move-refused" : to >= n ? "past-end-accepted" : "rewind-accepted", [&] { return cat("h=", h, " at ", model, " to ", to); });
                    vf::check(p.getIndex() == model && (uint64_t) p.getRemainingSignatures() + model == n, "index-wrong-after-setIndex", [&] { return cat("h=", h, " reports ", p.getIndex(), " expected ", model); });
                    vf::eval(cat("probe", h, ",", model, ",", to));
                    vf::count("probe_moves");
                }
            }
        });
}
