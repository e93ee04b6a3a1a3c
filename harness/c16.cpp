// C16: threads with their own keys and threads calling stateless functions, all at once. Expected
// results come from the reference (computed beforehand, so the library's first use is concurrent). TSan
// watches the accesses; the threads share nothing but a start signal.
#include "qrl.h"
#include "xmssPool.h"
#include "xmss-alt/fips202.h"
#include "shasha/shasha.h"
#include <sched.h>
#include <thread>
using namespace vq;

struct Job { std::string kind; std::function<std::string()> go; };   // "" when right, else what was wrong

static std::string same(const bytes &got, const bytes &want) { return got == want ? "" : "got " + hexs(got) + " want " + hexs(want); }

static Job job(vf::Rng &r, int kind, bool tsan) {
    switch (kind) {
        case 0: {  // a key's whole life
            Cfg c{(int) r.below(3), 4, WS[r.below(tsan ? 3 : 4)]};
            if (c.w == 256 && !r.chance(1, 4)) c.w = 16;
            bytes seed = r.buf(48), msg = r.buf(r.below(300));
            bool fast = r.chance(2, 3);
            uint32_t skip = (uint32_t) r.below(13);
            ref::Key k = ref::make_key(seed, c.hf, c.h, c.w);
            bytes pk = k.epk(), s0 = ref::sign(k, 0, msg), s1 = ref::sign(k, 1 + skip, msg), s2 = ref::sign(k, 2 + skip, {});
            return {cat("key-", fast ? "fast-" : "basic-", HFN[c.hf], "-w", c.w), [=] {
                auto x = make(fast, seed, c);
                std::string e = same(x->getPK(), pk);
                if (e.empty()) e = same(x->sign(msg), s0);
                x->setIndex(1 + skip);
                if (e.empty()) e = same(x->sign(msg), s1);
                if (e.empty()) e = same(x->sign({}), s2);
                if (e.empty()) e = same(x->getAddress(), ref::address(pk));
                bytes es = x->getExtendedSeed();
                if (e.empty()) e = same(bytes(es.begin() + 3, es.end()), seed);
                return e; }}; }
        case 1: {
            Cfg c{(int) r.below(3), (int) (2 * r.range(2, 15)), WS[r.below(3)]};
            std::vector<ref::n32> auth(c.h);
            for (auto &a : auth) a = r.n32();
            uint32_t idx = (uint32_t) r.below(1ull << c.h);
            ref::Key k = ref::fabricate(c.hf, c.h, c.w, r.n32(), r.n32(), r.n32(), idx, auth);
            bytes msg = r.buf(r.below(400)), sig = ref::sign_with(k, idx, msg, auth), pk = k.epk(), bad = sig;
            bad[r.below(bad.size())] ^= 4;
            bool badok = ref::verify(msg, bad, pk, c.w);
            return {cat("verify-", HFN[c.hf], "-w", c.w), [=] {
                if (!XmssBase::verify(msg, sig, pk, c.w)) return std::string("genuine signature rejected");
                if (XmssBase::verify(msg, bad, pk, c.w) != badok) return std::string("damaged signature misjudged");
                return std::string(); }}; }
        case 2: {
            bytes in = r.buf(r.below(2000));
            size_t n = r.below(900);
            bytes a = ref::shake128(in, n), b = ref::shake256(in, n), c = ref::sha256(in), d = ref::sha256(ref::sha256(c));
            return {"hash", [=] {
                std::string e = same(shake128(n, in), a);
                if (e.empty()) e = same(shake256(n, in), b);
                if (e.empty()) e = same(sha2_256(in), c);
                if (e.empty()) e = same(sha2_256_n(in, 3), d);
                bytes o(n), o2(32), i2 = in;
                shake256(o.data(), n, i2.data(), i2.size());
                sha2_256(o2.data(), i2.data(), i2.size());
                if (e.empty()) e = same(o, b);
                if (e.empty()) e = same(o2, c);
                return e; }}; }
        case 3: {
            bytes b = r.buf(3 * r.below(20));
            std::string h = ref::hex(b), m = ref::mnemonic(b), bad = m + " notaword aback";
            return {"text", [=] {
                if (bin2hstr(b) != h) return std::string("hex");
                if (bin2mnemonic(b) != m) return std::string("mnemonic");
                std::string e = same(hstr2bin(h), b);
                if (e.empty()) e = same(mnemonic2bin(m), b);
                if (vf::outcome([&] { mnemonic2bin(bad); }) != "invalid_argument") e = "bad word accepted";
                if (vf::outcome([&] { hstr2bin("0g"); }) != "invalid_argument") e = "bad hex accepted";
                return e; }}; }
        case 4: {
            bytes pk = r.buf(67);
            pk[0] = (uint8_t) r.below(3); pk[1] = (uint8_t) r.below(16);
            bytes a = ref::address(pk), w = a;
            w[r.below(39)] ^= 1;
            bool wok = ref::address_valid(w);
            return {"address", [=] {
                std::string e = same(QRLHelper::getAddress(pk), a);
                if (!QRLHelper::addressIsValid(a)) e = "valid address rejected";
                if (QRLHelper::addressIsValid(w) != wok) e = "damaged address misjudged";
                auto d = QRLDescriptor::fromExtendedPK(pk);
                if (d.getHeight() != 2 * pk[1] || d.getHashFunction() != HF[pk[0]]) e = "descriptor";
                if (vf::outcome([&] { QRLDescriptor::fromBytes({0x1f, 0, 0}); }) != "invalid_argument") e = "unknown descriptor accepted";
                return e; }}; }
        case 5: {
            bytes s = r.buf(r.below(80));
            uint32_t shift = (uint32_t) r.next(), n = (uint32_t) r.below(6);
            std::vector<bytes> want;
            for (uint32_t i = 0; i < n; i++) {
                bytes t = s;
                for (int q = 0; q < 4; q++) t.push_back((uint8_t) (shift >> (8 * q)));
                for (int q = 0; q < 4; q++) t.push_back((uint8_t) (i >> (8 * q)));
                want.push_back(ref::shake256(t, 32));
            }
            return {"seeds", [=] {
                if (getHashChainSeed(s, shift, n) != want) return std::string("hash chain seeds");
                bytes a = getRandomSeed(48, "x"), b = getRandomSeed(48, "x");
                if (a.size() != 48 || a == b) return std::string("random seeds");
                return std::string(); }}; }
        case 6: {
            uint32_t w = WS[r.below(4)];
            uint64_t base = ref::sig_base_size(w), h = r.below(255);
            return {"sizes", [=] {
                if (XmssBase::calculateSignatureBaseSize(w) != base) return std::string("base size");
                if (XmssBase::getHeightFromSigSize(base + 32 * h, w) != h) return std::string("height");
                if (vf::outcome([&] { XmssBase::getHeightFromSigSize(base + 32 * h + 1, w); }) != "invalid_argument") return std::string("bad size accepted");
                if (vf::outcome([&] { XmssBase::calculateSignatureBaseSize(w + 1); }) != "invalid_argument") return std::string("bad W accepted");
                return std::string(); }}; }
        case 7: {
            bytes base = r.buf(48), t = base;
            t.push_back(1);
            bytes want = ref::shake256(t, 48);
            size_t size = r.below(3);
            return {"pool", [=] {
                XmssPool p(base, 4, 0, size);
                p.isAvailable();
                auto k = p.getNextTree();
                if (p.getCurrentIndex() != 1) return std::string("pool index");
                return same(k->getSeed(), want); }}; }
        default: {
            bytes bad = r.buf(r.below(51));
            return {"refusals", [=] {
                std::string e;
                for (int i = 0; i < 2; i++) {
                    if (vf::outcome([&] { XmssFast k(bad); }) != "invalid_argument") e = "bad extended seed accepted";
                    if (vf::outcome([&] { XmssFast k(bytes(48, 1), 5); }) != "invalid_argument") e = "odd height accepted";
                    if (vf::outcome([&] { XmssBasic k(bytes(48, 1), 4, SHAKE_128, SHA256_2X, 5); }) != "invalid_argument") e = "W accepted";
                    if (XmssBase::verify(bad, bad, bad)) e = "garbage verified";
                }
                return e; }}; }
    }
}

static void episode(vf::Rng &r, int threads, int per, bool tsan, int first) {
    std::vector<std::vector<Job>> jobs(threads);
    std::string mix;
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = i == 0 && first >= 0 ? (t % 2 ? first : (int) r.below(9)) : (int) (r.chance(1, 3) ? r.below(3) : r.below(9));
            jobs[t].push_back(job(r, k, tsan));
            mix += jobs[t].back().kind + " ";
        }
    vf::at(mix.substr(0, 700));
    // a pair of equal jobs on different threads as well
    jobs[threads - 1].front() = jobs[0].front();
    std::vector<std::vector<std::string>> out(threads);
    for (int t = 0; t < threads; t++) out[t].resize(per);
    std::atomic<int> ready{0};
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++)
            ts.emplace_back([&, t] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) sched_yield();   // relaxed: orders nothing for TSan
                for (int i = 0; i < per; i++) {
                    std::string e;
                    std::string o = vf::outcome([&] { e = jobs[t][i].go(); });
                    out[t][i] = o.empty() ? e : "raised " + o;
                }
            });
        for (auto &t : ts) t.join();
    }
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            const std::string &k = jobs[t][i].kind;
            if (!out[t][i].empty()) vf::violation("wrong-when-concurrent:" + k.substr(0, k.find('-')), k + ": " + out[t][i] + " among " + mix.substr(0, 500));
            vf::eval(vf::fnv(k.data(), k.size(), vf::fnv(mix) + t * 100 + i));
            vf::count("results_" + k.substr(0, k.find('-')));
        }
    vf::count("episodes");
    vf::sample(mix.substr(0, 200));
}

void harness() {
    const bool tsan = vf::S().part == "tsan";
    words();
    for (int n = 0; n < vf::scale(tsan ? 72 : 48, tsan ? 600 : 1200); n++)
        vf::run("mixed", [&](vf::Rng &r) {
            int first = vf::S().shard % 9;
            episode(r, tsan ? (int) r.range(3, 8) : (int) r.range(4, 16), tsan ? 3 : 5, tsan, n < vf::S().shards ? first : -1);
        });
    // one kind everywhere
    for (int k = 0; k < 9; k++)
        vf::run("same", [&](vf::Rng &r) {
            int threads = 6;
            std::vector<Job> js;
            for (int t = 0; t < threads; t++) js.push_back(job(r, k, tsan));
            std::atomic<int> ready{0};
            std::vector<std::string> out(threads);
            std::vector<std::thread> ts;
            int reps = k == 0 || k == 7 ? 1 : tsan ? 4 : 20;
            for (int t = 0; t < threads; t++)
                ts.emplace_back([&, t] {
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
                    for (int i = 0; i < reps && out[t].empty(); i++) {
                        std::string e, o = vf::outcome([&] { e = js[t].go(); });
                        out[t] = o.empty() ? e : "raised " + o;
                    }
                });
            for (auto &t : ts) t.join();
            for (int t = 0; t < threads; t++) {
                if (!out[t].empty()) vf::violation("wrong-when-concurrent:" + js[t].kind.substr(0, js[t].kind.find('-')), js[t].kind + ": " + out[t]);
                vf::eval(cat("same ", js[t].kind, t, vf::S().shard));
                vf::count("results_same_kind");
            }
        });
}
