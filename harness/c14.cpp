// C14: concurrent pool workloads; each thread logs its calls with logical times, and an offline
// checker decides exactly-once issue, real-time order and the counter bounds. TSan watches the accesses;
// in the plain build the mutex is interposed to stretch its critical sections.
#include "qrl.h"
#include "xmssPool.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <algorithm>
using namespace vq;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define WITH_TSAN 1
#endif
#endif
static std::atomic<int> DELAY{0};           // 0 none, else a pattern of delays around lock operations
static std::atomic<uint64_t> LOCKS{0};
static thread_local uint64_t tl_rng = 0;
static std::atomic<uint64_t> tl_seed{1};
static void maybe_pause() {
    int d = DELAY.load(std::memory_order_relaxed);
    if (!d) return;
    if (!tl_rng) tl_rng = vf::Rng::mix(tl_seed.fetch_add(1, std::memory_order_relaxed) * 7919 + d);
    tl_rng = vf::Rng::mix(tl_rng);
    if (tl_rng % 3 == 0) sched_yield();
    else if (tl_rng % 5 == 0) { struct timespec t = {0, (long) (tl_rng >> 20) % (20000 * d)}; nanosleep(&t, nullptr); }
}
#ifndef WITH_TSAN
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    maybe_pause();
    int r = real(m);
    LOCKS.fetch_add(1, std::memory_order_relaxed);
    maybe_pause();
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    maybe_pause();
    return r;
}
#endif

static bytes tree_seed(const bytes &base, uint64_t index) {
    bytes s = base;
    for (uint64_t i = index + 1; i > 0; i >>= 8) s.push_back((uint8_t) i);
    return ref::shake256(s, 48);
}
struct Ev { int thread; char op; uint64_t t0, t1; uint64_t value; std::shared_ptr<XmssFast> key; std::string err; };

static void episode(vf::Rng &r, int threads, int ops, int h, uint64_t start, size_t size, bool take_only, bool tsan) {
    bytes base = r.buf(48);
    std::string what = cat("threads=", threads, " ops=", ops, " h=", h, " start=", start, " pool=", size, " seed=", hexs(base, 48));
    vf::at(what);
    DELAY = tsan ? 0 : (int) r.below(4);
    std::vector<std::vector<Ev>> logs(threads);
    std::atomic<uint64_t> clock{1};
    std::atomic<int> ready{0};
    std::unique_ptr<XmssPool> pool(new XmssPool(base, (unsigned char) h, start, size));
    auto stamp = [&] { return tsan ? clock.fetch_add(1, std::memory_order_relaxed) : clock.fetch_add(1); };
    std::vector<uint64_t> seeds(threads);
    for (auto &s : seeds) s = r.next();
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++)
            ts.emplace_back([&, t] {
                vf::Rng q(seeds[t], t);
                auto &log = logs[t];
                ready++;
                while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
                for (int i = 0; i < ops; i++) {
                    Ev e{t, 'n', 0, 0, 0, nullptr, ""};
                    int k = take_only ? 0 : (int) q.below(5);
                    e.op = k < 2 ? 'n' : k == 2 ? 'a' : 'i';
                    e.t0 = stamp();
                    if (e.op == 'n') e.err = vf::outcome([&] { e.key = pool->getNextTree(); });
                    else if (e.op == 'a') e.err = vf::outcome([&] { e.value = pool->isAvailable(); });
                    else e.err = vf::outcome([&] { e.value = pool->getCurrentIndex(); });
                    e.t1 = stamp();
                    log.push_back(std::move(e));
                    if (q.chance(1, 6)) { struct timespec w = {0, (long) q.below(3000000)}; nanosleep(&w, nullptr); }
                }
            });
        for (auto &t : ts) t.join();
    }
    DELAY = 0;
    uint64_t last = pool->getCurrentIndex();
    // offline checker
    std::vector<Ev *> take, reads;
    std::string order;
    std::vector<Ev *> all;
    for (auto &l : logs) for (auto &e : l) all.push_back(&e);
    std::sort(all.begin(), all.end(), [](Ev *a, Ev *b) { return a->t0 < b->t0; });
    for (auto e : all) {
        order += cat(e->thread, e->op, " ");
        if (!e->err.empty()) vf::violation("call-raised", what + cat(" ", e->op, ": ", e->err));
        else if (e->op == 'n') take.push_back(e);
        else if (e->op == 'i') reads.push_back(e);
        else { if (size == 0 && e->value) vf::violation("empty-pool-available", what); vf::count(e->value ? "available" : "not_available"); }
    }
    uint64_t n = take.size();
    if (last != start + n) vf::violation("index-count", cat(what, ": ", n, " keys issued, current index ", last));
    std::map<bytes, uint64_t> which;
    for (uint64_t i = 0; i < n + size + 4; i++) which[tree_seed(base, start + i)] = start + i;
    for (uint64_t i = 1; i <= 4 && i <= start; i++) which[tree_seed(base, start - i)] = start - i;
    std::map<uint64_t, int> issued;
    std::set<XmssFast *> objects;
    for (auto e : take) {
        if (!e->key) { vf::violation("null-key", what); continue; }
        if (!objects.insert(e->key.get()).second) vf::violation("same-object-twice", what);
        bytes sd = e->key->getSeed();
        auto it = which.find(sd);
        if (it == which.end()) { vf::violation("foreign-key-issued", what + " seed=" + hexs(sd, 48)); continue; }
        e->value = it->second;
        if (issued[e->value]++) vf::violation("index-issued-twice", cat(what, " index ", e->value));
        if (e->value < start || e->value >= start + n) vf::violation("index-out-of-order", cat(what, " index ", e->value, " of ", n, " issued"));
        vf::eval(vf::fnv(sd, e->value));
        vf::count("keys_issued");
    }
    for (uint64_t i = start; i < start + n; i++) if (!issued.count(i)) vf::violation("index-skipped", cat(what, " index ", i));
    // the keys themselves
    size_t judged = 0;
    for (auto e : take) {
        if (!e->key || judged >= (tsan ? 6u : 24u)) continue;
        judged++;
        ref::Key k = ref::make_key(e->key->getSeed(), ref::SHAKE_128, h, 16);
        if (e->key->getSK() != k.secret(0) || e->key->getPK() != k.epk()) vf::violation("issued-key-altered", cat(what, " index ", e->value));
        bytes m = {1, 2, 3};
        if (e->key->sign(m) != ref::sign(k, 0, m)) vf::violation("issued-key-signs-wrongly", cat(what, " index ", e->value));
        vf::evals(2);
        vf::count("keys_judged");
    }
    // real-time order of claims, and of counter readings against claims
    for (auto a : take) for (auto b : take) if (a->t1 < b->t0 && a->key && b->key && a->value >= b->value) vf::violation("claims-out-of-real-time-order", cat(what, " ", a->value, " before ", b->value));
    for (auto x : reads) {
        uint64_t done = 0, begun = 0;
        for (auto e : take) { done += e->t1 < x->t0; begun += e->t0 < x->t1; }
        if (x->value < start + done || x->value > start + begun) vf::violation("current-index-wrong", cat(what, ": read ", x->value, " with ", done, " claims finished and ", begun, " begun"));
        for (auto y : reads) if (x->t1 < y->t0 && x->value > y->value) vf::violation("current-index-decreased", what);
        vf::evals(1);
        vf::count("index_reads");
    }
    vf::eval(vf::fnv(order));   // distinct interleavings of call starts
    vf::count("interleavings_logged");
    size_t overlaps = 0;
    for (size_t i = 1; i < all.size(); i++) overlaps += all[i]->t0 < all[i - 1]->t1 && all[i]->thread != all[i - 1]->thread;
    vf::count("overlapping_calls", overlaps);
    vf::sample(what.substr(0, 60) + " order " + order.substr(0, 150));
    if (r.chance(1, 2)) take.clear();
    pool.reset();
    for (auto &l : logs) for (auto &e : l) if (e.key && r.chance(1, 8) && e.key->getIndex() > 16) vf::violation("key-changed-with-pool", what);
}

void harness() {
    const bool tsan = vf::S().part == "tsan";
    static const std::vector<uint64_t> STARTS = {0, 0, 1, 253, 254, 255, 256, 65533, 65534, 65535, 0xfffffffdull, 0xffffffffull, 1ull << 40, (1ull << 56) - 3};
    for (int n = 0; n < vf::scale(tsan ? 30 : 110, tsan ? 400 : 1500); n++)
        vf::run("concurrent", [&](vf::Rng &r) {
            int threads = n % 4 == 0 ? (int) r.range(8, 16) : (int) r.range(2, 7);
            size_t size = r.chance(1, 5) ? 0 : r.chance(1, 3) ? r.range(1, 2) : r.range(1, 9);
            episode(r, threads, tsan ? (int) r.range(3, 8) : (int) r.range(4, 14), r.chance(1, 12) && !tsan ? 6 : 4, r.pick(STARTS), size, r.chance(1, 3), tsan);
        });
    // one caller: the plain sequence, every pool size
    for (size_t size = 0; size < 8; size++)
        vf::run("sequential", [&](vf::Rng &r) {
            episode(r, 1, tsan ? 4 : 12, 4, r.pick(STARTS), size, true, tsan);
            bytes base = r.buf(48);
            uint64_t start = r.pick(STARTS);
            XmssPool p(base, 4, start, size);
            for (uint64_t i = 0; i < (tsan ? 2 : 4); i++) {
                if (p.getCurrentIndex() != start + i) vf::violation("index-before-claim", cat(start + i));
                auto k = p.getNextTree();
                if (k->getSeed() != tree_seed(base, start + i)) vf::violation("wrong-tree", cat("start ", start, " call ", i));
                vf::eval(cat("seq ", size, start, i));
                vf::count("sequential_claims");
            }
        });
    // pools that overlap in base seed and indices, alive at once and one after the other: every key is its caller's alone
    for (int n = 0; n < (tsan ? 2 : vf::scale(12, 80)); n++)
        vf::run("overlapping-pools", [&](vf::Rng &r) {
            bytes base = r.buf(48);
            uint64_t start = r.pick(STARTS), off = r.below(3);
            const size_t many = tsan ? 2 : 4;
            auto a = std::make_unique<XmssPool>(base, 4, start, r.below(4)), b = std::make_unique<XmssPool>(base, 4, start + off, r.below(4));
            std::vector<std::pair<uint64_t, std::shared_ptr<XmssFast>>> keys;
            uint64_t na = start, nb = start + off;
            for (size_t i = 0; i < many; i++) {
                keys.emplace_back(na++, a->getNextTree());
                if (r.chance(1, 3)) { keys.back().second->sign({1}); keys.back().second->setIndex((uint32_t) r.range(1, 15)); }
                keys.emplace_back(nb++, b->getNextTree());
            }
            if (r.chance(1, 2)) a.reset();
            XmssPool again(base, 4, start, r.below(3));   // reopened while the earlier keys live
            for (size_t i = 0; i < 2; i++) keys.emplace_back(start + i, again.getNextTree());
            std::vector<uint32_t> at;
            for (size_t i = 0; i < keys.size(); i++) {
                for (size_t j = 0; j < i; j++) if (keys[i].second == keys[j].second) vf::violation("tree-handed-out-twice", cat("overlapping pools, index ", keys[i].first, " to two callers"));
                if (keys[i].second->getSeed() != tree_seed(base, keys[i].first)) vf::violation("wrong-tree", cat("overlapping pools, index ", keys[i].first));
                at.push_back(keys[i].second->getIndex());
                if (i % 2 && at[i] != 0) vf::violation("tree-not-fresh", cat("overlapping pools, index ", keys[i].first, " at ", at[i]));
            }
            for (size_t i = keys.size() - 2; i < keys.size(); i++) if (at[i] != 0) vf::violation("tree-not-fresh", cat("reopened pool, index ", keys[i].first, " at ", at[i]));
            size_t used = r.below(keys.size());
            if (at[used] < 15) keys[used].second->setIndex((uint32_t) r.range(at[used] + 1, 15));
            for (size_t i = 0; i < keys.size(); i++) if (i != used && keys[i].second->getIndex() != at[i]) vf::violation("trees-share-state", cat("overlapping pools, index ", keys[i].first));
            vf::evals(keys.size());
            vf::eval(vf::fnv(base, start + off));
            vf::count("overlapping_pools");
        });
    // base seeds of other lengths still give distinct, defined trees
    vf::run("base-seeds", [&](vf::Rng &r) {
        for (size_t len : {0u, 1u, 32u, 47u, 49u, 51u, 200u}) {
            bytes base = r.buf(len);
            XmssPool p(base, 4, 7, 1);
            for (int i = 0; i < 2; i++) if (p.getNextTree()->getSeed() != tree_seed(base, 7 + i)) vf::violation("wrong-tree", cat("base of ", len, " bytes"));
            vf::eval(cat("base ", len));
        }
    });
    vf::run("published", [&](vf::Rng &) {
        // public keys published with the upstream test suite (zero seed, height 6)
        static const char *PK[] = {"0103002cdddec48985cc9acd9d970781782a1c5f1000ee464370b79a8639dc669defb803eb90b52a39a2be669053476fa1bb3eb8d9514c432eb9bd1e4a78b36d271d7e",
                                   "010300e76e8a65bd7df657e91b95a9895baebbca7f003e3ab8ae6e7bcf6edc0d48f212551a7d78a5df848aa9808f39e669817362e0870178c1a70c1e835b6daa0b3d91",
                                   "01030087eb6f611bd88cf08f7948995216661e01fce87f9dcff14d58858e8770422c69691d6ce737e816c44bc21e8e7e422e8068af1d8bfb89a05db98e822178352d63"};
        XmssPool p(bytes(48, 0), 6, 0, 2);
        for (int i = 0; i < 3; i++) if (ref::hex(p.getNextTree()->getPK()) != PK[i]) vf::violation("published-tree-changed", cat(i));
        vf::eval("published");
        vf::count("published");
    });
    vf::count("max_lock_operations", 0);
    if (!tsan) vf::count("lock_operations", LOCKS.load());
}
