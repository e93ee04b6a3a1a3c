// C15: progress, shutdown and failure of the pool. Worker threads start through an interposed
// pthread_create, which can hold each of them back or refuse to create it; allocations can fail in workers and in
// callers. Progress is judged by bounded waits, everything else by the log of issued trees.
#include "tall.h"
#include "xmssPool.h"
#include <condition_variable>
#include <dlfcn.h>
#include <errno.h>
#include <future>
#include <mutex>
#include <new>
#include <pthread.h>
#include <thread>
using namespace vq;

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define SANITIZED 1
#endif
#endif

// ---- the stage: worker threads created while `on` belong to the pool
struct Stage {
    std::mutex mu;
    std::condition_variable cv;
    bool on = false, hold = false;
    std::set<int> released;         // with hold: which workers may run
    std::set<int> fail;             // creations refused (EAGAIN)
    bool fail_all = false;
    int created = 0, refused = 0, running = 0, finished = 0, attempts = 0;
    int alloc_fail_every = 0;       // plain build: some allocations of workers fail
};
static Stage *ST = new Stage;
static thread_local bool tl_worker = false, tl_outside = false;
static thread_local long tl_allocs = 0, tl_fail_at = 0;
static std::atomic<uint64_t> INJECTED{0}, ALLOC_SEED{1};
static std::atomic<int> ALLOC_FAIL{0};

struct Start { void *(*f)(void *); void *arg; int id; };
static void *worker_main(void *p) {
    Start s = *(Start *) p;
    delete (Start *) p;
    tl_worker = true;
    {
        std::unique_lock<std::mutex> l(ST->mu);
        ST->cv.wait(l, [&] { return !ST->hold || ST->released.count(s.id); });
        ST->running++;
    }
    tl_allocs = 0;
    int af = ALLOC_FAIL.load();
    if (af) { uint64_t x = vf::Rng::mix(ALLOC_SEED++); tl_fail_at = x % 2 ? 0 : (long) (1 + (x >> 8) % (uint64_t) af); }
    void *r = s.f(s.arg);
    tl_fail_at = 0;
    {
        std::lock_guard<std::mutex> l(ST->mu);
        ST->finished++;
    }
    return r;
}
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
#ifdef SANITIZED
extern "C" int __interceptor_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int real_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { return __interceptor_pthread_create(t, a, f, x); }
#else
static int real_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (create_t) dlsym(RTLD_NEXT, "pthread_create");
    return real(t, a, f, x);
}
#endif
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (!ST || tl_outside) return real_create(t, a, f, x);
    Start *s;
    {
        std::lock_guard<std::mutex> l(ST->mu);
        if (!ST->on) s = nullptr;
        else {
            int id = ST->attempts++;
            if (ST->fail_all || ST->fail.count(id)) { ST->refused++; INJECTED++; return EAGAIN; }
            ST->created++;
            s = new Start{f, x, id};
        }
    }
    if (!s) return real_create(t, a, f, x);
    int r = real_create(t, a, worker_main, s);
    if (r) delete s;
    return r;
}
#ifndef SANITIZED
static void *counted(size_t n) {
    if (tl_fail_at > 0 && ++tl_allocs == tl_fail_at) { INJECTED++; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return counted(n); }
void *operator new[](size_t n) { return counted(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
// threads of ours, outside the stage
struct Thread {
    std::thread t;
    template <class F> explicit Thread(F f) { tl_outside = true; try { t = std::thread(f); } catch (...) { tl_outside = false; throw; } tl_outside = false; }
    ~Thread() { if (t.joinable()) t.join(); }
};
static void stage(bool on, bool hold = false) {
    std::lock_guard<std::mutex> l(ST->mu);
    ST->on = on;
    ST->hold = hold;
    ST->released.clear();
    ST->fail.clear();
    ST->fail_all = false;
    ST->created = ST->refused = ST->running = ST->finished = ST->attempts = 0;
    ST->cv.notify_all();
}
static void release(int id) { std::lock_guard<std::mutex> l(ST->mu); ST->released.insert(id); ST->cv.notify_all(); }
static void open_all() { std::lock_guard<std::mutex> l(ST->mu); ST->hold = false; ST->cv.notify_all(); }
static int attempts() { std::lock_guard<std::mutex> l(ST->mu); return ST->attempts; }

static const int LIMIT_MS = 40000;   // "returns once its own tree is ready": a tree takes some 20 ms
struct Result { std::shared_ptr<XmssFast> key; std::string err; };
// a call on another thread, with a bounded wait
struct Async {
    std::shared_ptr<std::promise<Result>> p = std::make_shared<std::promise<Result>>();
    std::future<Result> f = p->get_future();
    std::unique_ptr<Thread> t;
    explicit Async(std::function<std::shared_ptr<XmssFast>()> g) {
        auto q = p;
        t.reset(new Thread([q, g] { Result r; r.err = vf::outcome([&] { r.key = g(); }); q->set_value(std::move(r)); }));
    }
    bool done(int ms) { return f.wait_for(std::chrono::milliseconds(ms)) == std::future_status::ready; }
};
static bool wait_for(const std::function<bool()> &f, int ms = LIMIT_MS) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (!f()) {
        if (std::chrono::steady_clock::now() > end) return f();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    return true;
}
static bytes tree_seed(const bytes &base, uint64_t index) {
    bytes s = base;
    for (uint64_t i = index + 1; i > 0; i >>= 8) s.push_back((uint8_t) i);
    return ref::shake256(s, 48);
}
static int64_t index_of(const bytes &base, uint64_t start, const std::shared_ptr<XmssFast> &k, int span = 64) {
    if (!k) return -1;
    for (int i = 0; i < span; i++) if (k->getSeed() == tree_seed(base, start + i)) return i;
    return -1;
}

// Workers held back in every pattern: a caller whose tree is ready gets it; nobody else's tree matters.
static void gated(vf::Rng &r, bool san) {
    bytes base = r.buf(48);
    uint64_t start = r.below(1000);
    int size = (int) r.range(2, 5);
    std::string what = cat("gated pool=", size, " start=", start);
    vf::at(what);
    stage(true, true);
    std::unique_ptr<XmssPool> pool(new XmssPool(base, 4, start, size));
    bool workers = wait_for([&] { return attempts() >= size; }, 3000);
    if (!workers) {  // a pool that does not use one worker per tree: nothing to hold back
        open_all();
        vf::count("ungated_pools");
        pool.reset();
        stage(false);
        return;
    }
    // nothing is ready: isAvailable says so and does not wait
    std::atomic<int> quick{0};
    Thread probe([&] { if (pool->isAvailable()) vf::violation("available-before-ready", what); pool->getCurrentIndex(); quick = 1; });
    if (!wait_for([&] { return quick == 1; })) { vf::violation("probe-blocked", what + ": isAvailable waited for a held-back tree"); open_all(); }
    // callers claim 0 .. size-1 one after the other; tree `late` is never ready until the end
    int late = (int) r.below(size);
    std::vector<std::unique_ptr<Async>> calls;
    for (int i = 0; i < size; i++) {
        calls.emplace_back(new Async([&] { return pool->getNextTree(); }));
        uint64_t want = start + i + 1;
        if (!wait_for([&] { return pool->getCurrentIndex() >= want; })) vf::violation("claim-waits-for-other-trees", cat(what, ": call ", i, " did not claim while earlier trees were held back"));
    }
    if (pool->isAvailable()) vf::violation("available-before-ready", what + " after claims");
    std::vector<int> order;
    for (int i = 0; i < size; i++) if (i != late) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (int i : order) {
        release(i);
        if (!calls[i]->done(LIMIT_MS)) vf::violation("ready-tree-not-delivered", cat(what, ": tree ", i, " released, the call that claimed it is still waiting (tree ", late, " held back)"));
        vf::eval(cat("gated ", size, " ", late, " ", i));
        vf::count("released_out_of_order");
    }
    if (calls[late]->done(0)) vf::count("late_tree_was_ready_early");
    // later claims are not held up by the late tree either
    {
        int n = attempts();
        for (int i = size; i < n; i++) release(i);
        Async extra([&] { return pool->getNextTree(); });
        for (int i = 0; i < 200 && !extra.done(20); i++) { int m = attempts(); for (; n < m; n++) release(n); }
        if (!extra.done(LIMIT_MS)) { vf::violation("later-call-waits-for-earlier-tree", what); open_all(); }
        Result x = extra.f.get();
        if (index_of(base, start, x.key) != size) vf::violation("wrong-tree-after-gating", cat(what, " ", x.err));
    }
    release(late);
    open_all();
    for (int i = 0; i < size; i++) {
        if (!calls[i]->done(LIMIT_MS)) { vf::violation("call-never-returned", cat(what, " call ", i)); _exit(1); }
        Result x = calls[i]->f.get();
        if (!x.err.empty() || index_of(base, start, x.key) != i) vf::violation("wrong-tree-after-gating", cat(what, " call ", i, " ", x.err));
        vf::evals(1);
    }
    if (!wait_for([&] { return pool->isAvailable(); })) vf::violation("ready-tree-never-available", what);
    pool.reset();
    vf::count("gated_pools");
    vf::sample(what + cat(" late=", late));
    stage(false);
}
// Pools destroyed at every stage of their life.
static void destroyed(vf::Rng &r, bool san) {
    bytes base = r.buf(48);
    int size = (int) r.below(7), mode = (int) r.below(6);
    std::string what = cat("destroy pool=", size, " mode=", mode);
    vf::at(what);
    stage(true, mode == 1 || mode == 2);
    std::vector<std::shared_ptr<XmssFast>> kept;
    std::atomic<int> gone{0};
    {
        auto pool = std::make_shared<XmssPool>(base, 4, 5, size);
        std::unique_ptr<Thread> helper;
        if (mode == 1 || mode == 2) helper.reset(new Thread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(mode == 1 ? 1 : 15)); open_all(); }));
        if (mode == 3) std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
        if (mode == 4) for (int i = 0; i < 3; i++) kept.push_back(pool->getNextTree());
        if (mode == 5) for (int i = 0; i < 20 && !pool->isAvailable(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(2));
        Thread killer([&] { pool.reset(); gone = 1; });
        if (!wait_for([&] { return gone == 1; })) { vf::violation("destruction-hangs", what); _exit(1); }
    }
    if (!wait_for([&] { std::lock_guard<std::mutex> l(ST->mu); return ST->finished == ST->created; })) vf::violation("worker-never-ended", what);
    for (size_t i = 0; i < kept.size(); i++)
        if (index_of(base, 5, kept[i]) != (int64_t) i || !XmssBase::verify({1}, kept[i]->sign({1}), kept[i]->getPK())) vf::violation("key-unusable-after-pool", what);
    vf::eval(cat("destroy ", size, " ", mode, " ", kept.size()));
    vf::count("destroyed_pools");
    stage(false);
}
static void unavailable(vf::Rng &r) {
    stage(true);
    for (int size : {0, 1, 3, 6, 11}) {
        bytes base = r.buf(48);
        XmssPool p(base, 4, 0, size);
        if (size == 0) {
            for (int i = 0; i < 3; i++) {
                if (p.isAvailable()) vf::violation("empty-pool-available", cat(i));
                p.getNextTree();
                if (p.isAvailable()) vf::violation("empty-pool-available", "after a claim");
            }
        } else {
            for (int i = 0; i < 3 + 2 * size; i++) {
                if (!wait_for([&] { return p.isAvailable(); })) vf::violation("ready-tree-never-available", cat("pool ", size, " claim ", i));
                auto t = std::chrono::steady_clock::now();
                auto k = p.getNextTree();
                if (index_of(base, 0, k) != i) vf::violation("wrong-tree", cat("pool ", size, " claim ", i));
                vf::count("became_available");
                (void) t;
            }
        }
        vf::eval(cat("available ", size));
    }
    stage(false);
}
// The workers cannot be created, or trees cannot be built.
static void failing(vf::Rng &r, bool san) {
    bytes base = r.buf(48);
    uint64_t start = r.below(300);
    int size = (int) r.range(1, 4), mode = (int) r.below(san ? 2 : 4);
    std::string what = cat("failing pool=", size, " start=", start, " mode=", mode);
    vf::at(what);
    stage(true);
    uint64_t before = INJECTED;
    {
        std::lock_guard<std::mutex> l(ST->mu);
        if (mode == 0) for (int i = 0; i < 30; i++) if (r.chance(1, 3) && (i >= size || r.chance(1, 3))) ST->fail.insert(i);
    }
    std::unique_ptr<XmssPool> pool;
    if (mode == 2) ALLOC_FAIL = r.chance(1, 2) ? 40 : 4000;
    std::string o = vf::outcome([&] { pool.reset(new XmssPool(base, 4, start, size)); });
    if (!o.empty()) { vf::count("constructor_raised"); vf::eval(what); ALLOC_FAIL = 0; stage(false); return; }
    if (mode == 1) { std::lock_guard<std::mutex> l(ST->mu); ST->fail_all = true; }
    std::set<int64_t> got;
    int64_t last = -1;
    int raised = 0, calls = 0;
    for (int phase = 0; phase < 2; phase++) {
        for (int i = 0; i < (phase ? 4 : 6); i++) {
            calls++;
            Result x;
            vf::at(cat(what, " call ", calls));
            if (mode == 3 && !phase) { tl_allocs = 0; tl_fail_at = (long) r.range(1, r.chance(1, 2) ? 12 : 60); }
            x.err = vf::outcome([&] { x.key = pool->getNextTree(); });
            tl_fail_at = 0;
            if (!x.err.empty()) { raised++; vf::count("calls_that_raised"); vf::evals(1); if (phase && mode != 2) { /* leftovers of the faults are allowed: the worker of this tree had failed */ } continue; }
            int64_t ix = index_of(base, start, x.key);
            if (ix < 0) { vf::violation("foreign-tree-after-failure", what); continue; }
            if (!got.insert(ix).second) vf::violation("index-issued-twice", cat(what, " index ", start + ix));
            if (ix <= last) vf::violation("index-went-back", cat(what, " ", ix, " after ", last));
            last = ix;
            ref::Key k = ref::make_key(x.key->getSeed(), ref::SHAKE_128, 4, 16);
            bytes m = {9};
            if (x.key->getPK() != k.epk() || x.key->sign(m) != ref::sign(k, 0, m)) vf::violation("damaged-tree-issued", cat(what, " index ", start + ix));
            vf::eval(cat(what, " ", ix, hexs(base, 8)));
            vf::count("trees_despite_faults");
        }
        { std::lock_guard<std::mutex> l(ST->mu); ST->fail.clear(); ST->fail_all = false; }
        ALLOC_FAIL = 0;
    }
    // an index is lost only to a call that raised
    int64_t missing = last + 1 - (int64_t) got.size();
    if (missing > raised) vf::violation("index-lost-silently", cat(what, ": ", missing, " indices missing, ", raised, " calls raised"));
    if ((int64_t) (pool->getCurrentIndex() - start) <= last || (int64_t) (pool->getCurrentIndex() - start) > (int64_t) calls) vf::violation("index-count-after-failure", cat(what, ": current ", pool->getCurrentIndex() - start, " last issued ", last, " calls ", calls));
    // with the faults gone and the trees built before them used up, the pool works again
    int tail_ok = 0;
    for (int i = 0; i < size + 2; i++) if (vf::outcome([&] { auto k = pool->getNextTree(); int64_t ix = index_of(base, start, k); if (ix <= last) vf::violation("index-went-back", what); last = ix; }).empty()) tail_ok++; else tail_ok = 0;
    if (tail_ok < 2) vf::violation("pool-does-not-recover", what);
    pool.reset();
    vf::count("injected_faults", INJECTED - before);
    vf::count(cat("failing_pools_mode", mode));
    stage(false);
}
// A height no tree can have: the error reaches every caller, and nothing hangs.
static void impossible(vf::Rng &r) {
    stage(true);
    for (int size : {0, 1, 3})
        for (int h : {0, 1, 2, 3, 5, 7, 31, 32, 255}) {
            vf::at(cat("impossible height ", h, " pool ", size));
            std::unique_ptr<XmssPool> p;
            std::string o = vf::outcome([&] { p.reset(new XmssPool(r.buf(48), (unsigned char) h, 9, size)); });
            if (o == "invalid_argument") { vf::count("refused_at_once"); continue; }   // an early refusal is as good
            if (!o.empty()) { vf::violation("undocumented-exception", cat("pool of height ", h, ": ", o)); continue; }
            std::set<std::string> outs;
            for (int i = 0; i < 3; i++) {
                o = vf::outcome([&] { p->isAvailable(); p->getNextTree(); });
                if (o != "invalid_argument") vf::violation("tree-failure-not-reported", cat("height ", h, " pool ", size, " call ", i, ": ", o));
                if (p->getCurrentIndex() > 9u + i + 1) vf::violation("index-count-after-failure", cat("height ", h));
                vf::eval(cat("impossible ", h, size, i));
                vf::count("tree_failures_reported");
            }
        }
    stage(false);
}

#ifdef VERIF_INTERNALS
// Callers held back while they generate keys themselves (a pool without cache): they hold up nobody.
static void builders(vf::Rng &r) {
    bytes base = r.buf(48);
    uint64_t start = r.below(1000);
    int held = (int) r.range(1, 4);
    std::string what = cat("builders held=", held, " start=", start);
    vf::at(what);
    XmssPool pool(base, 4, start, 0);
    std::mutex mu;
    std::condition_variable cv;
    std::set<int> in, out;
    std::vector<std::unique_ptr<Async>> calls;
    auto holding = [&] { std::lock_guard<std::mutex> l(mu); return (int) in.size(); };
    auto let = [&](int i) { std::lock_guard<std::mutex> l(mu); out.insert(i); cv.notify_all(); };
    for (int i = 0; i < held; i++) {
        calls.emplace_back(new Async([&, i] {
            std::function<void()> gate = [&] { std::unique_lock<std::mutex> l(mu); in.insert(i); cv.wait(l, [&] { return out.count(i) > 0; }); };
            tall::at_keygen = &gate;
            struct Off { ~Off() { tall::at_keygen = nullptr; } } off;
            return pool.getNextTree();
        }));
        if (!wait_for([&] { return holding() > i || calls[i]->done(0); })) {
            vf::violation("claim-waits-for-other-trees", cat(what, ": call ", i, " did not start while other callers build"));
            for (int j = 0; j < held; j++) let(j);
            for (auto &c : calls) c->done(LIMIT_MS);
            return;
        }
        if (calls[i]->done(0)) { vf::count("unheld_builders"); for (int j = 0; j < held; j++) let(j); for (auto &c : calls) c->done(LIMIT_MS); return; }
    }
    std::atomic<int> quick{0};
    std::string pe;
    Thread probe([&] {
        pe = vf::outcome([&] {
            if (pool.isAvailable()) vf::violation("available-before-ready", what);
            if (pool.getCurrentIndex() != start + held) vf::violation("index-count-while-building", what);
        });
        quick = 1;
    });
    bool ok = wait_for([&] { return quick == 1; });
    Async free_call([&] { return pool.getNextTree(); });
    ok = ok && free_call.done(LIMIT_MS);
    if (!ok) vf::violation("caller-waits-for-other-trees", what + (quick == 1 ? ": getNextTree" : ": isAvailable or getCurrentIndex") + " waits for a caller that is still building");
    std::vector<int> order;
    for (int i = 0; i < held; i++) order.push_back(i);
    for (int i = held; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (int i : order) {
        let(i);
        if (!calls[i]->done(LIMIT_MS)) { vf::violation("call-never-returned", cat(what, " call ", i)); _exit(1); }
        Result x = calls[i]->f.get();
        if (!x.err.empty() || index_of(base, start, x.key) != i) vf::violation("wrong-tree-after-gating", cat(what, " call ", i, " ", x.err));
        vf::eval(cat(what, i));
    }
    if (free_call.done(LIMIT_MS)) {
        Result x = free_call.f.get();
        if (!x.err.empty() || index_of(base, start, x.key) != held) vf::violation("wrong-tree-after-gating", cat(what, " free call ", x.err));
    }
    vf::count("held_builders", held);
    vf::count("with_internals");
}
#endif

// many callers, some of them failing
static void crowd(vf::Rng &r, bool san) {
    bytes base = r.buf(48);
    int size = (int) r.range(1, 4), threads = (int) r.range(2, 6), each = 5;
    std::string what = cat("crowd pool=", size, " threads=", threads);
    vf::at(what);
    stage(true);
    { std::lock_guard<std::mutex> l(ST->mu); for (int i = size; i < 60; i++) if (r.chance(1, 3)) ST->fail.insert(i); }
    XmssPool pool(base, 4, 0, size);
    std::vector<std::vector<std::shared_ptr<XmssFast>>> got(threads);
    std::atomic<int> raised{0}, bad{0};
    {
        std::vector<std::unique_ptr<Thread>> ts;
        for (int t = 0; t < threads; t++)
            ts.emplace_back(new Thread([&, t] {
                for (int i = 0; i < each; i++) {
                    std::shared_ptr<XmssFast> k;
                    std::string o = vf::outcome([&] { k = pool.getNextTree(); });
                    if (o.empty()) got[t].push_back(k); else raised++;
                    pool.isAvailable();
                }
            }));
    }
    std::set<int64_t> seen;
    for (auto &g : got) {
        int64_t last = -1;
        for (auto &k : g) {
            int64_t ix = index_of(base, 0, k, threads * each + 4);
            if (ix < 0) vf::violation("foreign-tree-after-failure", what);
            if (!seen.insert(ix).second) vf::violation("index-issued-twice", cat(what, " index ", ix));
            if (ix <= last) vf::violation("index-went-back", what);
            last = ix;
            vf::eval(cat(what, hexs(base, 6), ix));
        }
    }
    if (!seen.empty() && *seen.rbegin() + 1 - (int64_t) seen.size() > raised) vf::violation("index-lost-silently", what);
    vf::count("crowds");
    vf::count("crowd_calls_raised", raised);
    stage(false);
}

void harness() {
    const bool san = !vf::S().part.empty();
    for (int n = 0; n < vf::scale(san ? 10 : 40, san ? 80 : 500); n++) vf::run("gated", [&](vf::Rng &r) { gated(r, san); });
    for (int n = 0; n < vf::scale(san ? 24 : 80, san ? 200 : 900); n++) vf::run("destroyed", [&](vf::Rng &r) { destroyed(r, san); });
#ifdef VERIF_INTERNALS
    for (int n = 0; n < vf::scale(san ? 6 : 20, san ? 60 : 300); n++) vf::run("builders", [&](vf::Rng &r) { builders(r); });
#endif
    for (int n = 0; n < vf::scale(3, 20); n++) vf::run("available", [&](vf::Rng &r) { unavailable(r); });
    for (int n = 0; n < vf::scale(san ? 16 : 60, san ? 150 : 900); n++) vf::run("failing", [&](vf::Rng &r) { failing(r, san); });
    for (int n = 0; n < vf::scale(2, 4); n++) vf::run("impossible", [&](vf::Rng &r) { impossible(r); });
    for (int n = 0; n < vf::scale(san ? 4 : 16, san ? 40 : 200); n++) vf::run("crowd", [&](vf::Rng &r) { crowd(r, san); });
}
