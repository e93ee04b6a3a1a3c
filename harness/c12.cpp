// C12: hostile arguments at every public entry point. Sanitizers and memcheck watch the memory, the
// driver watches progress, and every call is repeated with differently poisoned stack and heap.
#include "qrl.h"
#include "xmss-alt/fips202.h"
#ifdef VERIF_INTERNALS
#include "xmss-alt/algsxmss.h"
#endif
#include <alloca.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
using namespace vq;

static __attribute__((noinline)) void poison(int v) {
    mallopt(M_PERTURB, v & 0xff);
    volatile unsigned char *p = (volatile unsigned char *) alloca(96 * 1024);
    for (int i = 0; i < 96 * 1024; i++) p[i] = (unsigned char) (v * 31 + (i & v));
}
typedef std::function<bytes()> Call;
static std::string run1(const Call &f, bytes &v, int p) {
    poison(p);
    return vf::outcome([&] { v = f(); });
}
static int REPEAT = 2;
static std::string twice(const std::string &what, const Call &f, bytes *value = nullptr) {
    vf::at(what);
    bytes a, b;
    std::string oa = run1(f, a, 0x5b), ob = oa;
    for (int i = 1; i < REPEAT; i++) {
        b.clear();
        ob = run1(f, b, i == 1 ? 0xa4 : 0x11 * i);
        if (oa != ob || a != b) vf::violation("not-a-function-of-its-arguments", cat(what, ": first ", oa, " ", hexs(a), " then ", ob, " ", hexs(b)));
    }
    if (!oa.empty() && oa != "invalid_argument" && oa != "runtime_error") vf::violation("undocumented-exception", what + ": " + oa);
    vf::eval(what);
    vf::count(oa.empty() ? "returned" : "refused");
    if (value) *value = a;
    return oa;
}
static bytes tight(const bytes &b) { return bytes(b.begin(), b.end()); }  // capacity == size: overreads are visible

// A body on a thread with a small stack: nothing may need stack in proportion to its input.
static void small_stack(size_t kb, const std::function<void()> &f) {
    struct A { const std::function<void()> *f; std::exception_ptr e; } a{&f, nullptr};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, kb * 1024);
    pthread_t t;
    if (pthread_create(&t, &at, [](void *p) -> void * { auto x = (A *) p; try { (*x->f)(); } catch (...) { x->e = std::current_exception(); } return nullptr; }, &a) != 0) { fprintf(stderr, "cannot start a thread\n"); _exit(3); }
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    if (a.e) std::rethrow_exception(a.e);
}

static void verify_any(const bytes &m, const bytes &s, const bytes &p, uint32_t w, const std::string &what) {
    bytes m1 = tight(m), s1 = tight(s), p1 = tight(p), v;
    std::string o = twice(cat("verify ", what, " msg=", m.size(), " sig=", s.size(), " pk=", hexs(p, 67), " w=", w, " #", vf::fnv(s) % 100000),
                          [&] { return bytes(1, XmssBase::verify(m1, s1, p1, w)); }, &v);
    if (o.empty() && v.size() == 1 && m.size() < 100000 && s.size() < 100000 && (v[0] != 0) != ref::verify(m, s, p, w)) vf::violation("wrong-decision", what);
    vf::count("verify_calls");
}
static uint32_t any_w(vf::Rng &r) {
    static const uint32_t W[] = {16, 16, 16, 2, 4, 256, 0, 1, 3, 5, 8, 15, 17, 32, 64, 128, 255, 257, 65536, 0x80000000u, 0xffffffffu, 0x10000u | 16};
    return r.chance(1, 10) ? (uint32_t) r.next() : W[r.below(22)];
}
static bytes any_pk(vf::Rng &r) {
    bytes p = r.buf(r.chance(1, 6) ? r.below(140) : 67);
    if (p.size() > 2 && r.chance(3, 4)) { p[0] = (uint8_t) r.below(3); p[1] = (uint8_t) r.below(16); }
    return p;
}

void harness() {
    const std::string part = vf::S().part;
    const bool san = part == "san", vg = part == "memcheck";
    REPEAT = vg ? 1 : 2;
    // verification of arbitrary bytes
    for (int n = 0; n < vf::scale(vg ? 6 : san ? 12 : 40, vg ? 24 : 400); n++)
        vf::run("verify", [&](vf::Rng &r) {
            for (int q = 0; q < (vg ? 4 : san ? 15 : 30); q++) {
                bytes p = any_pk(r), s;
                uint32_t w = any_w(r);
                uint64_t base = ref::sig_base_size(w);
                size_t h = p.size() > 1 ? 2 * (p[1] & 15) : 4;
                switch (r.below(7)) {
                    case 0: s = r.buf(r.below(200)); break;
                    case 1: s = r.buf(r.below(9000)); break;
                    case 2: s = r.buf((base ? base : 36 + 32 * r.below(300)) + 32 * r.below(40)); break;
                    case 3: s = bytes((base ? base : 2180) + 32 * h, r.chance(1, 2) ? 0 : 0xff); break;
                    case 4: s = r.buf((base ? base : 2180) + 32 * h + r.below(3) - 1); break;
                    default: s = r.buf((base ? base : 2180) + 32 * h);
                }
                if (w == 256 && r.chance(1, 2) && vg) continue;
                verify_any(r.buf(r.chance(1, 3) ? 0 : msglen(r, false)), s, p, w, "arbitrary");
            }
        });
    // right sizes: garbage reaches the hashing code for every height, hash function and W
    for (int hf = 0; hf < 3; hf++)
        for (int h = 0; h <= 30; h += 2)
            vf::run("verify-heights", [&](vf::Rng &r) {
                if (vg && h % 10 != 4) return;
                for (uint32_t w : WS) {
                    if (vg && w == 256) continue;
                    bytes p = r.buf(67), s = r.buf(ref::sig_base_size(w) + 32 * h);
                    p[0] = (uint8_t) hf;
                    p[1] = (uint8_t) (h / 2);
                    verify_any(r.buf(r.below(100)), s, p, w, "sized");
                    vf::count("sized_garbage");
                }
            });
    // megabytes
    const size_t MB = 1 << 20;
    if (!vg)
        for (int hf = 0; hf < 3; hf++)
            vf::run("huge", [&](vf::Rng &r) {
                auto body = [&] {
                    size_t top = vf::scale(san ? 9 : 24, san ? 24 : 96) * MB;
                    bytes big = r.buf(top + r.below(1000)), pk = r.buf(67), sig = r.buf(2308);
                    pk[0] = (uint8_t) hf;
                    pk[1] = 2;
                    REPEAT = 1;
                    verify_any(big, sig, pk, 16, "huge message");
                    bytes bigs = r.buf(top / 4);
                    verify_any(sig, bigs, pk, 16, "huge signature");
                    bigs.resize(2180 + 32 * (size_t) (top / 200));
                    verify_any(sig, bigs, pk, 16, "huge sized signature");
                    verify_any(sig, sig, bigs, 16, "huge key");
                    auto k = make(hf % 2, r.buf(48), Cfg{hf, 4, 16});
                    bytes s;
                    twice("sign huge", [&] { return s = k->sign(big); });
                    if (!XmssBase::verify(big, s, k->getPK())) vf::violation("huge-message-does-not-verify", HFN[hf]);
                    auto k2 = make(hf % 2 == 0, k->getSeed(), Cfg{hf, 4, 16});
                    if (k2->sign(big) != s) vf::violation("huge-message-signature-differs", HFN[hf]);
                    vf::count("huge_messages");
                    REPEAT = 2;
                };
                if (san) body(); else small_stack(512, body);
            });
    vf::run("huge-text", [&](vf::Rng &r) {
        if (vg) return;
        auto body = [&] {
            bytes b = r.buf(3 * MB);
            std::string t((const char *) b.data(), b.size()), hx = ref::hex(b);
            twice("hstr2bin huge garbage", [&] { return hstr2bin(t); });
            twice("hstr2bin huge", [&] { return hstr2bin(hx); });
            twice("mnemonic2bin huge garbage", [&] { return mnemonic2bin(t); });
            twice("mnemonic2bin huge words", [&] { std::string m; for (int i = 0; i < 200000; i++) m += "aback zurich "; return mnemonic2bin(m); });
            twice("bin2mnemonic huge", [&] { auto s = bin2mnemonic(b); return bytes(s.begin(), s.end()); });
            twice("bin2hstr huge", [&] { auto s = bin2hstr(b, 3); return bytes(s.begin(), s.end()); });
            twice("address huge", [&] { return QRLHelper::getAddress(b); });
            twice("address valid huge", [&] { return bytes(1, QRLHelper::addressIsValid(b)); });
            twice("extended seed huge", [&] { XmssFast k(b); return k.getPK(); });
            twice("seed huge", [&] { XmssFast k(b, 4, SHAKE_128); return k.getPK(); });
            twice("seed huge basic", [&] { XmssBasic k(b, 4, SHAKE_128, SHA256_2X, 16); return k.getPK(); });
            twice("chain seeds huge", [&] { return getHashChainSeed(b, 7, 2)[1]; });
            for (int k = 0; k < 2; k++) twice(cat("shake huge ", k), [&] { return k ? shake256(MB, b) : shake128(MB, b); });
            twice("sha2 huge", [&] { return sha2_256_n(b, 3); });
            vf::count("huge_text");
        };
        if (san) body(); else small_stack(512, body);
    });
    // parsing and helpers on arbitrary small input
    for (int n = 0; n < vf::scale(vg ? 6 : 20, vg ? 30 : 200); n++)
        vf::run("parse", [&](vf::Rng &r) {
            for (int q = 0; q < (vg ? 15 : 60); q++) {
                bytes b = r.buf(r.chance(1, 2) ? r.below(120) : r.below(12));
                if (r.chance(1, 3)) for (auto &c : b) c = (uint8_t) "0123456789abcdefABCDEF gz\t\n"[r.below(27)];
                if (r.chance(1, 4)) b.resize(r.chance(1, 2) ? 39 : r.chance(1, 2) ? 67 : 3, 1);
                std::string t(b.begin(), b.end()), id = " " + hexs(b, 130);
                twice("hstr2bin" + id, [&] { return hstr2bin(t); });
                twice("mnemonic2bin" + id, [&] { return mnemonic2bin(t); });
                twice("bin2mnemonic" + id, [&] { auto s = bin2mnemonic(tight(b)); return bytes(s.begin(), s.end()); });
                uint32_t wrap = r.chance(1, 3) ? (uint32_t) r.next() : (uint32_t) r.below(5);
                twice(cat("bin2hstr ", wrap) + id, [&] { auto s = bin2hstr(tight(b), wrap); return bytes(s.begin(), s.end()); });
                twice("getAddress" + id, [&] { return QRLHelper::getAddress(tight(b)); });
                twice("addressIsValid" + id, [&] { return bytes(1, QRLHelper::addressIsValid(tight(b))); });
                for (int src = 0; src < 3; src++)
                    twice(cat("descriptor ", src) + id, [&] {
                        QRLDescriptor d = src == 0 ? QRLDescriptor::fromBytes(tight(b)) : src == 1 ? QRLDescriptor::fromExtendedSeed(tight(b)) : QRLDescriptor::fromExtendedPK(tight(b));
                        bytes o = d.getBytes();
                        o.push_back(d.getHeight()); o.push_back((uint8_t) d.getHashFunction()); o.push_back((uint8_t) d.getSignatureType()); o.push_back((uint8_t) d.getAddrFormatType());
                        return o; });
                uint64_t size = r.chance(1, 2) ? r.below(20000) : r.next() >> r.below(64);
                uint32_t w = any_w(r);
                twice(cat("getHeightFromSigSize ", size, " ", w), [&] { return bytes(1, XmssBase::getHeightFromSigSize(size, w)); });
                twice(cat("calculateSignatureBaseSize ", w), [&] { uint32_t v = XmssBase::calculateSignatureBaseSize(w); return bytes((uint8_t *) &v, (uint8_t *) &v + 4); });
                uint32_t shift = (uint32_t) r.next(), cnt = (uint32_t) r.below(4);
                twice(cat("getHashChainSeed ", shift, " ", cnt) + id, [&] { bytes o; for (auto &x : getHashChainSeed(tight(b), shift, cnt)) o.insert(o.end(), x.begin(), x.end()); return o; });
                size_t on = r.below(400), it = r.below(3);
                twice(cat("shake128 ", on) + id, [&] { return shake128(on, tight(b)); });
                twice(cat("shake256 ", on) + id, [&] { return shake256(on, tight(b)); });
                twice(cat("sha2_256_n ", it) + id, [&] { return sha2_256_n(tight(b), it); });
                vf::count("parse_rounds");
            }
        });
    // every length of every parsed object, behind a prefix that lets the parser go on
    for (int hf = 0; hf < 3; hf++)
        vf::run("lengths", [&](vf::Rng &r) {
            for (size_t n = 0; n <= (vg ? 75u : 150u); n++) {
                bytes b = r.buf(n);
                if (n > 0) b[0] = (uint8_t) hf;
                if (n > 1) b[1] = (uint8_t) r.range(2, 15);
                if (n > 2 && r.chance(3, 4)) b[2] = 0;
                std::string id = " " + hexs(b, 6) + cat(" of ", n, " #", vf::fnv(b) % 100000);
                bytes e = b;
                if (n > 1) e[1] = r.chance(1, 2) ? 2 : (uint8_t) (r.below(2));
                twice("addressIsValid" + id, [&] { return bytes(1, QRLHelper::addressIsValid(tight(b))); });
                twice("getAddress" + id, [&] { return QRLHelper::getAddress(tight(b)); });
                for (int src = 0; src < 3; src++)
                    twice(cat("descriptor ", src) + id, [&] {
                        QRLDescriptor d = src == 0 ? QRLDescriptor::fromBytes(tight(b)) : src == 1 ? QRLDescriptor::fromExtendedSeed(tight(b)) : QRLDescriptor::fromExtendedPK(tight(b));
                        return d.getBytes(); });
                twice("bin2mnemonic" + id, [&] { auto s = bin2mnemonic(tight(b)); return bytes(s.begin(), s.end()); });
                for (uint32_t wrap : {0u, 1u, (uint32_t) n, (uint32_t) (2 * n), (uint32_t) n + 1})
                    twice(cat("bin2hstr ", wrap) + id, [&] { auto s = bin2hstr(tight(b), wrap); return bytes(s.begin(), s.end()); });
                if (!vg || n == 51 || n % 16 == 3) {
                    twice("extended seed" + id, [&] { XmssFast k(tight(e)); return k.getPK(); });
                    twice("seed" + id, [&] { XmssBasic k(tight(e), 4, HF[hf], SHA256_2X, 16); return k.getPK(); });
                }
                verify_any(r.buf(n % 40), bytes(n ? (size_t) 2180 + 32 * (b.size() > 1 ? 2 * (b[1] & 15) : 4) + n % 3 - 1 : 0, 7), b, 16, "length");
                verify_any(r.buf(n % 40), b, bytes(67, (uint8_t) hf), 16, "length");
                vf::count("lengths");
            }
        });
    // keys from arbitrary seeds, and arbitrary calls on a key
    for (int n = 0; n < vf::scale(vg ? 5 : 16, vg ? 15 : 200); n++)
        vf::run("keys", [&](vf::Rng &r) {
            for (int q = 0; q < (vg ? 1 : 4); q++) {
                bytes e = r.buf(r.chance(1, 3) ? r.below(120) : 51);
                if (e.size() == 51) { e[0] = r.chance(1, 4) ? (uint8_t) r.next() : (uint8_t) r.below(3); e[1] = r.chance(1, 4) ? (uint8_t) (0xf0 & r.next()) : (uint8_t) (r.chance(1, 2) ? 2 : r.below(2)); }
                twice("extended seed " + hexs(e, 60), [&] { XmssFast k(tight(e)); bytes s = k.sign({}), p = k.getPK(); s.insert(s.end(), p.begin(), p.end()); return s; });
                int h = r.chance(1, 2) ? 4 : r.chance(1, 2) ? (int) r.below(4) : (int) (r.range(15, 127) * 2 + 1), hf = (int) r.below(3);
                uint32_t w = vg ? 16 : r.chance(1, 3) ? any_w(r) : 16;
                bytes sd = r.buf(r.chance(1, 3) ? r.below(100) : 48);
                bool fast = r.chance(1, 2);
                twice(cat("key h=", h, " hf=", hf, " w=", w, " fast=", fast, " seed=", hexs(sd, 60)), [&] {
                    if (fast) { XmssFast k(tight(sd), (unsigned char) h, HF[hf]); return k.getSK(); }
                    XmssBasic k(tight(sd), (unsigned char) h, HF[hf], SHA256_2X, w);
                    return k.getSK(); });
                // any calls on one key: the same history twice gives the same answers
                Cfg c{hf, 4, 16};
                bytes seed = r.buf(48);
                uint64_t sub = r.next();
                twice(cat("history ", name(c), " fast=", fast, " ", sub), [&] {
                    auto k = make(fast, seed, c);
                    vf::Rng q2(sub);
                    bytes log;
                    for (int i = 0; i < 6; i++) {
                        uint32_t to = q2.chance(1, 3) ? (uint32_t) q2.next() : (uint32_t) q2.below(18);
                        bytes m = q2.buf(q2.chance(1, 3) ? 0 : q2.below(300)), s;
                        std::string o = vf::outcome([&] { k->setIndex(to); }), o2 = vf::outcome([&] { s = k->sign(tight(m)); });
                        for (auto &x : {o, o2}) { if (!x.empty() && x != "invalid_argument" && x != "runtime_error") vf::violation("undocumented-exception", x); log.insert(log.end(), x.begin(), x.end()); }
                        log.insert(log.end(), s.begin(), s.end());
                        uint32_t gs[2] = {0, 0};
                        vf::outcome([&] { gs[0] = k->getSignatureSize(any_w(q2)); });
                        log.insert(log.end(), (uint8_t *) gs, (uint8_t *) (gs + 1));
                    }
                    return log; });
                vf::count("key_rounds");
            }
        });
    // a basic key too high to sign within the test: it must not fall over while it works
    for (int h : {18, 20, 22})
      for (int how : {0, 1})  // generating it, and (where the internals have the names known here) signing with it
        vf::run("tall", [&](vf::Rng &r) {
            if (san || vg) return;
            vf::at(cat("basic key at height ", h));
            pid_t p = fork();
            if (p == 0) {
                signal(SIGALRM, SIG_DFL);
                signal(SIGSEGV, SIG_DFL);
                alarm(h == 18 ? 4 : 2);
                if (how == 0) {
                    bytes seed = r.buf(48);
                    small_stack(2048, [&] { XmssBasic k(seed, (unsigned char) h, SHAKE_128, SHA256_2X, 16); });
                }
#ifdef VERIF_INTERNALS
                else {
                    xmss_params ps;
                    xmss_set_params(&ps, 32, h, 16, 2);
                    bytes sk = r.buf(132), sig(2180 + 32 * h, 0), m(20, 1);
                    memset(sk.data(), 0, 4);
                    small_stack(2048, [&] { xmss_Signmsg(SHAKE_128, &ps, sk.data(), sig.data(), m.data(), m.size()); });
                }
#endif
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            bool ok = WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM : WEXITSTATUS(st) == 0;
            if (!ok) vf::violation("crash-in-tall-tree", cat(how ? "signing with" : "generating", " a basic key of height ", h, " ended with status ", st, WIFSIGNALED(st) ? cat(" (signal ", WTERMSIG(st), ")") : ""));
            vf::eval(cat("tall ", h, how));
            vf::count("tall_trees");
        });
}
