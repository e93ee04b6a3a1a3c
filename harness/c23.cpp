// C23: every constructor call gives a working key or a prompt invalid-argument error. Refusals are swept in
// forked children under a timer, so that a call which starts building a tree it should refuse is seen as one.
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "tall.h"
using namespace vq;

namespace {
#define EXPECT(ok, cls, what) vf::check((ok), cls, [&] { return std::string(what); })
enum Signer { BASIC, FAST, EXT_FAST, REINIT };
const char *SN[] = {"XmssBasic", "XmssFast", "XmssFast(extended seed)", "XmssFast+initialize_tree"};
struct Args { int signer; bytes seed; int h, hf, af; uint32_t w; };
std::string say(const Args &a) {
    if (a.signer == EXT_FAST) return cat(SN[a.signer], " ", a.seed.size(), " bytes ", hexs(a.seed, 4));
    return cat(SN[a.signer], "(", a.seed.size(), " byte seed, h ", a.h, ", hash function ", a.hf, ", address format ", a.af, ", w ", a.w, ")");
}
bool wok(uint32_t w) { return w == 2 || w == 4 || w == 16 || w == 256; }
bool should_work(const Args &a) {
    if (a.signer == EXT_FAST) return a.seed.size() == 51 && ref::descriptor_ok(bytes(a.seed.begin(), a.seed.begin() + 3)) && (a.seed[1] & 15) >= 2;
    return a.seed.size() == 48 && a.h >= 4 && a.h <= 30 && a.h % 2 == 0 && a.hf >= 0 && a.hf <= 2 && a.af == 0 && wok(a.w);
}
struct Re : XmssFast {
    Re(const Args &a) : XmssFast(a.seed, (unsigned char) a.h, (eHashFunction) a.hf, (eAddrFormatType) a.af) { initialize_tree(a.w); }
};
std::unique_ptr<XmssBase> build(const Args &a) {
    switch (a.signer) {
        case BASIC: return std::unique_ptr<XmssBase>(new XmssBasic(a.seed, (unsigned char) a.h, (eHashFunction) a.hf, (eAddrFormatType) a.af, a.w));
        case FAST: return std::unique_ptr<XmssBase>(new XmssFast(a.seed, (unsigned char) a.h, (eHashFunction) a.hf, (eAddrFormatType) a.af));
        case REINIT: return std::unique_ptr<XmssBase>(new Re(a));
        default: return std::unique_ptr<XmssBase>(new XmssFast(a.seed));
    }
}
struct Shared { volatile long at; volatile int result; };
Shared *shared() {
    static Shared *s = (Shared *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s;
}
enum End { DONE, TIMEOUT, CRASH };
// runs f in a child for at most `secs`
template <class F> End bounded(double secs, F f, std::string &how) {
    fflush(0);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "cannot fork\n"); _exit(3); }
    if (p == 0) {
        signal(SIGALRM, SIG_DFL);
        itimerval t{};
        t.it_value.tv_sec = (long) secs;
        t.it_value.tv_usec = (long) ((secs - (double) (long) secs) * 1e6);
        setitimer(ITIMER_REAL, &t, 0);
        f();
        fflush(0);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return TIMEOUT;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return DONE;
    how = WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st));
    return CRASH;
}
// all of these must raise invalid_argument, quickly
void refuse(const std::vector<Args> &v) {
    for (size_t from = 0; from < v.size();) {
        std::string how;
        vf::at(say(v[from]));
        shared()->at = (long) from;
        End e = bounded(20, [&] {
            for (size_t i = from; i < v.size(); i++) {
                shared()->at = (long) i;
                std::string o = vf::outcome([&] { build(v[i]); });
                if (o != "invalid_argument") vf::violation("bad-arguments-accepted", say(v[i]) + (o.empty() ? " gave a key" : " raised " + o));
            }
            shared()->at = (long) v.size();
        }, how);
        size_t to = (size_t) shared()->at;
        for (size_t i = from; i < to && i < v.size(); i++) vf::eval(say(v[i]) + hexs(v[i].seed));
        vf::count("refused", to - from);
        if (e == DONE) return;
        vf::violation(e == TIMEOUT ? "refusal-not-prompt" : "refusal-crashes", say(v[to]) + (e == TIMEOUT ? " did not return within 20 seconds" : " ended with " + how));
        from = to + 1;
    }
}
void working(vf::Rng &r, const Args &a) {
    const std::string what = say(a);
    vf::at(what);
    std::unique_ptr<XmssBase> k;
    std::string o = vf::outcome([&] { k = build(a); });
    EXPECT(o.empty(), "good-arguments-refused", what + " raised " + o);
    if (!k) return;
    const bool ext = a.signer == EXT_FAST;
    int h = ext ? (a.seed[1] & 15) * 2 : a.h, hf = ext ? a.seed[0] & 15 : a.hf;
    uint32_t w = a.signer == FAST || ext ? 16 : a.w;
    bytes seed = ext ? bytes(a.seed.begin() + 3, a.seed.end()) : a.seed, desc = ref::descriptor(hf, 0, h, 0), es = desc;
    es.insert(es.end(), seed.begin(), seed.end());
    bytes pk = k->getPK();
    EXPECT(k->getHeight() == h && k->getDescriptorBytes() == desc && k->getExtendedSeed() == es && pk.size() == 67 && std::equal(desc.begin(), desc.end(), pk.begin()), "descriptor-not-the-parameters",
           cat(what, " height ", (int) k->getHeight(), " descriptor ", hexs(k->getDescriptorBytes())));
    EXPECT(k->getDescriptor().getHashFunction() == hf && k->getDescriptor().getHeight() == h && k->getDescriptor().getSignatureType() == 0, "descriptor-not-the-parameters", what);
    EXPECT(k->getAddress() == ref::address(pk) && QRLHelper::addressIsValid(k->getAddress()), "address-wrong", what);
    EXPECT(k->getNumberSignatures() == 1u << h && k->getRemainingSignatures() == 1u << h && k->getIndex() == 0, "counts-wrong", what);
    uint32_t last = (1u << h) - 1;
    std::vector<uint32_t> where = {0, 1 + (uint32_t) r.below(last - 1), last};
    if (h > 6 && a.signer == BASIC) where = {(uint32_t) r.below(last + 1ull)};
    for (uint32_t i : where) {
        bytes m = r.buf(msglen(r, false)), s;
        vf::at(cat(what, " signing at ", i));
        k->setIndex(i);
        s = k->sign(m);
        EXPECT(s.size() == ref::sig_base_size(w) + 32u * (unsigned) h, "signature-size", cat(what, " ", s.size()));
        EXPECT(XmssBase::verify(m, s, pk, w), "own-signature-refused", cat(what, " index ", i));
        EXPECT(ref::verify(m, s, pk, w), "signature-wrong", cat(what, " index ", i));
        vf::eval(cat(what, hexs(seed), i));
        vf::count("signatures");
    }
    if (where.back() == last) EXPECT(!vf::outcome([&] { k->sign({1}); }).empty(), "exhausted-key-signs", what);
    vf::count(cat("keys_", ext ? "extended" : SN[a.signer]));
    vf::count("keys");
    vf::sample(what);
}
// a tall tree takes long to build: what is watched is that the constructor sets out to
void sets_out(const Args &a) {
    std::string how;
    vf::at(say(a));
    End e = bounded(0.15, [&] {
        std::string o = vf::outcome([&] { build(a); });
        if (!o.empty()) vf::violation("good-arguments-refused", say(a) + " raised " + o);
    }, how);
    EXPECT(e != CRASH, "tall-key-crashes", say(a) + " ended with " + how);
    vf::eval(say(a));
    vf::count("tall_accepted");
}
// Tall keys that are really built (cheap leaves, tall.h) by every constructor: the paths they sign with lead to their roots.
void grown(vf::Rng &r, Args a, int h, int hf) {
    if (!::tall::grows()) return;
    bytes seed = a.seed, desc = ref::descriptor(hf, 0, h, 0), ext = desc;
    ext.insert(ext.end(), seed.begin(), seed.end());
    if (a.signer == EXT_FAST) a.seed = ext;
    const std::string what = "generated " + say(a);
    vf::at(what);
    ::tall::Grown t(seed, Cfg{hf, h, a.w});
    ::tall::Grow g(&t.k);
    std::unique_ptr<XmssBase> k;
    std::string o = vf::outcome([&] { k = build(a); });
    vf::evals(0);
    EXPECT(o.empty(), "good-arguments-refused", what + " raised " + o);
    if (!k) return;
    bytes pk = k->getPK();
    EXPECT(k->getHeight() == h && k->getDescriptorBytes() == desc && k->getExtendedSeed() == ext && pk.size() == 67 && std::equal(desc.begin(), desc.end(), pk.begin()), "descriptor-not-the-parameters", what);
    EXPECT(k->getNumberSignatures() == 1u << h && k->getRemainingSignatures() == 1u << h && k->getIndex() == 0, "counts-wrong", what);
    const uint32_t last = (1u << h) - 1;
    std::vector<uint32_t> where = {0, 1 + (uint32_t) r.below(std::min(last, 5000u)), last};
    if (a.signer != BASIC && h > 14 && !vf::thorough()) where.pop_back();
    for (uint32_t i : where) {
        if (k->getIndex() > i) continue;
        bytes m = r.buf(r.below(50)), s;
        vf::at(cat(what, " signing at ", i));
        k->setIndex(i);
        o = vf::outcome([&] { s = k->sign(m); });
        EXPECT(o.empty() && t.leads(s, pk), "signature-wrong", cat(what, " index ", i, " ", o));
        vf::eval(cat(what, hexs(seed, 48), i));
        vf::count("grown_signatures");
    }
    if (where.back() == last) EXPECT(!vf::outcome([&] { k->sign({1}); }).empty(), "exhausted-key-signs", what);
    vf::count(cat("grown_h", h));
}
// Keys of any height with planted states (tall.h), whose signatures are put to the verifier.
void planted(vf::Rng &r, int h, int hf, bool ext) {
    if (!::tall::works()) return;
    bytes seed = seed48(r);
    Cfg c{hf, h, 16};
    for (int turn = 0; turn < 2; turn++) {
        const uint32_t last = (uint32_t) ((1ull << h) - 1), at = turn ? last - 1 : 0;
        const std::string what = cat("planted ", name(c), ext ? " extended seed" : "", " at ", at);
        vf::at(what);
        auto t = ::tall::sparse(seed, c, at, 2);
        auto k = ::tall::make(*t, seed, at, ext);
        if (!k) return;
        bytes pk = k->getPK();
        EXPECT(k->getHeight() == h && k->getDescriptorBytes() == ref::descriptor(hf, 0, h, 0) && k->getNumberSignatures() == last + 1 && k->getRemainingSignatures() == last + 1 - at && k->getIndex() == at,
               "descriptor-not-the-parameters", what);
        EXPECT(k->getAddress() == ref::address(pk) && QRLHelper::addressIsValid(k->getAddress()), "address-wrong", what);
        for (int q = 0; q < 2; q++) {
            bytes m = r.buf(r.below(50)), s;
            std::string o = vf::outcome([&] { s = k->sign(m); });
            EXPECT(o.empty() && XmssBase::verify(m, s, pk), "own-signature-refused", cat(what, " ", q, " ", o));
            vf::eval(cat(what, hexs(seed, 48), q));
            vf::count("planted_signatures");
        }
        if (turn) EXPECT(!vf::outcome([&] { k->sign({1}); }).empty(), "exhausted-key-signs", what);
    }
    vf::count(cat("planted_h", h));
}
// What both constructors of the base class make of every accepted combination, before any tree is built.
struct Base : XmssBase {
    Base(const bytes &seed, const Cfg &c) : XmssBase(seed, (unsigned char) c.h, (eHashFunction) c.hf, SHA256_2X) {}
    Base(const bytes &ext) : XmssBase(ext) {}
    TSIGNATURE sign(const TMESSAGE &) override { return {}; }
};
void parameters(vf::Rng &r) {
    for (int h = 4; h <= 30; h += 2)
        for (int hf = 0; hf < 3; hf++)
            for (int q = 0; q < 8; q++) {
                Cfg c{hf, h, 16};
                bytes seed = seed48(r), desc = ref::descriptor(hf, 0, h, 0), ext = desc;
                desc[2] = ext[2] = 0;
                ext.insert(ext.end(), seed.begin(), seed.end());
                const bool from_ext = q & 1;
                if (from_ext && (q & 2)) ext[2] = (uint8_t) r.next();     // unused by the descriptor
                const std::string what = cat("XmssBase ", name(c), from_ext ? " extended seed " : " ", hexs(ext, 4));
                vf::at(what);
                std::unique_ptr<Base> k;
                std::string o = vf::outcome([&] { k.reset(from_ext ? new Base(ext) : new Base(seed, c)); });
                EXPECT(o.empty(), "good-arguments-refused", what + " raised " + o);
                if (!k) continue;
                ext[2] = 0;
                EXPECT(k->getHeight() == h && k->getDescriptorBytes() == desc && k->getExtendedSeed() == ext && k->getSeed() == seed && k->getNumberSignatures() == 1u << h &&
                           k->getSignatureSize() == ref::sig_base_size(16) + 32u * (unsigned) h && k->getDescriptor().getHashFunction() == hf && k->getDescriptor().getHeight() == h,
                       "descriptor-not-the-parameters", cat(what, " height ", (int) k->getHeight(), " descriptor ", hexs(k->getDescriptorBytes())));
                vf::eval(cat(what, hexs(seed), q));
                vf::count("base_constructions");
            }
}
Args random_args(vf::Rng &r, bool enums) {
    Args a;
    a.signer = (int) r.below(3);
    a.h = r.chance(1, 3) ? 4 : r.chance(1, 2) ? (int) r.below(256) : 2 * (int) r.below(16);
    a.hf = (int) r.below(enums ? 5 : 4);
    a.af = r.chance(3, 4) ? 0 : 1;
    if (enums && r.chance(1, 8)) { a.hf = r.chance(1, 2) ? -1 : (int) r.below(1000); a.af = r.chance(1, 2) ? 0 : (int) r.below(300); }
    a.w = a.signer == FAST ? 16 : r.chance(1, 2) ? WS[r.below(4)] : r.chance(1, 2) ? (uint32_t) r.below(600) : (uint32_t) r.next();
    size_t n = r.chance(1, 2) ? 48 : r.chance(1, 2) ? 44 + r.below(9) : r.below(200);
    a.seed = r.buf(n);
    if (a.signer == EXT_FAST) {
        a.seed = r.buf(r.chance(2, 3) ? 51 : r.chance(1, 2) ? 48 + r.below(6) : r.below(200));
        if (a.seed.size() > 2 && r.chance(3, 4)) { a.seed[0] = (uint8_t) r.below(4); a.seed[1] = (uint8_t) r.below(18); }
    }
    return a;
}
}  // namespace

void harness() {
    shared();
    const bool san = vf::S().part == "san";
    // every height, every seed length, every address format and hash function, W to 600 and beyond: the refused part
    for (int signer = 0; signer < 2; signer++)
        for (int hf = 0; hf < 3; hf++) {
            vf::run("heights", [&](vf::Rng &r) {
                std::vector<Args> v;
                for (int h = 0; h < 256; h++) {
                    Args a{signer, seed48(r), h, hf, 0, 16};
                    if (!should_work(a)) v.push_back(a);
                    for (size_t n : {(size_t) 0, (size_t) 1, (size_t) 47, (size_t) 49, (size_t) r.below(48), (size_t) 51, 49 + r.below(200)}) v.push_back({signer, r.buf(n), h, hf, 0, 16});
                }
                vf::count("heights_swept", 256);
                refuse(v);
            });
            vf::run("lengths", [&](vf::Rng &r) {
                std::vector<Args> v;
                for (size_t n = 0; n <= 300; n++)
                    for (int h = 2; h <= 32; h += 2) if (n != 48) v.push_back({signer, r.buf(n), h, hf, 0, 16});
                for (size_t n : {1000u, 65536u, 1000000u, 256u + 48u, 65536u + 48u}) v.push_back({signer, bytes(n, 1), 4, hf, 0, 16});
                vf::count("lengths_swept", 300);
                refuse(v);
            });
            vf::run("enumerators", [&](vf::Rng &r) {
                std::vector<Args> v;
                for (int h = 4; h <= 30; h += 2) {
                    v.push_back({signer, r.buf(48), h, 3, 0, 16});
                    v.push_back({signer, r.buf(48), h, hf, 1, 16});
                    v.push_back({signer, r.buf(48), h, 3, 1, 16});
                    if (!san) for (int x : {2, 4, 8, 15, 16, 17, 127, 128, 255, 256, 257, 65536, -1}) {
                        v.push_back({signer, r.buf(48), h, hf, x, 16});
                        if (x > 2 || x < 0) v.push_back({signer, r.buf(48), h, x, 0, 16});
                    }
                }
                vf::count("unknown_enumerators", v.size());
                refuse(v);
            });
        }
    for (int hf = 0; hf < 3; hf++)
        vf::run("winternitz", [&](vf::Rng &r) {
            std::vector<Args> v;
            std::vector<uint32_t> ws;
            for (uint32_t w = 0; w < 600; w++) ws.push_back(w);
            for (int b = 9; b < 32; b++) { ws.push_back(1u << b); ws.push_back((1u << b) + 16); ws.push_back((1u << b) - 1); }
            for (int i = 0; i < 200; i++) ws.push_back((uint32_t) r.next());
            ws.push_back(0xffffffffu);
            for (uint32_t w : ws)
                if (!wok(w)) { v.push_back({BASIC, r.buf(48), r.chance(1, 2) ? 4 : 2 * (int) r.range(2, 15), hf, 0, w}); if (w % 37 == 0) v.push_back({REINIT, r.buf(48), 4, hf, 0, w}); }
            vf::count("winternitz_swept", v.size());
            refuse(v);
        });
    for (int b0 = 0; b0 < 256; b0 += 16)
        vf::run("extended", [&](vf::Rng &r) {
            std::vector<Args> v;
            for (int x = b0; x < b0 + 16; x++)
                for (int y = 0; y < 256; y++) {
                    Args a{EXT_FAST, r.buf(51), 0, 0, 0, 16};
                    a.seed[0] = (uint8_t) x, a.seed[1] = (uint8_t) y;
                    if (!should_work(a)) v.push_back(a);
                    if (y % 16 == 0) { a.seed.resize(r.below(51)); v.push_back(a); }
                    if (y % 16 == 1) { a.seed.resize(52 + r.below(60)); v.push_back(a); }
                }
            vf::count("descriptors_swept", v.size());
            refuse(v);
        });
    for (int i = 0; i < vf::scale(san ? 8 : 24, san ? 100 : 600); i++)
        vf::run("mixtures", [&](vf::Rng &r) {
            std::vector<Args> v;
            for (int j = 0; j < 400; j++) { Args a = random_args(r, !san); if (!should_work(a)) v.push_back(a); }
            vf::count("mixtures", v.size());
            refuse(v);
        });
    // what is accepted works
    for (int q = 0; q < vf::scale(san ? 1 : 3, san ? 6 : 60); q++)
        for (int h = 4; h <= 6; h += 2)
            for (int hf = 0; hf < 3; hf++)
                for (uint32_t w : WS)
                    for (int s : {BASIC, FAST, EXT_FAST, REINIT}) {
                        if ((s == FAST || s == EXT_FAST) && w != 16) continue;
                        if (san && (h == 6 || (w == 256 && s != BASIC))) continue;
                        if (w == 256 && h == 6 && (q % 4 || hf != 0)) continue;
                        vf::run("key", [&](vf::Rng &r) {
                            Args a{s, seed48(r), h, hf, 0, w};
                            if (s == EXT_FAST) { bytes e = ref::descriptor(hf, 0, h, 0); e[2] = (uint8_t) (q ? 0 : 0); e.insert(e.end(), a.seed.begin(), a.seed.end()); a.seed = e; }
                            working(r, a);
                        });
                    }
    if (!san) {
        for (int hf = 0; hf < 3; hf++)
            for (int h = 8; h <= (vf::thorough() ? 14 : 10); h += 2)
                for (int s : {BASIC, FAST, EXT_FAST})
                    vf::run("key", [&](vf::Rng &r) {
                        Args a{s, seed48(r), h, hf, 0, s == BASIC ? (h > 8 ? 4u : 16u) : 16u};
                        if (s == EXT_FAST) { bytes e = ref::descriptor(hf, 0, h, 0); e.insert(e.end(), a.seed.begin(), a.seed.end()); a.seed = e; }
                        working(r, a);
                    });
        for (int h = 8; h <= vf::scale(18, 22); h += 2)
            for (int s : {BASIC, FAST, EXT_FAST, REINIT})
                for (int hf = 0; hf < 3; hf++)
                    if (h < 16 || hf == (h / 2 + s) % 3)
                        vf::run("grown", [&](vf::Rng &r) { grown(r, Args{s, seed48(r), h, hf, 0, (s == BASIC || s == REINIT) && h <= 12 ? WS[r.below(3)] : 16}, h, hf); });
        for (int q = 0; q < vf::scale(6, 200); q++) vf::run("parameters", [&](vf::Rng &r) { parameters(r); });
        for (int h = 4; h <= 30; h += 2)
            for (int hf = 0; hf < 3; hf++)
                for (int ext = 0; ext < 2; ext++)
                    vf::run("planted", [&](vf::Rng &r) { planted(r, h, hf, ext); });
        for (int hf = 0; hf < 3; hf++)
            for (int h = 12; h <= 30; h += 2) {
                for (uint32_t w : WS) vf::run("tall", [&](vf::Rng &r) { sets_out({BASIC, seed48(r), h, hf, 0, w}); });
                vf::run("tall", [&](vf::Rng &r) { sets_out({FAST, seed48(r), h, hf, 0, 16}); });
                vf::run("tall", [&](vf::Rng &r) {
                    bytes e = ref::descriptor(hf, 0, h, 0), s = seed48(r);
                    e[2] = (uint8_t) r.below(256);
                    e.insert(e.end(), s.begin(), s.end());
                    sets_out({EXT_FAST, e, 0, 0, 0, 16});
                });
            }
    }
}
