// C13: random lifetimes of signing keys (construct, copy, move, assign, swap, contain, share, sign,
// fail to construct, destroy) against a model holding only (seed, parameters, index) per object.
// ASan watches the memory; the plain build counts live allocations.
#include "tall.h"
#include "xmssPool.h"
#include <malloc.h>
#include <new>
#include <thread>
using namespace vq;

static std::atomic<long> LIVE{0};
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#ifndef WITH_ASAN
static void *counted(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    LIVE++;
    return p;
}
void *operator new(size_t n) { return counted(n); }
void *operator new[](size_t n) { return counted(n); }
void operator delete(void *p) noexcept { if (p) { LIVE--; free(p); } }
void operator delete[](void *p) noexcept { if (p) { LIVE--; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { LIVE--; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { LIVE--; free(p); } }
#endif

struct Ident { bytes seed; Cfg c; };
static std::vector<Ident> IDS;
static const ref::Key &refkey(int id) {
    static std::map<int, ref::Key> m;
    auto it = m.find(id);
    if (it == m.end()) it = m.emplace(id, ref::make_key(IDS[id].seed, IDS[id].c.hf, IDS[id].c.h, IDS[id].c.w)).first;
    return it->second;
}
static const bytes &refsig(int id, uint32_t idx, const bytes &m) {
    static std::map<std::pair<int, uint32_t>, std::pair<bytes, bytes>> memo;
    auto &e = memo[{id, idx}];
    if (e.second.empty() || e.first != m) e = {m, ref::sign(refkey(id), idx, m)};
    return e.second;
}

// Model: which identity and index, or -1 when the object may only be assigned to or destroyed.
struct M { int id = -1; uint32_t idx = 0; };
template <class K> struct Slot { std::unique_ptr<K> k; M m; };

static FastW *newfast(int id) { auto &i = IDS[id]; return new FastW(i.seed, i.c.h, i.c.hf, i.c.w); }
static XmssBasic *newbasic(int id) { auto &i = IDS[id]; return new XmssBasic(i.seed, (unsigned char) i.c.h, HF[i.c.hf], SHA256_2X, i.c.w); }
static FastW *fresh(FastW *, int id) { return newfast(id); }
static XmssBasic *fresh(XmssBasic *, int id) { return newbasic(id); }

// One key does what its model says. sign=true uses up an index.
template <class K> static void judge(K &k, M &m, const std::string &what, bool sign, bool quiet) {
    if (m.id < 0) return;
    const Ident &id = IDS[m.id];
    if (quiet) {
        k.getSK();
        k.getPK();
        if (sign && m.idx < (1u << id.c.h)) { k.sign(bytes(5, 1)); m.idx++; }
        else if (sign) vf::outcome([&] { k.sign(bytes(5, 1)); });
        return;
    }
    const ref::Key &rk = refkey(m.id);
    auto where = [&] { return cat(what, " key ", m.id, " ", name(id.c), " index ", m.idx, " sk=", hexs(k.getSK(), 132)); };
    if (k.getSK() != rk.secret(m.idx)) vf::violation("key-state-changed", where());
    else if (k.getPK() != rk.epk() || k.getIndex() != m.idx || k.getHeight() != id.c.h || k.getSeed() != id.seed) vf::violation("key-accessors-changed", where());
    vf::evals(1);
    vf::count("keys_inspected");
    if (!sign) return;
    bytes msg(7, (uint8_t) m.idx), s;
    std::string o = vf::outcome([&] { s = k.sign(msg); });
    if (m.idx >= (1u << id.c.h)) {
        if (o.empty()) vf::violation("exhausted-key-signed", where());
        return;
    }
    if (!o.empty()) vf::violation("sign-raised", where() + " " + o);
    else if (s != refsig(m.id, m.idx, msg)) vf::violation("wrong-signature", where() + " sig=" + hexs(s, 40));
    m.idx++;
    vf::eval(cat(what, " ", m.id, " ", m.idx));
    vf::count("signatures");
}

template <class K> static void history(vf::Rng &r, int steps, bool quiet, const char *tn) {
    std::vector<Slot<K>> slot(5);
    std::vector<K> box;       // contiguous storage: growth and erasure copy or move keys
    std::vector<M> boxm;
    std::string trail = tn;
    auto dump = [&](const std::string &s) { if (!quiet) { trail += " " + s; if (trail.size() > 900) trail = trail.substr(trail.size() - 800); vf::at(trail); vf::count("ops_" + s.substr(0, s.find(' '))); } };
    for (int st = 0; st < steps; st++) {
        auto &a = slot[r.below(slot.size())], &b = slot[r.below(slot.size())];
        switch (r.below(18)) {
            case 0: case 1: {
                int id = (int) r.below(std::is_same<K, XmssBasic>::value && !vf::thorough() ? 4 : IDS.size());
                dump(cat("construct ", id));
                a.k.reset(fresh((K *) nullptr, id));
                a.m = {id, 0};
                break; }
            case 2: case 3:
                if (!b.k || b.m.id < 0) break;
                dump("copy-construct");
                if (&a == &b) { K c(*b.k); M m = b.m; judge(c, m, trail, true, quiet); break; }
                a.k.reset(new K(*b.k));
                a.m = b.m;
                break;
            case 4: case 5:
                if (!a.k || !b.k || b.m.id < 0) break;
                dump(&a == &b ? "self-assign" : "copy-assign");
                *a.k = *b.k;
                a.m = b.m;
                break;
            case 6:
                if (!b.k || b.m.id < 0 || &a == &b) break;
                dump("move-construct");
                a.k.reset(new K(std::move(*b.k)));
                a.m = b.m;
                b.m.id = -1;
                break;
            case 7:
                if (!a.k || !b.k || b.m.id < 0 || &a == &b) break;
                dump("move-assign");
                *a.k = std::move(*b.k);
                a.m = b.m;
                b.m.id = -1;
                break;
            case 8:
                if (!a.k || !b.k || &a == &b || a.m.id < 0 || b.m.id < 0) break;
                dump("swap");
                std::swap(*a.k, *b.k);
                std::swap(a.m, b.m);
                break;
            case 9:
                if (!a.k) break;
                dump("destroy");
                a.k.reset();
                a.m = M();
                break;
            case 10:  // as its base
                if (!a.k || a.m.id < 0) break;
                dump("base-delete");
                { std::unique_ptr<XmssBase> p(new K(*a.k)); M m = a.m; judge(*p, m, trail, true, quiet); }
                break;
            case 11:
                if (!a.k || a.m.id < 0) break;
                dump("box-push");
                box.push_back(*a.k);
                boxm.push_back(a.m);
                break;
            case 12:
                if (box.empty()) break;
                dump("box-erase");
                { size_t i = r.below(box.size()); box.erase(box.begin() + i); boxm.erase(boxm.begin() + i); }
                if (r.chance(1, 3)) { std::vector<K> c(box); box.swap(c); }
                if (r.chance(1, 3)) box.shrink_to_fit();
                break;
            case 13: {
                dump("failed-construct");
                bytes bad(r.chance(1, 2) ? 47 : 48, 1);
                vf::outcome([&] { XmssFast k(bad, (unsigned char) (bad.size() == 48 ? (r.chance(1, 2) ? 5 : 2) : 4), SHAKE_128); });
                vf::outcome([&] { XmssBasic k(bad, (unsigned char) (bad.size() == 48 ? 3 : 4), SHAKE_128, SHA256_2X, 16); });
                vf::outcome([&] { XmssFast k(bytes(51, 0xff)); });
                vf::outcome([&] { XmssFast k(bytes(50, 0)); });
                break; }
            case 14:  // by value through a function, a closure and an exception
                if (!a.k || a.m.id < 0) break;
                dump("by-value");
                { auto f = [&](K k, M m) { judge(k, m, trail, true, quiet); return k; };
                  K got = f(*a.k, a.m);
                  M m = a.m;
                  if (m.idx < (1u << IDS[m.id].c.h)) m.idx++;
                  judge(got, m, trail, true, quiet);
                  auto sp = std::make_shared<K>(got);
                  std::function<bytes()> g = [sp] { return sp->getPK(); };
                  sp.reset();
                  if (g() != (quiet ? g() : refkey(m.id).epk())) vf::violation("shared-key-changed", trail); }
                break;
            case 15:
                if (!a.k || a.m.id < 0) break;
                { uint32_t n = 1u << IDS[a.m.id].c.h, to = r.chance(1, 4) ? n - 1 : r.chance(1, 6) ? n : a.m.idx + (uint32_t) r.below(4);
                  dump(cat("set-index ", to));
                  std::string o = vf::outcome([&] { a.k->setIndex(to); });
                  bool ok = to >= a.m.idx && to < n;
                  if (!quiet && ok != o.empty()) vf::violation("set-index", cat(trail, " from ", a.m.idx, " to ", to, ": ", o));
                  if (ok) a.m.idx = to; }
                break;
            default:
                if (!a.k || a.m.id < 0) break;
                dump("sign");
                judge(*a.k, a.m, trail, true, quiet);
        }
        // every other live key is as it was
        if (!quiet) {
            for (auto &s : slot) if (s.k) judge(*s.k, s.m, trail, false, false);
            for (size_t i = 0; i < box.size(); i++) judge(box[i], boxm[i], trail, false, false);
            if (r.chance(1, 8)) {
                for (auto &s : slot) if (s.k) judge(*s.k, s.m, trail + " all", true, false);
                for (size_t i = 0; i < box.size(); i++) judge(box[i], boxm[i], trail + " box", true, false);
            }
        }
        if (box.size() > 7) { box.pop_back(); boxm.pop_back(); }
    }
    for (auto &s : slot) if (s.k && s.m.id >= 0 && r.chance(1, 2)) {  // to the end of the tree, the originals gone
        std::unique_ptr<K> last(new K(*s.k));
        s.k.reset();
        int left = vf::thorough() ? 300 : 20;
        while (left-- > 0 && s.m.idx < (1u << IDS[s.m.id].c.h)) { uint32_t before = s.m.idx; judge(*last, s.m, trail + " drain", true, quiet); if (s.m.idx == before) break; }
    }
    if (!quiet) vf::sample(trail.substr(0, 300));
}

static void identities(bool san) {
    vf::Rng r(vf::S().seed, 4242);
    IDS.clear();
    for (int hf = 0; hf < 3; hf++) IDS.push_back({r.buf(48), {hf, 4, 16}});
    IDS.push_back({r.buf(48), {(int) r.below(3), 4, 4}});
    IDS.push_back({r.buf(48), {1, 6, 16}});
    IDS.push_back({r.buf(48), {(int) r.below(3), 6, 2}});
    if (vf::thorough()) IDS.push_back({r.buf(48), {0, 4, 256}});
    if (!san && vf::thorough()) IDS.push_back({r.buf(48), {2, 8, 16}});
}

void harness() {
    const bool san = vf::S().part == "san", leak = vf::S().part == "leak";
    identities(san || leak);
    if (leak) {
        // the same history again and again: no allocation outlives it
        for (int n = 0; n < vf::scale(12, 100); n++)
            vf::run("leaks", [&](vf::Rng &r) {
                uint64_t sub = r.next();
                bool fast = n % 2;
                long live[4];
                size_t heap[4];
                vf::at(cat("leak history ", sub));
                for (int rep = 0; rep < 4; rep++) {
                    vf::Rng q(sub, 1);
                    if (fast) history<FastW>(q, 25, true, "fast"); else history<XmssBasic>(q, 25, true, "basic");
                    live[rep] = LIVE;
                    heap[rep] = mallinfo2().uordblks + mallinfo2().hblkhd;
                }
                if (live[3] != live[2] || live[2] != live[1]) vf::violation("leak", cat("live objects after each run of one history: ", live[0], " ", live[1], " ", live[2], " ", live[3]));
                if (heap[3] > heap[2] && heap[2] > heap[1] && heap[1] > heap[0]) vf::violation("leak-malloc", cat("heap in use after each run of one history: ", heap[0], " ", heap[1], " ", heap[2], " ", heap[3]));
                vf::eval(cat("leak ", sub));
                vf::count("leak_histories");
            });
        // single operations, accepted and refused, over and over: what they allocate is given back
        for (int hf = 0; hf < 3; hf++)
            vf::run("leaks-by-operation", [&](vf::Rng &r) {
                Cfg c{hf, 4, WS[r.below(3)]};
                const bytes seed = r.buf(48), msg = r.buf(60);
                FastW f(seed, 4, hf, 16), gone(seed, 4, hf, 16), part(seed, 4, hf, 16);
                XmssBasic b(seed, 4, HF[hf], SHA256_2X, 16), bgone(b);
                FastW near(f);
                near.setIndex(14);
                gone.setIndex(15); gone.sign(msg); bgone.setIndex(15); bgone.sign(msg); part.setIndex(7);
                const bytes sig = FastW(f).sign(msg), pk = f.getPK(), ext = f.getExtendedSeed();
                bytes bad = sig, xpk = pk, xext = ext;
                bad[100] ^= 1; xpk[0] ^= 0x40; xext[1] = 1;
                const std::string mn = bin2mnemonic(ext), hx = bin2hstr(ext);
                std::vector<std::pair<const char *, std::function<void()>>> ops = {
                    {"fast sign", [&] { FastW k(f); k.sign(msg); }}, {"fast exhausted sign", [&] { gone.sign(msg); }}, {"basic exhausted sign", [&] { bgone.sign(msg); }},
                    {"sign to the end", [&] { FastW k(near); k.sign(msg); k.sign(msg); vf::outcome([&] { k.sign(msg); }); vf::outcome([&] { k.setIndex(15); }); }}, {"skip and sign", [&] { FastW k(f); k.setIndex(9); k.sign(msg); }},
                    {"fast rewind", [&] { part.setIndex(3); }}, {"fast past the end", [&] { part.setIndex(16); }}, {"fast far past the end", [&] { part.setIndex(0xffffffffu); }},
                    {"basic past the end", [&] { b.setIndex(16); }}, {"basic rewind", [&] { bgone.setIndex(1); }}, {"same index", [&] { part.setIndex(7); }},
                    {"verify", [&] { XmssBase::verify(msg, sig, pk); }}, {"verify damaged", [&] { XmssBase::verify(msg, bad, pk); }}, {"verify descriptor", [&] { XmssBase::verify(msg, sig, xpk); }},
                    {"verify short", [&] { XmssBase::verify(msg, bytes(10, 1), pk); }}, {"verify short key", [&] { XmssBase::verify(msg, sig, bytes(66, 1)); }}, {"verify W", [&] { XmssBase::verify(msg, sig, pk, 5); }},
                    {"fast construct", [&] { XmssFast k(seed, 4, HF[hf]); }}, {"fast W construct", [&] { FastW k(seed, 4, hf, c.w); }}, {"basic construct", [&] { XmssBasic k(seed, 4, HF[hf], SHA256_2X, c.w); }},
                    {"fast bad seed", [&] { XmssFast k(bytes(47, 1), 4, HF[hf]); }}, {"fast odd height", [&] { XmssFast k(seed, 5, HF[hf]); }}, {"fast height 2", [&] { XmssFast k(seed, 2, HF[hf]); }},
                    {"fast height 32", [&] { XmssFast k(seed, 32, HF[hf]); }}, {"fast hash function", [&] { XmssFast k(seed, 4, (eHashFunction) 3); }}, {"fast address format", [&] { XmssFast k(seed, 4, HF[hf], (eAddrFormatType) 1); }},
                    {"fast bad W", [&] { FastW k(f); k.initialize_tree(7); }}, {"basic bad W", [&] { XmssBasic k(seed, 4, HF[hf], SHA256_2X, 7); }}, {"basic odd height", [&] { XmssBasic k(seed, 3, HF[hf], SHA256_2X, 16); }},
                    {"basic bad seed", [&] { XmssBasic k(bytes(49, 1), 4, HF[hf], SHA256_2X, 16); }}, {"extended", [&] { XmssFast k(ext); }}, {"extended short", [&] { XmssFast k(bytes(50, 1)); }}, {"extended descriptor", [&] { XmssFast k(xext); }},
                    {"accessors", [&] { f.getSK(); f.getPK(); f.getAddress(); f.getSeed(); f.getExtendedSeed(); f.getRoot(); f.getDescriptor(); f.getDescriptorBytes(); f.getSKSeed(); f.getPKSeed(); f.getSKPRF(); }},
                    {"text", [&] { mnemonic2bin(mn); hstr2bin(hx); bin2hstr(ext, 10); }}, {"bad mnemonic", [&] { mnemonic2bin(mn + " nonsense"); }}, {"bad count", [&] { bin2mnemonic(bytes(4, 1)); }}, {"bad hex", [&] { hstr2bin(hx + "g1"); }},
                    {"odd hex", [&] { hstr2bin(hx + "1"); }}, {"address", [&] { QRLHelper::getAddress(pk); QRLHelper::addressIsValid(f.getAddress()); }}, {"bad address", [&] { QRLHelper::getAddress(xpk); }},
                    {"bad descriptor", [&] { QRLDescriptor::fromBytes(bytes(2, 0)); }}, {"pool", [&] { XmssPool p(seed, 4, 3, 2); p.getNextTree(); }}, {"unused pool", [&] { XmssPool p(seed, 4, 3, 2); }},
                    {"failing pool", [&] { XmssPool p(seed, 5, 3, 1); p.getNextTree(); }},
                };
                for (auto &op : ops) {
                    const int reps = strstr(op.first, "pool") ? 6 : 20;
                    auto go = [&](int n) { while (n--) vf::outcome([&] { op.second(); }); };
                    vf::at(cat("leaks of ", op.first, " ", name(c)));
                    go(3);
                    long l0 = LIVE;
                    size_t h0 = mallinfo2().uordblks + mallinfo2().hblkhd;
                    go(reps);
                    long l1 = LIVE;
                    size_t h1 = mallinfo2().uordblks + mallinfo2().hblkhd;
                    vf::check(l1 - l0 < reps, "leak", [&] { return cat(op.first, " ", name(c), ": ", l1 - l0, " more live objects after ", reps, " calls"); });
                    if (!strstr(op.first, "pool")) vf::check((long) (h1 - h0) < 16 * reps, "leak-malloc", [&] { return cat(op.first, " ", name(c), ": ", (long) (h1 - h0), " more bytes in use after ", reps, " calls"); });
                    vf::eval(cat("leaks of ", op.first, hf, hexs(seed, 48)));
                    vf::count("operations_checked_for_leaks");
                }
            });
        return;
    }
    for (int n = 0; n < vf::scale(san ? 16 : 48, san ? 200 : 900); n++)
        vf::run("lifetimes", [&](vf::Rng &r) {
            if (n % 3) history<FastW>(r, 60, false, "fast"); else history<XmssBasic>(r, 30, false, "basic");
            vf::count("histories");
        });
    // a copy taken at every index, original signed on or destroyed first
    for (int id : {0, 1, 2, 4})
        vf::run("copy-at-each-index", [&](vf::Rng &r) {
            M m{id, 0};
            std::unique_ptr<FastW> k(newfast(id));
            uint32_t n = 1u << IDS[id].c.h, step = n > 16 ? 3 : 1;
            while (m.idx < n) {
                M c = m;
                std::unique_ptr<FastW> copy(new FastW(*k));
                FastW other(IDS[0].seed, 4, 0, 16);
                other = *k;
                if (r.chance(1, 2)) { k.swap(copy); }
                for (int i = 0; i < 3 && m.idx < n; i++) judge(*k, m, "original after copying", true, false);
                M c2 = c;
                for (int i = 0; i < 3 && c.idx < n; i++) judge(*copy, c, "copy", true, false);
                k.reset(new FastW(*k));
                for (int i = 0; i < 2 && c2.idx < n; i++) judge(other, c2, "assigned", true, false);
                if (step > 1 && m.idx < n) { uint32_t to = std::min(n - 1, m.idx + (uint32_t) r.below(step)); k->setIndex(to); m.idx = to; }
                vf::count("copies_at_index");
            }
        });
    // larger keys, really generated (cheap leaves, tall.h), copied and assigned over each other at random moments
    for (int n = 0; n < (san ? 4 : vf::scale(12, 120)); n++)
        vf::run("grown", [&](vf::Rng &r) {
            if (!tall::grows()) return;
            Cfg c{(int) r.below(3), san ? 8 : 8 + 2 * (int) ((n + vf::S().seed) % 4), 16};
            bytes seed = r.buf(48);
            tall::Grown t(seed, c);
            FastW small(IDS[0].seed, 4, 0, 16), big(bytes(48, 7), 8, 1, 4);
            tall::Grow g(&t.k);
            const uint32_t end = 1u << c.h;
            std::string trail = cat("grown ", name(c), " seed=", hexs(seed, 48));
            std::vector<std::unique_ptr<FastW>> k(4);
            k[0].reset(new FastW(seed, c.h, c.hf, c.w));
            const bytes m = r.buf(5);
            for (int st = 0; st < (san ? 60 : 200); st++) {
                auto &a = k[r.below(4)], &b = k[r.below(4)];
                if (!b) continue;
                int op = (int) r.below(8);
                if (&a == &b && op < 3) continue;
                uint32_t at = b->getIndex();
                trail += cat(" ", op, "@", at);
                if (trail.size() > 700) trail = trail.substr(trail.size() - 600);
                vf::at(trail);
                if (op == 0) a.reset(new FastW(*b));
                else if (op == 1) { if (!a) a.reset(new FastW(r.chance(1, 2) ? small : big)); *a = *b; }
                else if (op == 2) { a.reset(new FastW(std::move(*b))); b.reset(); }
                else if (op <= 4) {
                    uint32_t to = std::min(end - 1, at + (uint32_t) r.below(op == 3 ? 6 : end / 6));
                    if (to >= at) b->setIndex(to);
                } else if (at < end) {
                    if (b->sign(m) != t.sign(at, m)) { vf::violation("wrong-signature", cat(trail, " index ", at)); return; }
                    vf::eval(cat(hexs(seed, 48), at, " ", st));
                    vf::count("grown_signatures");
                }
                for (auto &x : k) if (x && (x->getSK() != t.k.secret(x->getIndex()) || x->getPK() != t.k.epk())) { vf::violation("key-state-changed", trail); return; }
            }
            vf::count(cat("grown_h", c.h));
        });
    // keys of a pool outlive it, and copies of them are their own
    vf::run("pool-keys", [&](vf::Rng &r) {
        bytes base = r.buf(48);
        std::vector<std::shared_ptr<XmssFast>> got;
        { XmssPool p(base, 4, 3, 3); for (int i = 0; i < 4; i++) got.push_back(p.getNextTree()); }
        for (int i = 0; i < 4; i++) {
            bytes s = base;
            s.push_back((uint8_t) (3 + i + 1));
            ref::Key rk = ref::make_key(ref::shake256(s, 48), 1, 4, 16);
            XmssFast c(*got[i]);
            bytes m = r.buf(9);
            for (uint32_t x = 0; x < 4; x++) if (got[i]->sign(m) != ref::sign(rk, x, m)) vf::violation("pool-key-signature", cat(i, " ", x));
            got[i].reset();
            for (uint32_t x = 0; x < 4; x++) if (c.sign(m) != ref::sign(rk, x, m)) vf::violation("pool-key-copy-signature", cat(i, " ", x));
            vf::eval(cat("pool ", i));
            vf::count("pool_keys");
        }
    });
}
