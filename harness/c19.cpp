// C19: the Rust port and the C++ library in lock step: the same calls are made on both, every result and
// every refusal compared, each side verifying what the other signed. A third opinion (the reference) says
// which side is wrong. A panic anywhere in the port is reported by rs::take.
#include "tall.h"
#include "rs.h"
#define EXPECT(ok, cls, what) vf::check((ok), cls, [&] { return std::string(what); })
using namespace vq;

namespace {
struct Cpp { bool ok = true; bytes v; std::string why; };
template <class F> Cpp ask(F f) { Cpp c; c.why = vf::outcome([&] { c.v = f(); }); c.ok = c.why.empty(); return c; }
void same(const Cpp &c, const rs::R &r, const std::string &cls, const std::string &what, bool values = true) {
    if (c.ok != r.ok) vf::violation("decision:" + cls, cat(what, ": C++ ", c.ok ? "accepts" : "refuses (" + c.why + ")", ", Rust ", r.ok ? "accepts" : "refuses (" + r.s().substr(0, 80) + ")"));
    else if (c.ok && values && c.v != r.v) vf::violation("value:" + cls, cat(what, ": C++ ", hexs(c.v, 80), " Rust ", hexs(r.v, 80)));
    vf::count(c.ok ? "agreed_values" : "agreed_refusals");
    vf::eval(vf::fnv(what));
}
bytes le32(uint32_t x) { return {(uint8_t) x, (uint8_t) (x >> 8), (uint8_t) (x >> 16), (uint8_t) (x >> 24)}; }
bytes str(const std::string &s) { return bytes(s.begin(), s.end()); }

void accessors(XmssBase &c, rs::Key &r, const std::string &what) {
    auto eq = [&](int n, const bytes &v, const char *name) {
        bytes g = r.get(n);
        if (g != v) vf::violation(cat("accessor:", name), cat(what, ": C++ ", hexs(v, 70), " Rust ", hexs(g, 70)));
        vf::evals(1);
    };
    eq(0, c.getSK(), "secret-key"); eq(1, c.getPK(), "public-key"); eq(2, c.getAddress(), "address"); eq(3, c.getExtendedSeed(), "extended-seed");
    eq(4, c.getDescriptorBytes(), "descriptor"); eq(5, c.getRoot(), "root"); eq(6, c.getPKSeed(), "pk-seed"); eq(7, c.getSKSeed(), "sk-seed");
    eq(8, c.getSKPRF(), "sk-prf"); eq(9, c.getSeed(), "seed"); eq(10, le32(c.getIndex()), "index"); eq(11, le32(c.getRemainingSignatures()), "remaining");
    eq(12, le32(c.getNumberSignatures()), "number"); eq(13, {(uint8_t) c.getHeight()}, "height");
    for (uint32_t w : WS) {
        rs::R z = rs::take(rs_signature_size(r.k, w), "get_signature_size");
        if (!z.ok || z.u32() != c.getSignatureSize(w)) vf::violation("accessor:signature-size", cat(what, " w=", w));
    }
}
uint32_t target(vf::Rng &r, uint32_t cur, uint32_t n) {
    switch (r.below(12)) {
        case 0: return cur;
        case 1: return cur ? cur - 1 : 0;
        case 2: return n - 1;
        case 3: return n;
        case 4: return n + (uint32_t) r.below(4);
        case 5: return 0xffffffffu - (uint32_t) r.below(2);
        case 6: return (uint32_t) r.below(cur + 1);
        case 7: return (1u << 31) + (uint32_t) r.below(3);
        case 8: return (n << r.range(1, 8)) + (uint32_t) r.below(n);
        default: return cur + (uint32_t) r.below(n < 64 ? 4 : n / 12);
    }
}
bool decision(const bytes &m, const bytes &s, const bytes &p, uint32_t w, const std::string &what) {
    bool c = false;
    std::string e = vf::outcome([&] { c = w == 0xffffffffu ? XmssBase::verify(m, s, p) : XmssBase::verify(m, s, p, w); });
    if (!e.empty()) vf::violation("cpp-verify-raised", what + ": " + e);
    bool r = rs::verify(m, s, p, w);
    if (c != r) vf::violation("decision:verify", cat(what, ": C++ ", c, " Rust ", r, " scheme ", ref::verify(m, s, p, w == 0xffffffffu ? 16 : w), " pk=", hexs(p, 67), " siglen=", s.size(), " w=", w));
    vf::count(c ? "verify_accepted" : "verify_rejected");
    vf::eval(vf::fnv(s, vf::fnv(p, vf::fnv(m, w))));
    return c;
}

void life(vf::Rng &r, Cfg c, bool cf, bool rf, int ops) {
    bytes seed = seed48(r);
    const uint32_t n = 1u << c.h;
    const std::string who = cat(name(c), cf ? " C++ fast" : " C++ basic", rf ? " Rust fast" : " Rust basic", " seed ", hexs(seed, 6));
    vf::at(who);
    auto a = make(cf, seed, c);
    rs::Key b(rf, seed, (uint8_t) c.h, c.hf, c.w);
    if (!b.made) { vf::violation("decision:construct", who + ": C++ built it, Rust refused"); return; }
    accessors(*a, b, who + " new");
    std::string trail;
    for (int i = 0; i < ops; i++) {
        if (r.chance(3, 5)) {
            bytes m = r.buf(msglen(r, false));
            trail += "s;";
            bytes pk = a->getPK();
            Cpp x = ask([&] { return a->sign(m); });
            rs::R y = b.sign(m);
            same(x, y, "sign", cat(who, " ", trail, " message of ", m.size()));
            if (!x.ok || !y.ok) vf::count("exhausted");
            else if (r.chance(1, 4)) {
                if (!decision(m, y.v, pk, c.w, who + " genuine")) vf::violation("genuine-rejected", who + " " + trail);
                bytes s2 = x.v, m2 = m;
                if (r.chance(1, 2) || m2.empty()) s2[r.below(s2.size())] ^= (uint8_t) (1 << r.below(8));
                else m2[r.below(m2.size())] ^= 1;
                decision(m2, s2, pk, c.w, who + " tampered");
                decision(m, x.v, pk, WS[r.below(4)], who + " under another W");
                vf::count("cross_verified");
            }
        } else {
            uint32_t to = target(r, a->getIndex(), n);
            if (r.chance(1, 40)) to = n - 1;
            trail += cat("i", to, ";");
            Cpp x = ask([&] { return le32(a->setIndex(to)); });
            rs::R y = b.set_index(to);
            same(x, y, "set_index", cat(who, " ", trail));
            vf::count(x.ok ? "moves" : "moves_refused");
        }
        if (r.chance(1, 6)) accessors(*a, b, who + " after " + trail);
        else if (a->getIndex() != b.index()) { vf::violation("accessor:index", cat(who, " after ", trail, ": C++ ", a->getIndex(), " Rust ", b.index())); return; }
    }
    accessors(*a, b, who + " after " + trail);
    // recovery from the extended seed gives the same key on both sides (fast, W = 16)
    if (c.h <= 8 && r.chance(1, 2)) {
        XmssFast a2(a->getExtendedSeed());
        rs::Key b2(a->getExtendedSeed());
        if (!b2.made) vf::violation("decision:extended-seed", who);
        else accessors(a2, b2, who + " recovered");
        vf::count("recovered");
    }
    vf::count("lives");
    vf::sample(who + " " + trail.substr(0, 80));
}

void construct(vf::Rng &r) {
    // every combination is put to both constructors; tall acceptable heights are left out (their trees take minutes)
    size_t n = r.chance(1, 3) ? 48 : r.chance(1, 2) ? r.below(120) : 47 + r.below(3);
    uint8_t h = (uint8_t) (r.chance(1, 3) ? 4 : r.chance(1, 3) ? r.below(12) : r.below(256));
    static const std::vector<uint32_t> SW = {0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 32, 64, 128, 255, 256, 257, 512, 1024, 65536, 0x10000010u, 0x80000000u, 0xfffffffeu};
    uint32_t w = r.chance(1, 2) ? WS[r.below(3)] : r.chance(1, 8) ? (uint32_t) r.next() % 0xffffffffu : r.pick(SW);
    int hf = (int) r.below(3);
    bool fast = r.chance(1, 2);
    if (n == 48 && h > 6 && h <= 30 && h % 2 == 0) h = 6;
    if (w == 256 && n == 48 && h == 6) h = 4;
    bytes seed = r.buf(n);
    std::string what = cat(fast ? "fast" : "basic", " construct ", n, "-byte seed h=", (int) h, " w=", w, " ", HFN[hf], " ", hexs(seed, 4));
    vf::at(what);
    std::unique_ptr<XmssBase> a;
    // the C++ fast constructor takes no W: its W = 16 form is compared
    std::string e = vf::outcome([&] { if (fast) a.reset(new XmssFast(seed, h, HF[hf], SHA256_2X)); else a.reset(new XmssBasic(seed, h, HF[hf], SHA256_2X, w)); });
    rs::Key b(fast, seed, h, hf, fast ? 16 : w);
    if (e.empty() != b.made) vf::violation("decision:construct", cat(what, ": C++ ", e.empty() ? "built" : e, " Rust ", b.made ? "built" : "refused"));
    else if (b.made) accessors(*a, b, what);
    vf::count(e.empty() ? "constructed" : "constructions_refused");
    vf::eval(vf::fnv(what));
    if (!e.empty() && fast) {   // W beyond the default through the same constructor: never a panic
        rs::Key c(true, seed, h, hf, w);
        vf::count(c.made ? "constructed" : "constructions_refused");
    }
    // extended seeds
    bytes ext = r.buf(r.chance(3, 4) ? 51 : r.below(80));
    if (ext.size() >= 3) {
        ext[0] = (uint8_t) (r.chance(2, 3) ? r.below(3) : r.below(256));
        ext[1] = (uint8_t) (r.chance(1, 2) ? r.range(2, 3) : r.chance(1, 2) ? (r.below(2) ? r.below(2) : 16 + r.below(240)) : r.below(4));
        if (r.chance(1, 2)) ext[2] = 0;
        if ((ext[1] & 15) > 3 && (ext[1] >> 4) == 0) ext[1] = 2;
    }
    what = "extended seed " + hexs(ext, 60);
    std::string e2 = vf::outcome([&] { a.reset(new XmssFast(ext)); });
    rs::Key c(ext);
    if (e2.empty() != c.made) vf::violation("decision:extended-seed", cat(what, ": C++ ", e2.empty() ? "built" : e2, " Rust ", c.made ? "built" : "refused"));
    else if (c.made) accessors(*a, c, what);
    vf::count(e2.empty() ? "constructed" : "constructions_refused");
    vf::eval(vf::fnv(what));
}

void verify_garbage(vf::Rng &r) {
    static const int H[] = {4, 6, 8, 10, 16, 18, 20, 24, 28, 30};
    for (int q = 0; q < 12; q++) {
        Cfg c{(int) r.below(3), H[r.below(10)], WS[r.below(8) == 0 ? 3 : r.below(3)]};
        std::vector<ref::n32> auth(c.h);
        for (auto &x : auth) x = r.n32();
        uint32_t idx = (uint32_t) r.below(1ull << c.h);
        ref::Key k = ref::fabricate(c.hf, c.h, c.w, r.n32(), r.n32(), r.n32(), idx, auth);
        bytes m = r.buf(msglen(r)), pk = k.epk(), sig = ref::sign_with(k, idx, m, auth);
        const std::string what = cat("signature ", name(c), " idx ", idx, " message ", m.size(), " bytes");
        vf::at(what);
        if (!decision(m, sig, pk, c.w, what)) vf::violation("genuine-rejected", what);
        if (c.w == 16) decision(m, sig, pk, 0xffffffffu, what + " default W");
        for (int t = 0; t < 14; t++) {
            bytes m2 = m, s2 = sig, p2 = pk;
            uint32_t w2 = c.w;
            switch (t) {
                case 0: s2[r.below(4)] ^= (uint8_t) (1 << r.below(8)); break;
                case 1: s2[4 + r.below(32)] ^= 1; break;
                case 2: s2[36 + r.below(s2.size() - 36)] ^= (uint8_t) (1 << r.below(8)); break;
                case 3: p2[0] = (uint8_t) r.below(256); break;
                case 4: p2[1] = (uint8_t) r.below(256); break;
                case 5: p2[2] = (uint8_t) r.below(256); break;
                case 6: p2[3 + r.below(64)] ^= 0x80; break;
                case 7: m2.push_back(0); break;
                case 8: if (!m2.empty()) m2.pop_back(); break;
                case 9: s2.resize(s2.size() + 32 * (r.below(5) - 2)); break;
                case 10: s2.resize(r.below(9000)); break;
                case 11: p2.resize(r.below(100)); break;
                case 12: { static const std::vector<uint32_t> BW = {0, 1, 2, 3, 4, 5, 8, 16, 17, 32, 64, 128, 255, 256, 257, 65536, 0x80000000u}; w2 = r.pick(BW); break; }
                case 13: { s2 = bytes(ref::sig_base_size(c.w) + 32 * r.below(260), 0x5a); break; }
            }
            decision(m2, s2, p2, w2, cat(what, " change ", t));
        }
    }
}

// a word of the list, or nearly one
std::string near_word(vf::Rng &r) {
    std::string w = words()[r.below(4096)];
    switch (r.below(7)) {
        case 0: w[0] = (char) toupper(w[0]); break;
        case 1: for (char &c : w) c = (char) toupper(c); break;
        case 2: w[r.below(w.size())] ^= 0x20; break;
        case 3: w.resize(std::min<size_t>(w.size(), 1 + r.below(4))); break;
        case 4: w += w.back(); break;
        case 5: w += ",.-'1"[r.below(5)]; break;
        default: break;
    }
    return w;
}
std::string some_text(vf::Rng &r) {
    static const char alphabet[] = "0123456789abcdefABCDEFgGzZ \t\n+-xX";
    std::string s;
    switch (r.below(8)) {
        case 6: for (size_t n = 2 * r.below(6), i = 0, bad = r.below(n + 1); i < n; i++) s += (i ? " " : "") + (i == bad ? near_word(r) : words()[r.below(4096)]); break;
        case 7: {   // hex with something before, in or after it
            static const std::vector<std::string> P = {"0x", "0X", "+f", "-1", " a", "a ", "0b", "\\x", "1e", "f_", ""};
            for (size_t n = 2 * r.below(12), i = 0; i < n; i++) s += alphabet[r.below(22)];
            s.insert(2 * r.below(s.size() / 2 + 1), r.pick(P));
            break;
        }
        case 5: {   // characters of several bytes, some of them white space elsewhere
            static const std::vector<std::string> U = {"\xc2\xa0", "\xc2\x85", "\xe1\x9a\x80", "\xe2\x80\x83", "\xe2\x80\xa8", "\xe3\x80\x80", "\xef\xbb\xbf", "\xc3\xa9", "\xef\xbc\x91", "\xd9\xa1", "\xf0\x9f\x94\x91", "\xc4\xb0", "\xe2\x84\xaa"};
            for (size_t n = r.below(10), i = 0; i < n; i++) s += r.chance(1, 3) ? r.pick(U) : r.chance(1, 2) ? words()[r.below(4096)] : r.chance(1, 2) ? " " : "a1";
            break;
        }
        case 0: for (size_t n = r.below(60), i = 0; i < n; i++) s += alphabet[r.below(22)]; break;
        case 1: for (size_t n = r.below(20), i = 0; i < n; i++) s += alphabet[r.below(sizeof alphabet - 1)]; break;
        case 2: for (size_t n = r.below(20), i = 0; i < n; i++) s += (char) r.below(128); break;
        case 3: for (size_t n = r.below(14), i = 0; i < n; i++) s += (i ? (r.chance(1, 8) ? "  " : " ") : "") + (r.chance(1, 12) ? std::string("qrl") : words()[r.below(4096)]); break;
        default: for (size_t n = r.below(14), i = 0; i < n; i++) s += (r.chance(1, 6) ? "\t" : " ") + words()[r.below(4096)]; if (r.chance(1, 2)) s += "\n"; break;
    }
    return s;
}
void parse(vf::Rng &r) {
    for (int i = 0; i < 60; i++) {
        bytes b = r.buf(r.chance(1, 2) ? r.below(8) : r.chance(1, 3) ? 51 + 16 * r.below(2) : r.below(120));
        if (!b.empty() && r.chance(1, 2)) b[0] = (uint8_t) r.below(4);
        if (b.size() > 1 && r.chance(1, 2)) b[1] = (uint8_t) r.below(32);
        auto fields = [](QRLDescriptor d) { bytes f{(uint8_t) d.getHashFunction(), (uint8_t) d.getSignatureType(), d.getHeight(), (uint8_t) d.getAddrFormatType()}; bytes g = d.getBytes(); f.insert(f.end(), g.begin(), g.end()); return f; };
        std::string hx = hexs(b, 200);
        same(ask([&] { return fields(QRLDescriptor::fromBytes(b)); }), rs::take(rs_descr(0, b.data(), b.size()), "descriptor " + hx), "descriptor", "descriptor of " + hx);
        same(ask([&] { return fields(QRLDescriptor::fromExtendedSeed(b)); }), rs::take(rs_descr(1, b.data(), b.size()), "descriptor " + hx), "descriptor", "descriptor of extended seed " + hx);
        same(ask([&] { return fields(QRLDescriptor::fromExtendedPK(b)); }), rs::take(rs_descr(2, b.data(), b.size()), "descriptor " + hx), "descriptor", "descriptor of public key " + hx);
        same(ask([&] { return QRLHelper::getAddress(b); }), rs::take(rs_address(b.data(), b.size()), "address of " + hx), "address", "address of " + hx);
        if (b.size() == 67) {
            Cpp a = ask([&] { return QRLHelper::getAddress(b); });
            if (a.ok) { bytes ad = a.v; if (r.chance(1, 2)) ad[r.below(ad.size())] ^= 1; if (r.chance(1, 4)) ad.resize(r.below(2) ? ad.size() + r.below(4) : r.below(ad.size())); same(ask([&] { return bytes{(uint8_t) QRLHelper::addressIsValid(ad)}; }), rs::take(rs_address_valid(ad.data(), ad.size()), "valid"), "address-valid", "validity of " + hexs(ad, 60)); }
        }
        same(ask([&] { return bytes{(uint8_t) QRLHelper::addressIsValid(b)}; }), rs::take(rs_address_valid(b.data(), b.size()), "valid"), "address-valid", "validity of " + hx);
        uint32_t wrap = (uint32_t) (r.chance(1, 2) ? 0 : r.below(b.size() + 3));
        same(ask([&] { return str(bin2hstr(b, wrap)); }), rs::text(0, b, wrap), "bin2hstr", cat("hex of ", hx, " wrap ", wrap));
        same(ask([&] { return str(bin2mnemonic(b)); }), rs::text(2, b), "bin2mnemonic", "mnemonic of " + hx);
        std::string t = some_text(r);
        std::string shown = vf::esc(t);
        same(ask([&] { return hstr2bin(t); }), rs::text(1, t), "hstr2bin", "hex text '" + shown + "'");
        same(ask([&] { return mnemonic2bin(t); }), rs::text(3, t), "mnemonic2bin", "mnemonic '" + shown + "'");
        same(ask([&] { return str2bin(t); }), rs::text(4, t), "str2bin", "text '" + shown + "'");
        same(ask([&] { return str(bin2hstr(t, wrap)); }), rs::text(5, t, wrap), "bin2hstr-text", cat("hex of text '", shown, "' wrap ", wrap));
        bytes h = r.buf(msglen(r, i == 0));
        size_t out = r.below(400);
        same(ask([&] { return shake128(out, h); }), rs::hash(0, h, out), "shake128", cat("shake128 of ", h.size(), " to ", out));
        same(ask([&] { return shake256(out, h); }), rs::hash(1, h, out), "shake256", cat("shake256 of ", h.size(), " to ", out));
        same(ask([&] { return sha2_256(h); }), rs::hash(2, h, 0), "sha2_256", cat("sha2_256 of ", h.size(), " ", hexs(h, 4)));
        size_t cnt = r.below(5);
        same(ask([&] { return sha2_256_n(h, cnt); }), rs::hash(3, h, cnt), "sha2_256_n", cat("sha2_256_n of ", h.size(), " times ", cnt));
        uint32_t w = r.chance(2, 3) ? WS[r.below(4)] : r.chance(1, 2) ? (uint32_t) r.below(300) : (uint32_t) r.next() % 0xffffffffu;
        size_t sz = r.chance(1, 3) ? r.next() : r.chance(1, 2) ? r.below(20000) : ref::sig_base_size(w) + 32 * r.below(260);
        same(ask([&] { return bytes{XmssBase::getHeightFromSigSize(sz, w)}; }), rs::take(rs_height_from_size(sz, w), "height"), "height-from-size", cat("height of size ", sz, " w=", w));
        same(ask([&] { return le32(XmssBase::calculateSignatureBaseSize(w)); }), rs::take(rs_base_size(w), "base size"), "base-size", cat("base size w=", w));
        bytes hs = r.buf(r.below(80));
        uint32_t shift = (uint32_t) r.next(), count = (uint32_t) r.below(6);
        same(ask([&] { bytes o; for (auto &x : getHashChainSeed(hs, shift, count)) { bytes n = le32((uint32_t) x.size()); o.insert(o.end(), n.begin(), n.end()); o.insert(o.end(), x.begin(), x.end()); } return o; }),
             rs::take(rs_chain(hs.data(), hs.size(), shift, count), "chain"), "hash-chain", cat("hash chain ", hexs(hs, 8), " ", shift, " ", count));
        uint8_t dh = (uint8_t) r.below(31);
        int dhf = (int) r.below(3);
        same(ask([&] { return QRLDescriptor(HF[dhf], XMSS, dh, SHA256_2X).getBytes(); }), rs::take(rs_descr_new((uint32_t) dhf, dh), "new"), "descriptor-bytes", cat("descriptor bytes ", dhf, " ", (int) dh));
    }
    vf::count("parse_rounds");
}

void pool(vf::Rng &r) {
    static const std::vector<uint64_t> START = {0, 1, 2, 8, 9, 98, 99, 254, 255, 256, 998, 65534, 65535, 0xfffffffe, 0xffffffff, 0x100000000ull, 99999999999ull};
    bytes base = r.chance(3, 4) ? r.buf(48) : r.buf(r.below(100));
    uint64_t start = r.chance(3, 4) ? r.pick(START) : r.below(100000);
    size_t size = r.below(6);
    uint8_t h = r.chance(1, 6) ? (uint8_t) (r.chance(1, 2) ? 5 : 32) : 4;
    const std::string what = cat("Rust pool of ", size, " from ", start, " height ", (int) h, " base ", hexs(base, 6), " (", base.size(), ")");
    vf::at(what);
    RsOut why;
    RsPoolT *p = rs_pool(base.data(), base.size(), h, start, size, &why);
    if (!rs::take(why, what).ok) { vf::violation("pool-refused", what); return; }
    std::set<bytes> seen;
    for (uint64_t i = 0; i < 2 + size + r.below(3); i++) {
        if (rs_pool_index(p) != start + i) vf::violation("pool-index", cat(what, ": reports ", rs_pool_index(p), " before call ", i));
        rs::R av = rs::take(rs_pool_available(p), what);
        if (av.ok && av.v[0] && size == 0) vf::violation("pool-available-without-cache", what);
        RsOut w2;
        RsKey *k = rs_pool_next(p, &w2);
        rs::R res = rs::take(w2, what);
        if (res.ok != (h == 4)) vf::violation("pool-decision", cat(what, " call ", i, ": ", res.ok ? "gave a tree" : res.s()));
        if (k) {
            rs::Key key(k);
            std::string text = ref::hex(base) + std::to_string(start + i + 1);
            bytes s = ref::sha256(bytes(text.begin(), text.end()));
            s.insert(s.end(), s.begin(), s.begin() + 16);
            ref::Key rk = ref::make_key(s, ref::SHAKE_128, 4, 16);
            if (key.get(0) != rk.secret(0)) vf::violation("pool-key", cat(what, " call ", i, " is not the key of index ", start + i));
            if (!seen.insert(key.get(1)).second) vf::violation("pool-key-twice", what);
            bytes m = r.buf(20);
            rs::R sig = key.sign(m);
            if (!sig.ok || sig.v != ref::sign(rk, 0, m)) vf::violation("pool-key-signature", what);
            vf::count("pool_keys");
        } else vf::count("pool_refusals");
        vf::eval(cat(what, i));
    }
    rs_pool_free(p);
}
std::unique_ptr<rs::Key> planted(tall::Sparse &t, const bytes &seed, uint32_t s) {
    tall::State o = tall::state_at(t, s);
    bytes b;
    for (const bytes *x : {&o.sk, &o.auth, &o.keep, &o.nodes, &o.retain}) b.insert(b.end(), x->begin(), x->end());
    RsKey *k = rs_plant(seed.data(), seed.size(), (uint8_t) t.k.h, (uint32_t) t.k.hf, (uint32_t) t.k.w.w, b.data(), b.size());
    return k ? std::make_unique<rs::Key>(k) : nullptr;
}
// planted states mean to this tree's port what they mean to the scheme: compared with a generated key moved along
bool rust_plants() {
    static const bool ok = [] {
        vf::Rng r(78, 5);
        bytes seed = r.buf(48);
        auto t = tall::sparse(seed, Cfg{2, 6, 2}, 0, 64);
        rs::Key g(true, seed, 6, 2, 2);
        for (uint32_t i = 0; i < 64; i++) {
            if (i == 0 || i == 5 || i == 22 || i == 31 || i == 47 || i == 60) {
                auto p = planted(*t, seed, i);
                if (!p || p->get(1) != g.get(1) || p->get(0) != g.get(0)) return false;
                if (p->sign({2}).v != t->sign(i, {2})) return false;
            }
            if (!g.sign({2}).ok) return false;
        }
        vf::count("with_internals");
        return true;
    }();
    return ok;
}
void tall_rust(vf::Rng &r, Cfg c, int steps, int turn) {
    if (!rust_plants()) return;
    bytes seed = seed48(r);
    uint32_t s = tall::place(r, c.h, steps, turn);
    const uint64_t n = 1ull << c.h;
    const std::string who = cat("Rust ", name(c), " planted at ", s, " seed ", hexs(seed, 6));
    vf::at(who);
    auto t = tall::sparse(seed, c, s, steps);
    auto b = planted(*t, seed, s);
    auto a = tall::works() ? tall::make(*t, seed, s) : nullptr;
    if (!b) return;
    for (uint32_t i = s; i < s + (uint32_t) steps; i++) {
        if (i > s && r.chance(1, 6) && i + 1 < n && i + 1 < s + (uint32_t) steps) {
            i++;
            rs::R y = b->set_index(i);
            if (!y.ok || y.u32() != i) vf::violation("decision:set_index", cat(who, ": to ", i));
            if (a) a->setIndex(i);
        }
        bytes m = r.buf(12);
        rs::R y = b->sign(m);
        if (i >= n) {
            if (y.ok) vf::violation("decision:sign", cat(who, ": signed past the end at ", i));
            vf::count("tall_exhausted");
            break;
        }
        if (!y.ok) { vf::violation("decision:sign", cat(who, ": refused at ", i, " ", y.s())); return; }
        if (y.v != t->sign(i, m)) { vf::violation("value:sign", cat(who, ": signature at ", i, " is not the scheme's")); return; }
        if (a) {
            if (a->sign(m) != y.v) { vf::violation("value:sign", cat(who, ": the two libraries differ at ", i)); return; }
            accessors(*a, *b, who);
        }
        if (b->index() != i + 1) vf::violation("accessor:index", cat(who, ": ", b->index(), " after signing at ", i));
        if (!rs::verify(m, y.v, t->k.epk(), c.w)) vf::violation("genuine-rejected", cat(who, " at ", i));
        vf::count("tall_signatures");
        vf::eval(cat(who, i));
    }
    // neither rewinds nor runs past the end
    for (uint32_t to : {b->index() ? b->index() - 1 : 0u, (uint32_t) n, 0u, 0xffffffffu}) {
        if (to == b->index()) continue;
        rs::R y = b->set_index(to);
        if (to < b->index() || to >= n) { if (y.ok) vf::violation("decision:set_index", cat(who, ": moved to ", to, " from ", b->index())); }
        vf::evals(1);
    }
}
}  // namespace

// Index moves of the Rust base class over the whole range of indices, judged by the index rules.
void base_moves(vf::Rng &r, int h) {
    for (int q = 0; q < 20; q++) {
        bytes seed = r.buf(48);
        const uint64_t n = 1ull << h;
        uint64_t model = 0;
        std::vector<uint32_t> to;
        for (int i = 0; i < 60; i++) {   // mostly forward, over every byte boundary
            to.push_back(r.chance(1, 4) ? (uint32_t) std::min<uint64_t>(0xffffffffull, model + (1ull << r.below(h + 1))) : r.chance(1, 4) ? (uint32_t) r.next() : r.chance(1, 3) ? (uint32_t) ((model & ~0xffull) + r.below(512)) : (uint32_t) (model + r.below(1 + (n - model) / 8)));
            if (to.back() < n && to.back() >= model) model = to.back();
        }
        rs::R o = rs::take(rs_base_moves((uint32_t) r.below(3), (uint8_t) h, seed.data(), seed.size(), to.data(), to.size()), "Rust base class");
        if (!o.ok && o.s() == "internals differ") return;
        if (!o.ok || o.v.size() != 13 * to.size()) { vf::violation("rust-base-index", cat("h=", h, " ", o.s().substr(0, 100))); return; }
        model = 0;
        for (size_t i = 0; i < to.size(); i++) {
            bool ok = to[i] < n && to[i] >= model;
            if (ok) model = to[i];
            const uint8_t *p = &o.v[13 * i];
            uint32_t at, left, sk = (uint32_t) p[9] << 24 | (uint32_t) p[10] << 16 | (uint32_t) p[11] << 8 | p[12];
            memcpy(&at, p + 1, 4), memcpy(&left, p + 5, 4);
            if (p[0] != ok || at != model || left != n - model || sk != model) vf::violation("rust-base-index", cat("h=", h, " set_index(", to[i], ") ", p[0] ? "accepted" : "refused", ", index ", at, ", remaining ", left, ", secret key index ", sk, ", expected index ", model));
            vf::evals(1);
            vf::count("rust_base_moves");
        }
        vf::eval(vf::fnv(seed));
    }
}
// The basic signer over the carries of the index
void basic_carries(vf::Rng &r, Cfg c) {
    bytes seed = r.buf(48);
    auto k = make(false, seed, c);
    rs::Key q(false, seed, (uint8_t) c.h, c.hf, c.w);
    EXPECT(q.made, "rust-construction-refused", name(c));
    if (!q.made) return;
    for (uint32_t at : {255u, 511u, 1022u}) {
        if (at >> c.h) break;
        vf::at(cat("basic ", name(c), " index ", at));
        k->setIndex(at);
        EXPECT(q.set_index(at).ok, "rust-refused-index", cat(at));
        for (int i = 0; i < 2; i++) {
            bytes m = r.buf(20), s = k->sign(m);
            rs::R t = q.sign(m);
            EXPECT(t.ok && t.v == s && q.index() == k->getIndex() && q.index() == at + i + 1 && q.get(0) == k->getSK(), "basic-signature", cat(name(c), " seed ", hexs(seed, 48), " index ", at + i));
            vf::eval(vf::fnv(s));
            vf::count("rust_basic_carries");
        }
    }
}

void harness() {
    rs_init();
    words();
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t w : WS)
            for (int cf = 0; cf < 2; cf++)
                for (int rf = 0; rf < 2; rf++)
                    for (int i = 0; i < (w == 256 ? 1 : vf::scale(2, 20)); i++)
                        vf::run("life", [&](vf::Rng &r) { life(r, Cfg{hf, w == 256 || !(cf && rf) || r.chance(1, 2) ? 4 : 6, w}, cf, rf, w == 256 ? 10 : cf && rf ? 50 : 26); });
    for (int hf = 0; hf < 3; hf++)
        for (int i = 0; i < vf::scale(2, 12); i++)
            vf::run("tall", [&](vf::Rng &r) { life(r, Cfg{hf, i % 2 && vf::thorough() ? 10 : 8, i % 2 ? 16u : 4u}, true, true, i % 2 ? 150 : 250); });
    for (int i = 0; i < vf::scale(5, 12); i++)
        vf::run("taller", [&](vf::Rng &r) { life(r, Cfg{i % 3, i % 5 < 3 ? 10 : 12, i % 2 ? 16u : 4u}, true, true, 24); });
    for (int h = 10; h <= 30; h += 2)
        for (int turn = 0; turn < vf::scale(6, 24); turn++)
            vf::run("planted", [&](vf::Rng &r) { tall_rust(r, Cfg{(h / 2 + turn) % 3, h, turn % 3 == 2 ? 4u : turn % 3 ? 16u : 2u}, vf::scale(5, 12), turn); });
    // every index of a tree signed in order by the two fast signers
    for (int hf = 0; hf < 3; hf++)
        vf::run("whole", [&](vf::Rng &r) {
            for (int h : {4, 6, 8}) {
                bytes seed = r.buf(48);
                XmssFast a(seed, (unsigned char) h, HF[hf], SHA256_2X);
                rs::Key b(true, seed, (uint8_t) h, hf, 16);
                for (uint32_t i = 0; i < (1u << h) + 2; i++) {
                    bytes m = r.buf(8);
                    same(ask([&] { return a.sign(m); }), b.sign(m), "sign", cat("whole tree h", h, " ", HFN[hf], " at ", i, " ", hexs(seed, 4)));
                }
                vf::count("whole_trees");
            }
        });
    for (int q = 0; q < 4; q++)
        vf::run("long-messages", [&](vf::Rng &r) {
            const bool cf = q & 1, rf = q & 2;
            Cfg c{(int) ((vf::S().seed + q) % 3), 4, 16};
            bytes seed = seed48(r);
            auto a = make(cf, seed, c);
            rs::Key b(rf, seed, 4, c.hf, 16);
            for (size_t n : {(size_t) 1 << 16, ((size_t) 1 << 17) - 1, ((size_t) 1 << 20) + 3, ((size_t) 1 << 24) + r.below(9)}) {
                bytes m = r.buf(n), pk = a->getPK();
                const std::string what = cat(name(c), " message of ", n, " bytes, seed ", hexs(seed, 48));
                Cpp x = ask([&] { return a->sign(m); });
                rs::R y = b.sign(m);
                same(x, y, "sign", what);
                if (!decision(m, y.v, pk, 16, what)) vf::violation("genuine-rejected", what);
                m[r.below(n)] ^= 1;
                if (decision(m, y.v, pk, 16, what + " altered")) vf::violation("accepted-wrong", what);
                vf::count("long_messages");
            }
        });
    for (int h = 4; h <= 30; h += 2) vf::run("base-moves", [&](vf::Rng &r) { base_moves(r, h); });
    for (int i = 0; i < vf::scale(1, 6); i++) vf::run("basic-carries", [&](vf::Rng &r) { basic_carries(r, Cfg{(int) ((vf::S().seed + i) % 3), 10, 4}); });
    for (int i = 0; i < vf::scale(72, 1500); i++) vf::run("construct", [&](vf::Rng &r) { for (int k = 0; k < 12; k++) construct(r); });
    for (int i = 0; i < vf::scale(60, 900); i++) vf::run("verify", [&](vf::Rng &r) { verify_garbage(r); });
    for (int i = 0; i < vf::scale(60, 900); i++) vf::run("parse", [&](vf::Rng &r) { parse(r); });
    for (int i = 0; i < vf::scale(30, 500); i++) vf::run("pool", [&](vf::Rng &r) { pool(r); });
}
