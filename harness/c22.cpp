// C22: the JavaScript modules, used through the names they export (shim/emscripten/bind.h records the binding
// table), against the reference scheme; and the browser seed helper in scripted environments (c22_seed.js).
#include <csignal>
#include <sys/wait.h>
#include "pqmock.h"
#include <emscripten/bind.h>
using namespace emscripten;

namespace {
#define EXPECT(ok, cls, what) vf::check((ok), cls, [&] { return std::string(what); })
typedef std::any Any;
Any N(long long x) { return Any(x); }
Any V(const bytes &b) { bytes c; c.reserve(b.size()); c.assign(b.begin(), b.end()); return Any(c); }
Any T(const std::string &s) { return Any(s); }
reg::Module *qrl, *dil, *kyb;
struct Missing : std::runtime_error { using std::runtime_error::runtime_error; };
reg::Fn &find(std::map<std::string, reg::Fn> &m, const std::string &n, const std::string &scope) {
    auto it = m.find(n);
    if (it == m.end()) { vf::violation("not-exported:" + scope + n, "the module does not export " + scope + n); throw vf::Skip(); }
    return it->second;
}
template <class... A> Any fn(reg::Module *m, const char *n, A... a) { reg::Args v{a...}; return find(m->functions, n, "")(v); }
template <class... A> Any st(reg::Module *m, const char *c, const char *n, A... a) { reg::Args v{a...}; return find(m->classes[c].statics, n, cat(c, "."))(v); }
// a method on an object that stays where it is
template <class... A> Any me(reg::Module *m, const char *c, const char *n, Any &self, A... a) {
    reg::Args v;
    v.push_back(Any());
    v[0].swap(self);
    int dummy[] = {0, (v.push_back(a), 0)...};
    (void) dummy;
    struct Back { reg::Args &v; Any &s; ~Back() { s.swap(v[0]); } } back{v, self};
    return find(m->classes[c].methods, n, cat(c, "#"))(v);
}
bytes B(const Any &a) { auto p = std::any_cast<bytes>(&a); if (!p) { vf::violation("wrong-result-type", "a byte vector was expected"); throw vf::Skip(); } return *p; }
std::string X(const Any &a) { auto p = std::any_cast<std::string>(&a); if (!p) { vf::violation("wrong-result-type", "text was expected"); throw vf::Skip(); } return *p; }
long long I(const Any &a) { auto p = std::any_cast<long long>(&a); if (!p) { vf::violation("wrong-result-type", "a number was expected"); throw vf::Skip(); } return *p; }
template <class F> bool raises(F f) {   // an error JavaScript sees
    try { f(); return false; }
    catch (const vf::Skip &) { throw; }
    catch (const reg::TypeError &) { throw; }
    catch (const std::exception &) { return true; }
}
bytes altered(vf::Rng &r, bytes b) {
    if (b.empty()) return bytes(1, 0);
    switch (r.below(6)) {
        case 0: b.pop_back(); break;
        case 1: b.push_back((uint8_t) r.below(256)); break;
        case 2: b.resize(b.size() >= 32 && r.chance(1, 2) ? b.size() - 32 : b.size() + 32); break;
        default: b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8));
    }
    return b;
}

// a key object of either class, followed with a model of its index
void life(vf::Rng &r, bool basic) {
    const int hf = (int) r.below(3);
    const uint32_t w = basic ? WS[r.below(4)] : 16;
    const int h = w == 256 ? 4 : r.chance(1, 10) ? 8 : r.chance(1, 5) ? 6 : 4;
    const bytes seed = seed48(r);
    const char *cls = basic ? "XmssBasic" : "Xmss";
    ref::Key k = ref::make_key(seed, hf, h, w);
    bytes ext = ref::descriptor(hf, 0, h, 0);
    ext.insert(ext.end(), seed.begin(), seed.end());
    const bytes epk = k.epk();
    std::string hexseed = ref::hex(ext), way = "parameters";
    words();
    Any o;
    vf::at(cat(cls, " ", HFN[hf], " h", h, " w", w, " seed ", hexs(seed)));
    if (basic) o = st(qrl, cls, "fromParameters", V(seed), N(h), N(hf), N(0), N(w));
    else switch (r.below(4)) {
        case 0: { std::string t = hexseed; if (r.chance(1, 2)) for (auto &c : t) c = (char) toupper(c); o = st(qrl, cls, "fromHexSeed", T(t)); way = "hex seed"; break; }
        case 1: o = st(qrl, cls, "fromMnemonic", T(ref::mnemonic(ext))); way = "mnemonic"; break;
        default: o = st(qrl, cls, "fromParameters", V(seed), N(h), N(hf));
    }
    const std::string what = cat(cls, " from ", way, " ", HFN[hf], " h", h, " w", w, " seed ", hexs(seed));
    auto M = [&](const char *n, auto... a) { return me(qrl, cls, n, o, a...); };
    auto accessors = [&](uint32_t idx) {
        EXPECT(I(M("getHeight")) == h, "js-height", what);
        EXPECT(X(M("getPK")) == ref::hex(epk), "js-public-key", cat(what, ": ", X(M("getPK"))));
        EXPECT(X(M("getHexSeed")) == hexseed, "js-hexseed", cat(what, ": ", X(M("getHexSeed"))));
        EXPECT(I(M("getIndex")) == (long long) idx, "js-index", cat(what, ": ", I(M("getIndex")), " expected ", idx));
        if (!basic) {
            EXPECT(B(M("getPKRaw")) == epk, "js-public-key", what + " raw");
            EXPECT(B(M("getAddressRaw")) == ref::address(epk), "js-address", what + " raw");
            EXPECT(X(M("getAddress")) == "Q" + ref::hex(ref::address(epk)), "js-address", cat(what, ": ", X(M("getAddress"))));
            EXPECT(X(M("getMnemonic")) == ref::mnemonic(ext), "js-mnemonic", cat(what, ": ", X(M("getMnemonic"))));
        }
        vf::count("accessor_rounds");
    };
    accessors(0);
    uint64_t idx = 0, end = 1ull << h;
    for (int i = 0, n = (int) r.range(4, 14); i < n; i++) {
        bool done = idx >= end;
        switch (r.below(6)) {
            case 0: {   // move the index
                uint64_t to = r.chance(1, 3) ? r.below(end) : r.chance(1, 2) ? std::min(end - 1, idx + r.below(4)) : r.chance(1, 2) ? end + r.below(3) : r.chance(1, 2) ? 0xffffffffu - r.below(3) : r.below(idx + 1);
                bool legal = to >= idx && to < end;
                vf::at(cat(what, " setIndex ", to, " from ", idx));
                long long got = -1;
                bool e = raises([&] { got = I(M("setIndex", N((long long) to))); });
                EXPECT(e == !legal, "js-setIndex-decision", cat(what, " from ", idx, " to ", to, e ? " refused" : " allowed"));
                if (!e) { EXPECT(got == (long long) to, "js-setIndex-result", cat(what, " to ", to, " gave ", got)); idx = to; }
                vf::count(legal ? "moves" : "moves_refused");
                vf::eval(cat(what, " ", i, " move ", to));
                break;
            }
            case 1: accessors((uint32_t) idx); break;
            default: {
                bytes m = r.buf(msglen(r, false)), s;
                vf::at(cat(what, " sign at ", idx, " of ", m.size(), " bytes"));
                bool e = raises([&] { s = B(M("sign", V(m))); });
                EXPECT(e == done, "js-sign-decision", cat(what, " at index ", idx, e ? " refused" : " signed"));
                if (e) { vf::count("exhausted_refused"); break; }
                if (done) break;
                EXPECT(s == ref::sign(k, (uint32_t) idx, m), "js-signature", cat(what, " index ", idx, " message ", hexs(m)));
                idx++;
                vf::count(basic ? "signatures_basic" : "signatures");
                vf::eval(cat(what, " ", i, hexs(m)));
                auto verify = [&](const bytes &mm, const bytes &ss, const bytes &pk, uint32_t ww) {
                    bool got = basic ? I(st(qrl, cls, "verify", V(mm), V(ss), V(pk), N(ww))) != 0 : I(st(qrl, cls, "verify", V(mm), V(ss), V(pk))) != 0;
                    bool want = ref::verify(mm, ss, pk, ww);
                    EXPECT(got == want, "js-verify", cat(what, " index ", idx - 1, got ? " accepted" : " rejected", " with w ", ww, " signature of ", ss.size()));
                    vf::count(want ? "accepted" : "rejected");
                };
                verify(m, s, epk, w);
                verify(altered(r, m), s, epk, w);
                verify(m, altered(r, s), epk, w);
                verify(m, s, altered(r, epk), w);
                if (basic) verify(m, s, epk, r.chance(1, 2) ? WS[r.below(4)] : (uint32_t) r.below(300));
                vf::eval(cat(what, " ", i, " verify"));
            }
        }
    }
    accessors((uint32_t) idx);
    vf::sample(what);
}

// arguments and seed texts that are not a key's: the answer is the core's decision
void seeds(vf::Rng &r) {
    words();
    bytes seed = r.buf(48);
    int hf = (int) r.below(3);
    bytes ext = ref::descriptor(hf, 0, 4, 0);
    ext.insert(ext.end(), seed.begin(), seed.end());
    for (int i = 0; i < 40; i++) {
        bytes e = ext;
        switch (r.below(6)) {
            case 0: e.resize(r.below(120)); break;
            case 1: e[0] = (uint8_t) r.below(256); break;
            case 2: e[1] = (uint8_t) (r.below(16) << 4 | r.below(4)); break;
            case 3: e[2] = (uint8_t) r.below(256); break;
            case 4: e.resize(50 + r.below(3)); break;
            default: break;
        }
        const int way = (int) r.below(2);
        if (way) e.resize(e.size() / 3 * 3);
        const bool core = e.size() == 51 && ref::descriptor_ok(bytes(e.begin(), e.begin() + 3)) && (e[1] & 15) >= 2;
        if (core && (e[1] & 15) > 3) continue;   // taller trees take too long here
        std::string t = ref::hex(e);
        bool good = core;
        if (way == 0) {
            int mu = (int) r.below(8);
            if (mu == 0 && !t.empty()) { t.pop_back(); good = false; }
            if (mu == 1 && !t.empty()) { t[r.below(t.size())] = "gG zQ-x\n\0\x7f\xc3"[r.below(11)]; good = false; }
            if (mu == 2) { t = "0x" + t; good = false; }
            if (mu == 3) { t += " "; good = false; }
        } else {
            t = ref::mnemonic(e);
            int mu = (int) r.below(8);
            if (mu == 0) { t = t.substr(0, t.rfind(' ')); good = false; }
            if (mu == 1) { t += " " + words()[r.below(4096)]; good = false; }
            if (mu == 2 && !t.empty()) { t += "qq"; good = false; }
            if (mu == 3 && e.size() != 48) { t += " " + words()[r.below(4096)] + " " + words()[r.below(4096)]; good = false; }
            if (mu == 4) for (size_t q; (q = t.find(' ')) != std::string::npos;) t.replace(q, 1, "\t\n");
        }
        const char *n = way ? "fromMnemonic" : "fromHexSeed";
        std::string what = cat("Xmss.", n, "(", vf::esc(t.substr(0, 130)), ")");
        vf::at(what);
        Any o;
        bool e1 = raises([&] { o = st(qrl, "Xmss", n, T(t)); });
        EXPECT(e1 == !good, "js-seed-decision", cat(what, e1 ? " refused" : " accepted"));
        if (!e1 && good) {
            bytes back = e;
            back[2] = 0;
            EXPECT(X(me(qrl, "Xmss", "getHexSeed", o)) == ref::hex(back), "js-hexseed", what);
            ref::Key k = ref::make_key(bytes(e.begin() + 3, e.end()), e[0] & 15, (e[1] & 15) * 2, 16);
            EXPECT(X(me(qrl, "Xmss", "getPK", o)) == ref::hex(k.epk()), "js-public-key", what);
            vf::count("texts_accepted");
        } else vf::count("texts_refused");
        vf::eval(what);
    }
    for (int i = 0; i < 30; i++) {   // fromParameters of both classes
        bool basic = r.chance(1, 2);
        size_t n = r.chance(1, 2) ? 48 : r.chance(1, 2) ? 46 + r.below(5) : r.below(120);
        int h = r.chance(2, 3) ? 4 : r.chance(1, 2) ? (int) (2 * r.below(128) + 1) : r.chance(1, 2) ? 32 + 2 * (int) r.below(112) : (int) r.below(4);
        uint32_t w = !basic || r.chance(1, 2) ? 16 : r.chance(1, 2) ? WS[r.below(4)] : (uint32_t) r.below(520);
        bool good = n == 48 && h == 4 && (w == 2 || w == 4 || w == 16 || w == 256);
        bytes s = r.buf(n);
        std::string what = cat(basic ? "XmssBasic" : "Xmss", ".fromParameters(", n, " bytes, ", h, ", ", hf, ", w ", w, ")");
        vf::at(what);
        Any o;
        bool e = raises([&] { o = basic ? st(qrl, "XmssBasic", "fromParameters", V(s), N(h), N(hf), N(0), N(w)) : st(qrl, "Xmss", "fromParameters", V(s), N(h), N(hf)); });
        EXPECT(e == !good, "js-parameter-decision", cat(what, e ? " refused" : " accepted"));
        vf::count(good ? "parameters_accepted" : "parameters_refused");
        vf::eval(what);
    }
}

bool hexok(const std::string &s) {
    if (s.size() % 2) return false;
    for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return false;
    return true;
}
void helpers(vf::Rng &r) {
    words();
    for (int i = 0; i < 60; i++) {
        // public keys and addresses
        bytes epk = r.buf(67);
        if (r.chance(4, 5)) { bytes d = ref::descriptor((int) r.below(3), 0, 2 * (int) r.below(16), 0); std::copy(d.begin(), d.end(), epk.begin()); if (r.chance(1, 3)) epk[2] = (uint8_t) r.below(256); }
        if (r.chance(1, 5)) epk.resize(r.chance(1, 2) ? 66 + 2 * r.below(2) : r.below(140));
        bool ok = epk.size() == 67 && ref::descriptor_ok(bytes(epk.begin(), epk.begin() + 3));
        std::string what = cat("key ", hexs(epk));
        vf::at(what);
        bytes a;
        bool e = raises([&] { a = B(fn(qrl, "getAddressRaw", V(epk))); });
        EXPECT(e == !ok && (e || a == ref::address(epk)), "js-getAddressRaw", what);
        std::string at, ht = ref::hex(epk);
        if (r.chance(1, 4)) for (auto &c : ht) c = (char) toupper(c);
        e = raises([&] { at = X(fn(qrl, "getAddress", T(ht))); });
        EXPECT(e == !ok && (e || at == ref::hex(ref::address(epk))), "js-getAddress", cat(what, ": ", at));
        if (!ht.empty()) {
            std::string bad = ht;
            if (r.chance(1, 2)) bad[r.below(bad.size())] = "gz -\0\xc3"[r.below(6)]; else if (r.chance(1, 2)) bad.pop_back(); else bad += "0";
            EXPECT(raises([&] { fn(qrl, "getAddress", T(bad)); }), "js-getAddress", "accepted " + vf::esc(bad));
        }
        vf::eval(what);
        vf::count("addresses_made", 3);
        // address text
        bytes addr = ok ? ref::address(epk) : r.buf(39);
        switch (r.below(8)) {
            case 0: addr[r.below(addr.size())] ^= (uint8_t) (1 << r.below(8)); break;
            case 1: addr = r.buf(r.below(60)); break;
            case 2: addr.resize(r.below(45)); break;
            case 3: addr[r.below(2)] = (uint8_t) r.below(256); break;
            default: break;
        }
        std::string text = "Q" + ref::hex(addr);
        switch (r.below(10)) {
            case 0: text[1 + r.below(text.size() - 1)] = "gz -\0\xc3Q"[r.below(7)]; break;
            case 1: text.pop_back(); break;
            case 2: for (size_t j = 1; j < text.size(); j++) text[j] = (char) toupper(text[j]); break;
            case 3: text = text.substr(0, r.below(12)); break;
            case 4: text += r.chance(1, 2) ? "0" : "00"; break;
            default: break;
        }
        auto judge = [&](const std::string &text) {
            const std::string what = "address text " + vf::esc(text);
            vf::at(what);
            bool form = text.size() >= 7 && hexok(text.substr(1));
            bytes raw = form ? ref::unhex([&] { std::string l = text.substr(1); for (auto &c : l) c = (char) tolower(c); return l; }()) : bytes();
            long long got = -1;
            bool e = raises([&] { got = I(fn(qrl, "validateAddress", T(text))); });
            EXPECT(e == !form && (e || (got != 0) == ref::address_valid(raw)), "js-validateAddress", cat(what, e ? " raised" : got ? " valid" : " invalid"));
            bool fields = form && ref::descriptor_ok(bytes(raw.begin(), raw.begin() + 3));
            const char *names[3] = {"getHashFunction", "getSignatureType", "getHeight"};
            for (int j = 0; j < 3; j++) {
                e = raises([&] { got = I(fn(qrl, names[j], T(text))); });
                long long want = !fields ? 0 : j == 0 ? raw[0] & 15 : j == 1 ? raw[0] >> 4 : (raw[1] & 15) * 2;
                EXPECT(e == !fields && (e || got == want), cat("js-", names[j]), cat(what, e ? " raised" : cat(" gave ", got).c_str()));
            }
            vf::count(fields ? "address_texts_read" : "address_texts_refused", 4);
            vf::eval(what);
        };
        EXPECT((I(fn(qrl, "validateAddressRaw", V(addr))) != 0) == ref::address_valid(addr), "js-validateAddressRaw", hexs(addr));
        judge(text);
        // close relatives of the text, and the text again: no answer is taken over from the one before
        for (int j = 0; j < 4; j++) {
            std::string near = text;
            if (near.size() > 1) {
                size_t p = j == 0 ? near.size() - 1 : j == 1 ? 1 + r.below(std::min<size_t>(6, near.size() - 1)) : j == 2 && near.size() > 72 ? 71 + r.below(near.size() - 71) : 1 + r.below(near.size() - 1);
                near[p] = near[p] == '0' ? '1' : '0';
            }
            judge(near);
            if (j % 2) judge(text);
            vf::count("near_addresses");
        }
        // encodings and hashes
        bytes b = r.buf(r.chance(1, 3) ? r.below(4) : r.below(300));
        what = "bytes " + hexs(b);
        vf::at(what);
        std::string hx = ref::hex(b);
        for (reg::Module *m : {qrl, dil, kyb}) EXPECT(X(fn(m, "bin2hstr", V(b))) == hx, "js-bin2hstr", what);
        EXPECT(B(fn(qrl, "hstr2bin", T(hx))) == b, "js-hstr2bin", what);
        EXPECT(B(fn(qrl, "str2bin", T(std::string(b.begin(), b.end())))) == b, "js-str2bin", what);
        if (hx.size()) {
            std::string bad = hx;
            bad[r.below(bad.size())] = "gG -\0\x80"[r.below(6)];
            EXPECT(raises([&] { fn(qrl, "hstr2bin", T(bad)); }), "js-hstr2bin", "accepted " + vf::esc(bad));
            EXPECT(raises([&] { fn(qrl, "hstr2bin", T(hx.substr(1))); }), "js-hstr2bin", "accepted odd " + hx.substr(1));
        }
        bytes b3 = b;
        b3.resize(b.size() / 3 * 3);
        std::string mn = ref::mnemonic(b3);
        EXPECT(X(fn(qrl, "bin2mnemonic", V(b3))) == mn, "js-bin2mnemonic", hexs(b3));
        EXPECT(B(fn(qrl, "mnemonic2bin", T(mn))) == b3, "js-mnemonic2bin", hexs(b3));
        if (b.size() % 3) EXPECT(raises([&] { fn(qrl, "bin2mnemonic", V(b)); }), "js-bin2mnemonic", cat("accepted ", b.size(), " bytes"));
        if (!mn.empty()) {
            EXPECT(raises([&] { fn(qrl, "mnemonic2bin", T(mn + " " + words()[r.below(4096)])); }), "js-mnemonic2bin", "odd number of words");
            EXPECT(raises([&] { fn(qrl, "mnemonic2bin", T(mn + "qq")); }), "js-mnemonic2bin", "unknown word");
        }
        EXPECT(B(fn(qrl, "sha2_256", V(b))) == ref::sha256(b), "js-sha2_256", what);
        size_t n = r.chance(1, 2) ? 32 : r.below(400);
        EXPECT(B(fn(qrl, "shake128", N((long long) n), V(b))) == ref::shake128(b, n), "js-shake128", cat(what, " to ", n));
        vf::eval(what);
        vf::count("encodings", 8);
    }
}

void dilithium(vf::Rng &r) {
    calls.clear();
    fail = 0;
    Any d = st(dil, "Dilithium", "empty");
    bytes pk = B(me(dil, "Dilithium", "getPKRaw", d)), sk = B(me(dil, "Dilithium", "getSKRaw", d));
    std::string hpk = X(me(dil, "Dilithium", "getPK", d)), hsk = X(me(dil, "Dilithium", "getSK", d));
    EXPECT(pk.size() == DPK && sk.size() == DSK && hpk == ref::hex(pk) && hsk == ref::hex(sk), "js-dilithium-keys", "fresh keys");
    Any e = st(dil, "Dilithium", "fromKeys", T(hpk), T(hsk));
    EXPECT(B(me(dil, "Dilithium", "getPKRaw", e)) == pk && X(me(dil, "Dilithium", "getSK", e)) == hsk, "js-dilithium-keys", "from keys");
    for (int i = 0; i < 6; i++) {
        bytes m = r.chance(1, 4) ? bytes(r.below(40), 0) : r.buf(msglen(r, false));
        std::string what = cat("Dilithium message ", hexs(m)), hm = ref::hex(m);
        vf::at(what);
        std::string sm = X(me(dil, "Dilithium", "sign", i % 2 ? d : e, T(hm)));
        EXPECT(sm == ref::hex(cat2(tag(pk, m), m)), "js-dilithium-sign", what);
        std::string o = X(st(dil, "Dilithium", "sign_open", T(r.chance(1, 2) ? "" : std::string(r.below(200), 'x')), T(sm), T(hpk)));
        EXPECT(o.compare(0, hm.size(), hm) == 0, "js-dilithium-open", what);
        EXPECT(X(st(dil, "Dilithium", "extract_message", T(sm))) == hm, "js-dilithium-extract", what);
        // a signed message that does not verify must not look opened
        bytes bad = ref::unhex(sm);
        bad[r.below(DSIG)] ^= (uint8_t) (1 << r.below(8));
        std::string before = r.chance(1, 2) ? std::string(m.begin(), m.end()) : "", hb = ref::hex(bad);
        EXPECT(raises([&] { st(dil, "Dilithium", "sign_open", T(before), T(hb), T(hpk)); }), "js-dilithium-forgery-opened", what);
        bytes pk2 = pk;
        pk2[r.below(DPK)] ^= 1;
        EXPECT(raises([&] { st(dil, "Dilithium", "sign_open", T(before), T(sm), T(ref::hex(pk2))); }), "js-dilithium-forgery-opened", what + " under another key");
        bad = ref::unhex(sm);
        bad.resize(r.below(DSIG));
        EXPECT(raises([&] { st(dil, "Dilithium", "sign_open", T(before), T(ref::hex(bad)), T(hpk)); }), "js-dilithium-forgery-opened", cat(what, " cut to ", bad.size()));
        EXPECT(raises([&] { st(dil, "Dilithium", "extract_message", T(ref::hex(bad))); }), "js-dilithium-extract", cat("short message of ", bad.size()));
        EXPECT(raises([&] { st(dil, "Dilithium", "sign_open", T(before), T(sm), T(hpk.substr(2))); }), "js-dilithium-forgery-opened", "short key");
        EXPECT(raises([&] { me(dil, "Dilithium", "sign", d, T(hm + "0")); }), "js-dilithium-text", "odd message");
        EXPECT(raises([&] { st(dil, "Dilithium", "fromKeys", T(hpk.substr(r.chance(1, 2) ? 1 : 2)), T(hsk)); }), "js-dilithium-text", "short public key");
        EXPECT(raises([&] { st(dil, "Dilithium", "fromKeys", T(hpk), T(hsk + "zz")); }), "js-dilithium-text", "bad secret key");
        vf::eval(what);
        vf::count("dilithium_messages");
    }
}
void kyber(vf::Rng &r) {
    calls.clear();
    fail = 0;
    Any a = st(kyb, "Kyber", "empty"), b = st(kyb, "Kyber", "empty");
    std::string pk = X(me(kyb, "Kyber", "getPK", a)), sk = X(me(kyb, "Kyber", "getSK", a));
    EXPECT(pk == ref::hex(B(me(kyb, "Kyber", "getPKRaw", a))) && pk.size() == 2 * KPK && sk == ref::hex(B(me(kyb, "Kyber", "getSKRaw", a))) && sk.size() == 2 * KSK, "js-kyber-keys", "fresh keys");
    Any c = st(kyb, "Kyber", "fromKeys", T(pk), T(sk));
    for (int i = 0; i < 6; i++) {
        std::string what = cat("Kyber exchange ", fresh);
        vf::at(what);
        EXPECT(I(me(kyb, "Kyber", "kem_encode", b, T(pk))) == 1, "js-kyber-encode", what);
        std::string ct = X(me(kyb, "Kyber", "getCypherText", b)), key = X(me(kyb, "Kyber", "getMyKey", b));
        Any &d = i % 2 ? a : c;
        EXPECT(ct.size() == 2 * KCT && I(me(kyb, "Kyber", "kem_decode", d, T(ct))) == 1, "js-kyber-decode", what);
        EXPECT(X(me(kyb, "Kyber", "getMyKey", d)) == key && key == ref::hex(derive(ref::unhex(pk), ref::unhex(ct))), "js-kyber-keys-disagree", what);
        fail = 1 + (int) r.below(3);
        bool ok = true, e = raises([&] { ok = I(me(kyb, "Kyber", "kem_decode", d, T(ct))) != 0; });
        fail = 0;
        EXPECT(e || !ok, "js-kyber-failure-not-reported", what);
        for (int j = 0; j < 4; j++) {
            std::string in = j % 2 ? ct : pk;
            switch (r.below(3)) { case 0: in.pop_back(); break; case 1: in.resize(in.size() - 2 * (1 + r.below(40))); break; default: in[r.below(in.size())] = 'g'; }
            ok = false;
            e = raises([&] { ok = I(me(kyb, "Kyber", j % 2 ? "kem_decode" : "kem_encode", b, T(in))) != 0; });
            EXPECT(e || !ok, "js-kyber-bad-input-accepted", cat(what, " ", j % 2 ? "decode" : "encode", " of ", in.size(), " characters"));
        }
        EXPECT(raises([&] { st(kyb, "Kyber", "fromKeys", T(pk.substr(2)), T(sk)); }) && raises([&] { st(kyb, "Kyber", "fromKeys", T(pk), T(sk + "00")); }), "js-kyber-text", "wrong key sizes");
        vf::eval(what);
        vf::count("kyber_exchanges");
    }
}

// the exported tables, and that what takes only numbers returns
void tables() {
    EXPECT(qrl->clashes.empty() && dil->clashes.empty() && kyb->clashes.empty(), "bound-twice", "two bindings of one name");
    for (const char *n : {"sha2_256", "shake128", "bin2hstr", "hstr2bin", "str2bin", "mnemonic2bin", "bin2mnemonic", "getAddress", "getAddressRaw", "validateAddress", "validateAddressRaw", "getHashFunction", "getSignatureType", "getHeight"})
        EXPECT(qrl->functions.count(n), cat("not-exported:", n), n);
    const std::map<std::string, std::map<std::string, long long>> want = {{"eHashFunction", {{"SHA2_256", 0}, {"SHAKE_128", 1}, {"SHAKE_256", 2}}}, {"eSignatureType", {{"XMSS", 0}}}, {"eAddrFormatType", {{"SHA256_2X", 0}}}};
    for (auto &e : want)
        for (auto &v : e.second) {
            auto &m = qrl->enums[e.first];
            EXPECT(m.count(v.first) && m[v.first] == v.second, "js-enumerator", cat(e.first, ".", v.first));
            vf::eval(cat(e.first, v.first));
        }
    EXPECT(std::find(qrl->vectors.begin(), qrl->vectors.end(), "Uint8Vector") != qrl->vectors.end(), "not-exported:Uint8Vector", "Uint8Vector");
    for (reg::Module *m : {dil, kyb})
        for (auto &f : m->functions) {
            if (f.first == "bin2hstr") continue;
            vf::at(cat("exported function ", f.first));
            fflush(0);
            pid_t p = fork();
            if (p == 0) {
                signal(SIGALRM, SIG_DFL);
                alarm(3);
                std::string e = vf::outcome([&] {
                    try { reg::Args none; f.second(none); }
                    catch (const reg::TypeError &) { reg::Args two{N(1), N(2)}; f.second(two); }
                });
                _exit(0);
            }
            int stat = 0;
            waitpid(p, &stat, 0);
            EXPECT(WIFEXITED(stat), cat("export-never-returns:", f.first), cat("calling the exported ", f.first, " ended with signal ", WTERMSIG(stat)));
            vf::eval(cat("export ", f.first));
            vf::count("exports_called");
        }
}

void seed_helper(vf::Rng &r) {
    const char *repo = getenv("VERIF_REPO");
    std::string cmd = cat("node '", vdir(), "/harness/c22_seed.js' '", repo && *repo ? repo : "/repo", "/src/jswrapper/getRandomSeed.js' ", 1 + r.below(2000000000), " ", vf::scale(2, 20), " 2>&1");
    vf::at(cmd);
    FILE *f = popen(cmd.c_str(), "r");
    std::string all;
    char buf[65536];
    for (size_t n; f && (n = fread(buf, 1, sizeof buf, f)) > 0;) { all.append(buf, n); vf::at("reading"); }
    int rc = f ? pclose(f) : -1;
    std::istringstream in(all);
    bool end = false;
    for (std::string l; std::getline(in, l);) {
        if (l == "END") end = true;
        else if (l.compare(0, 2, "D ") == 0) { vf::eval(l); }
        else if (l.compare(0, 2, "C ") == 0) { size_t s = l.rfind(' '); vf::count(l.substr(2, s - 2), strtoull(l.c_str() + s, 0, 10)); }
        else if (l.compare(0, 2, "V ") == 0) { size_t s = l.find(' ', 2); vf::violation(l.substr(2, s - 2), l.substr(s + 1)); }
    }
    if (!end) {
        EXPECT(rc == 0 && end, "seed-helper-crash", cat("node ended with ", rc, ": ", all.substr(0, 1500)));
    }
}
}  // namespace

void harness() {
    auto &m = reg::modules();
    qrl = &m["jsqrlwrapper.cpp"];
    dil = &m["jsdilwrapper.cpp"];
    kyb = &m["jskybwrapper.cpp"];
    if (vf::S().part != "san") {
        vf::run("tables", [&](vf::Rng &) { tables(); });
        for (int i = 0; i < vf::scale(4, 40); i++) vf::run("seed-helper", [&](vf::Rng &r) { seed_helper(r); });
    }
    for (int i = 0; i < vf::scale(vf::S().part == "san" ? 10 : 70, vf::S().part == "san" ? 300 : 2500); i++) {
        vf::run("xmss", [&](vf::Rng &r) { life(r, false); });
        vf::run("basic", [&](vf::Rng &r) { life(r, true); });
        if (i % 2 == 0) vf::run("seeds", [&](vf::Rng &r) { seeds(r); });
        if (i % 2 == 0) vf::run("helpers", [&](vf::Rng &r) { helpers(r); });
        if (i % 3 == 0) vf::run("dilithium", [&](vf::Rng &r) { dilithium(r); });
        if (i % 3 == 0) vf::run("kyber", [&](vf::Rng &r) { kyber(r); });
    }
}
