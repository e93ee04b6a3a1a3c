// C21: the Dilithium and Kyber wrappers over stand-in primitives (the submodules are absent offline) that
// touch every byte the real ones may touch, record exactly what they were given and can be told to fail.
// ASan judges the memory, the record judges sizes, contents and pass-through.
#include "pqmock.h"
#include "rs.h"

namespace {
size_t wrong(vf::Rng &r, size_t right) {   // any length but the right one
    static const std::vector<long> D = {-2, -1, 1, 2, 32, -32, 64};
    for (;;) {
        size_t n;
        switch (r.below(5)) {
            case 0: n = r.below(4); break;
            case 1: n = (size_t) ((long) right + r.pick(D)); break;
            case 2: n = right * 2; break;
            case 3: { static const std::vector<size_t> O = {DPK, DSK, DSIG, KPK, KSK, KCT, KSS, 64, 128}; n = r.pick(O); break; }
            default: n = r.below(right * 2);
        }
        if (n != right) return n;
    }
}
bytes tight(const bytes &b) { bytes c; c.reserve(b.size()); c.assign(b.begin(), b.end()); return c; }   // no slack for an overread to hide in
const Call *last(const char *name) { return calls.empty() || calls.back().name != name ? nullptr : &calls.back(); }
#define EXPECT(ok, cls, what) vf::check((ok), cls, [&] { return std::string(what); })

void dilithium(vf::Rng &r) {
    calls.clear();
    fail = 0;
    Dilithium d;
    EXPECT(last("sign_keypair") && d.getPK().size() == DPK && d.getSK().size() == DSK, "dilithium-key-sizes", cat(d.getPK().size(), " ", d.getSK().size()));
    EXPECT(d.getPublicKeySize() == DPK && d.getSecretKeySize() == DSK, "dilithium-key-sizes", "announced");
    bytes pk = d.getPK(), sk = d.getSK();
    Dilithium e(tight(pk), tight(sk));
    EXPECT(e.getPK() == pk && e.getSK() == sk, "dilithium-keys-not-kept", "constructed from keys");
    for (int i = 0; i < 4; i++) {
        bytes m = tight(r.buf(msglen(r)));
        const std::string what = cat("dilithium message of ", m.size(), " bytes ", hexs(m, 8));
        vf::at(what);
        bytes m0 = m, sm = (i % 2 ? e : d).sign(m);
        const Call *c = last("sign");
        EXPECT(c && c->a == m0 && c->b == sk && c->n == m0.size(), "dilithium-sign-arguments", what);
        EXPECT(m == m0, "argument-altered", what);
        EXPECT(sm == cat2(tag(pk, m0), m0), "dilithium-sign-result", cat(what, ": ", sm.size(), " bytes"));
        // opening
        bytes out = r.buf(r.chance(1, 2) ? 0 : r.chance(1, 2) ? m.size() : r.below(9000)), smt = tight(sm), pkt = tight(pk);
        bool ok = Dilithium::sign_open(out, smt, pkt);
        c = last("sign_open");
        EXPECT(ok, "dilithium-genuine-refused", what);
        EXPECT(c && c->a == sm && c->b == pk, "dilithium-open-arguments", what);
        EXPECT(out.size() >= m.size() && std::equal(m.begin(), m.end(), out.begin()), "dilithium-open-message", cat(what, ": opened ", hexs(out, 16)));
        EXPECT(smt == sm && pkt == pk, "argument-altered", what);
        // what the output buffer held before does not show in the result
        for (size_t had : {(size_t) 0, m.size(), sm.size(), sm.size() + 1 + r.below(9000)}) {
            bytes o2 = r.buf(had);
            EXPECT(Dilithium::sign_open(o2, smt, pkt) && o2 == out, "dilithium-open-depends-on-output-buffer", cat(what, ": opened into a buffer of ", had, " bytes gives ", o2.size(), " bytes, before ", out.size()));
            vf::count("reopened");
        }
        // the parts
        bytes t = tight(sm);
        EXPECT(Dilithium::extract_message(t) == m, "dilithium-extract-message", what);
        EXPECT(Dilithium::extract_signature(t) == bytes(sm.begin(), sm.begin() + DSIG), "dilithium-extract-signature", what);
        EXPECT(t == sm, "argument-altered", what);
        // tampering and a failing primitive are reported
        bytes bad = sm;
        bad[r.below(bad.size())] ^= (uint8_t) (1 << r.below(8));
        EXPECT(!Dilithium::sign_open(out, tight(bad), pk), "dilithium-forgery-opened", what);
        bytes pk2 = pk;
        pk2[r.below(DPK)] ^= 1;
        EXPECT(!Dilithium::sign_open(out, sm, tight(pk2)), "dilithium-forgery-opened", what + " under another key");
        for (int f : {-1, 1, 2, 255, 256, -256, INT32_MIN, INT32_MAX, 0x10000}) {
            fail = f;
            EXPECT(!Dilithium::sign_open(out, sm, pk), "dilithium-failure-not-reported", cat(what, " primitive returned ", f));
            fail = 0;
            vf::count("primitive_failures");
        }
        vf::eval(what);
        vf::count("dilithium_messages");
        vf::sample(what);
    }
    // wrong sizes: refused before the primitive sees them
    for (int i = 0; i < 10; i++) {
        size_t a = r.chance(1, 2) ? wrong(r, DPK) : DPK, b = a == DPK ? wrong(r, DSK) : r.chance(1, 2) ? DSK : wrong(r, DSK);
        std::string what = cat("Dilithium(pk of ", a, ", sk of ", b, ")");
        vf::at(what);
        bytes msg = {1, 2, 3};
        std::string o = vf::outcome([&] { Dilithium x(tight(r.buf(a)), tight(r.buf(b))); x.sign(msg); });
        EXPECT(!o.empty(), "dilithium-wrong-key-accepted", what);
        vf::eval(what);
        size_t p = wrong(r, DPK);
        bytes sm = d.sign(r.buf(5)), out(r.below(20));
        what = cat("sign_open with a key of ", p);
        vf::at(what);
        bool opened = false;
        size_t n = calls.size();
        bytes shortpk = pk;
        shortpk.resize(p);
        o = vf::outcome([&] { opened = Dilithium::sign_open(out, tight(sm), tight(shortpk)); });
        EXPECT(!opened && calls.size() == n, "dilithium-wrong-key-accepted", what + (calls.size() != n ? ": reached the primitive" : ": opened"));
        vf::eval(what);
        size_t s = r.chance(1, 3) ? DSIG - 1 - r.below(3) : r.below(DSIG);
        bytes small = sm;
        small.resize(s);
        what = cat("sign_open of ", s, " bytes");
        vf::at(what);
        o = vf::outcome([&] { opened = Dilithium::sign_open(out, tight(small), pk); });
        EXPECT(!opened, "dilithium-short-message-accepted", what);
        small = tight(small);
        std::string o1 = vf::outcome([&] { Dilithium::extract_message(small); }), o2 = vf::outcome([&] { Dilithium::extract_signature(small); });
        EXPECT(!o1.empty() && !o2.empty(), "dilithium-short-message-split", cat(s, " bytes: ", o1, " / ", o2));
        vf::eval(cat(what, " split"));
        vf::count("dilithium_refusals", 5);
    }
    bytes exact = tight(bytes(DSIG, 7));
    EXPECT(Dilithium::extract_message(exact).empty() && Dilithium::extract_signature(exact) == exact, "dilithium-extract-signature", "exactly a signature");
}

void kyber(vf::Rng &r) {
    calls.clear();
    fail = 0;
    Kyber a, b;
    EXPECT(a.getPK().size() == KPK && a.getSK().size() == KSK && b.getPK() != a.getPK(), "kyber-key-sizes", cat(a.getPK().size(), " ", a.getSK().size()));
    bytes apk = a.getPK(), ask = a.getSK();
    Kyber a2(tight(apk), tight(ask));
    EXPECT(a2.getPK() == apk && a2.getSK() == ask, "kyber-keys-not-kept", "constructed from keys");
    for (int i = 0; i < 4; i++) {
        const std::string what = cat("kyber exchange ", fresh);
        vf::at(what);
        bytes pk = tight(apk);
        bool ok = b.kem_encode(pk);
        const Call *c = last("kem_enc");
        EXPECT(ok && c && c->a == apk, "kyber-encode", what);
        EXPECT(c && b.getCypherText() == c->b && b.getMyKey() == derive(apk, c->b), "kyber-results-altered", what);
        bytes ct = tight(b.getCypherText());
        EXPECT(ct.size() == KCT && b.getMyKey().size() == KSS, "kyber-result-sizes", what);
        Kyber &dec = i % 2 ? a2 : a;
        ok = dec.kem_decode(ct);
        c = last("kem_dec");
        EXPECT(ok && c && c->a == ct && c->b == ask, "kyber-decode", what);
        EXPECT(dec.getMyKey() == b.getMyKey(), "kyber-keys-disagree", what);
        EXPECT(dec.getPK() == apk && dec.getSK() == ask && pk == apk, "argument-altered", what);
        bytes ct2 = ct;
        ct2[r.below(KCT)] ^= 1;
        dec.kem_decode(tight(ct2));
        EXPECT(dec.getMyKey() == derive(apk, ct2) && dec.getMyKey() != b.getMyKey(), "kyber-results-altered", what + " other cipher text");
        for (int f : {-1, 1, 2, 255, 256, -256, INT32_MIN, INT32_MAX, 0x10000}) {
            fail = f;
            EXPECT(!b.kem_encode(apk), "kyber-failure-not-reported", cat(what, " encode returned ", f));
            fail = f;
            EXPECT(!a.kem_decode(ct), "kyber-failure-not-reported", cat(what, " decode returned ", f));
            fail = 0;
            vf::count("primitive_failures", 2);
        }
        vf::eval(what);
        vf::count("kyber_exchanges");
    }
    for (int i = 0; i < 12; i++) {
        size_t x = r.chance(1, 2) ? wrong(r, KPK) : KPK, y = x == KPK ? wrong(r, KSK) : r.chance(1, 2) ? KSK : wrong(r, KSK);
        std::string what = cat("Kyber(pk of ", x, ", sk of ", y, ")");
        vf::at(what);
        bytes ct = r.buf(KCT);
        std::string o = vf::outcome([&] { Kyber k(tight(r.buf(x)), tight(r.buf(y))); k.kem_decode(ct); });
        EXPECT(!o.empty(), "kyber-wrong-key-accepted", what);
        vf::eval(what);
        size_t p = wrong(r, KPK), q = wrong(r, KCT);
        bytes key = a.getMyKey(), cta = a.getCypherText();
        size_t n = calls.size();
        bool ok = false;
        vf::at(cat("kem_encode of ", p));
        o = vf::outcome([&] { ok = a.kem_encode(tight(r.buf(p))); });
        EXPECT(!ok && calls.size() == n, "kyber-wrong-size-accepted", cat("kem_encode of ", p, " bytes"));
        vf::at(cat("kem_decode of ", q));
        o = vf::outcome([&] { ok = a.kem_decode(tight(r.buf(q))); });
        EXPECT(!ok && calls.size() == n, "kyber-wrong-size-accepted", cat("kem_decode of ", q, " bytes"));
        EXPECT(a.getMyKey() == key && a.getCypherText() == cta, "kyber-refusal-changed-keys", cat("after sizes ", p, " and ", q));
        vf::eval(cat("enc", p, "dec", q));
        vf::count("kyber_refusals", 3);
    }
    // decoding before anything was encoded, copies, and reuse in both roles
    Kyber c;
    b.kem_encode(c.getPK());
    Kyber d = c;
    EXPECT(d.kem_decode(b.getCypherText()) && d.getMyKey() == b.getMyKey(), "kyber-keys-disagree", "copied party");
    EXPECT(c.kem_encode(apk) && a.kem_decode(c.getCypherText()) && a.getMyKey() == c.getMyKey() && d.getMyKey() == b.getMyKey(), "kyber-keys-disagree", "roles swapped");
}

void rust(vf::Rng &r) {
    size_t P = rs_pq_size(0), S = rs_pq_size(1), G = rs_pq_size(2), KP = rs_pq_size(3), KS = rs_pq_size(4);
    EXPECT(P == 2592 && S == 4864 && G == 4595 && KP == 1184 && KS == 2400 && rs_pq_size(5) == 1088 && rs_pq_size(6) == 32, "rust-sizes", cat(P, " ", S, " ", G));
    auto dil = [&](int op, const bytes &a, const bytes &b, const bytes &c) { return rs::take(rs_dil(op, a.data(), a.size(), b.data(), b.size(), c.data(), c.size()), cat("Rust dilithium op ", op, " sizes ", a.size(), " ", b.size(), " ", c.size())); };
    auto kyb = [&](int op, const bytes &a, const bytes &b) { return rs::take(rs_kyb(op, a.data(), a.size(), b.data(), b.size()), cat("Rust kyber op ", op, " sizes ", a.size(), " ", b.size())); };
    rs::R k = dil(5, {}, {}, {});
    EXPECT(k.ok && k.v.size() == P + S, "rust-dilithium-key-sizes", cat(k.v.size()));
    if (!k.ok || k.v.size() != P + S) return;
    bytes pk(k.v.begin(), k.v.begin() + P), sk(k.v.begin() + P, k.v.end());
    rs::R same = dil(0, pk, sk, {});
    EXPECT(same.ok && same.v == k.v, "rust-dilithium-keys-not-kept", "");
    for (int i = 0; i < 3; i++) {
        bytes m = r.buf(msglen(r, false));
        const std::string what = cat("Rust dilithium message of ", m.size());
        rs::R sm = dil(1, pk, sk, m);
        EXPECT(sm.ok && sm.v.size() == G + m.size() && std::equal(m.begin(), m.end(), sm.v.begin() + G), "rust-dilithium-sign", what);
        if (!sm.ok || sm.v.size() < G) return;
        rs::R o = dil(2, pk, sm.v, {});
        EXPECT(o.ok && o.v == m, "rust-dilithium-open", what);
        bytes bad = sm.v;
        bad[r.below(bad.size())] ^= 1;
        EXPECT(!dil(2, pk, bad, {}).ok, "rust-dilithium-forgery-opened", what);
        rs::R em = dil(3, sm.v, {}, {}), es = dil(4, sm.v, {}, {});
        EXPECT(em.ok && em.v == m, "rust-dilithium-extract-message", cat(what, ": ", em.v.size()));
        EXPECT(es.ok && es.v == bytes(sm.v.begin(), sm.v.begin() + G), "rust-dilithium-extract-signature", cat(what, ": ", es.v.size()));
        bytes small = sm.v;
        small.resize(r.chance(1, 3) ? G - 1 : r.below(G));
        EXPECT(!dil(3, small, {}, {}).ok && !dil(4, small, {}, {}).ok && !dil(2, pk, small, {}).ok, "rust-dilithium-short-accepted", cat(small.size()));
        vf::eval(what + std::to_string(small.size()));
        vf::count("rust_dilithium", 4);
    }
    for (int i = 0; i < 6; i++) {
        size_t a = r.chance(1, 2) ? wrong(r, P) : P, b = a == P ? wrong(r, S) : S;
        EXPECT(!dil(0, r.buf(a), r.buf(b), {}).ok, "rust-dilithium-wrong-key-accepted", cat(a, " ", b));
        EXPECT(!dil(2, r.buf(wrong(r, P)), r.buf(G + 4), {}).ok, "rust-dilithium-wrong-key-accepted", "open");
        size_t c = r.chance(1, 2) ? wrong(r, KP) : KP, d = c == KP ? wrong(r, KS) : KS;
        EXPECT(!kyb(0, r.buf(c), r.buf(d)).ok, "rust-kyber-wrong-key-accepted", cat(c, " ", d));
        bytes kp = r.buf(KP), ks = r.buf(KS);
        rs::R kk = kyb(0, kp, ks);
        EXPECT(kk.ok && kk.v == cat2(kp, ks), "rust-kyber-keys-not-kept", "");
        rs::R x = kyb(1, {}, {});
        EXPECT(x.ok && x.v == bytes{1}, "rust-kyber-keys-disagree", x.s());
        vf::eval(cat("rust", a, b, c, d));
        vf::count("rust_kyber", 2);
        vf::count("rust_refusals", 3);
    }
}
}  // namespace

void harness() {
    rs_init();
    for (int i = 0; i < vf::scale(60, 1500); i++) {
        vf::run("dilithium", [&](vf::Rng &r) { for (int q = 0; q < 3; q++) dilithium(r); });
        vf::run("kyber", [&](vf::Rng &r) { for (int q = 0; q < 4; q++) kyber(r); });
        vf::run("rust", [&](vf::Rng &r) { rust(r); });
    }
    // every length around and below the right ones
    for (int part = 0; part < 8; part++)
        vf::run("lengths", [&](vf::Rng &r) {
            Dilithium d;
            Kyber k, other;
            bytes sm = d.sign({1, 2, 3}), pk = d.getPK(), out;
            for (size_t n = (size_t) part; n < 5200; n += 8) {
                vf::at(cat("length ", n));
                bytes b = tight(r.buf(n));
                bool ok = false;
                if (n != DPK) { vf::outcome([&] { ok = Dilithium::sign_open(out, sm, b); }); EXPECT(!ok, "dilithium-wrong-key-accepted", cat(n)); }
                vf::outcome([&] { ok = Dilithium::sign_open(out, b, pk); });
                EXPECT(!ok, "dilithium-short-message-accepted", cat(n));
                std::string o1 = vf::outcome([&] { out = Dilithium::extract_message(b); });
                EXPECT(o1.empty() == (n >= DSIG) && (n < DSIG || out == bytes(b.begin() + DSIG, b.end())), "dilithium-extract-message", cat(n, " bytes: ", o1));
                std::string o2 = vf::outcome([&] { out = Dilithium::extract_signature(b); });
                EXPECT(o2.empty() == (n >= DSIG) && (n < DSIG || out == bytes(b.begin(), b.begin() + DSIG)), "dilithium-extract-signature", cat(n, " bytes: ", o2));
                std::string o3 = vf::outcome([&] { Dilithium x(b, d.getSK()); }), o4 = vf::outcome([&] { Dilithium x(pk, b); });
                EXPECT(o3.empty() == (n == DPK) && o4.empty() == (n == DSK), "dilithium-key-size-decision", cat(n, " ", o3, " ", o4));
                ok = false;
                std::string o5 = vf::outcome([&] { ok = k.kem_encode(b); });
                EXPECT(ok == (n == KPK), "kyber-size-decision", cat("encode ", n, " ", o5));
                ok = false;
                std::string o6 = vf::outcome([&] { ok = k.kem_decode(b); });
                EXPECT(ok == (n == KCT), "kyber-size-decision", cat("decode ", n, " ", o6));
                std::string o7 = vf::outcome([&] { Kyber x(b, k.getSK()); }), o8 = vf::outcome([&] { Kyber x(k.getPK(), b); });
                EXPECT(o7.empty() == (n == KPK) && o8.empty() == (n == KSK), "kyber-key-size-decision", cat(n, " ", o7, " ", o8));
                vf::eval(cat("length", n));
                vf::count("lengths_swept");
                calls.clear();
            }
        });
}
