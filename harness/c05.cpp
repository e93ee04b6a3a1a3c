// C05: a key rebuilt from any of its encodings is the same key; accessors are consistent.
#include "tall.h"
using namespace vq;

static bytes sub(const bytes &b, size_t at, size_t n) { return bytes(b.begin() + at, b.begin() + at + n); }
static bytes join(const bytes &a, const bytes &b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

static void accessors(XmssBase &k, const bytes &seed, const Cfg &c, uint32_t idx, const std::string &tag) {
    auto fail = [&](const char *what) { return [=] { return cat(what, " ", tag, " ", name(c), " seed=", hexs(seed, 48)); }; };
    bytes sk = k.getSK(), pk = k.getPK(), d = k.getDescriptorBytes();
    vf::check(sk.size() == 132 && k.getSecretKeySize() == 132, "secret-key-size", fail("sk size"));
    vf::check(pk.size() == 67 && k.getPublicKeySize() == 67, "public-key-size", fail("pk size"));
    if (sk.size() != 132 || pk.size() != 67) return;
    vf::check(d == ref::descriptor(c.hf, 0, c.h, 0), "descriptor-bytes", fail("descriptor"));
    auto desc = k.getDescriptor();
    vf::check(desc.getHashFunction() == HF[c.hf] && desc.getHeight() == c.h && desc.getSignatureType() == eSignatureType::XMSS && desc.getAddrFormatType() == SHA256_2X && desc.getBytes() == d, "descriptor-fields", fail("descriptor fields"));
    vf::check(pk == join(join(d, k.getRoot()), k.getPKSeed()), "public-key-layout", fail("pk = descriptor|root|pub seed"));
    vf::check(k.getExtendedSeed() == join(d, seed), "extended-seed-layout", fail("extended seed = descriptor|seed"));
    vf::check(k.getSeed() == seed, "seed", fail("seed"));
    bytes ix{(uint8_t) (idx >> 24), (uint8_t) (idx >> 16), (uint8_t) (idx >> 8), (uint8_t) idx};
    vf::check(sk == join(join(join(join(ix, k.getSKSeed()), k.getSKPRF()), k.getPKSeed()), k.getRoot()), "secret-key-layout", fail("sk layout"));
    vf::check(k.getSKSeed().size() == 32 && k.getSKPRF().size() == 32 && k.getPKSeed().size() == 32 && k.getRoot().size() == 32, "part-sizes", fail("part sizes"));
    bytes exp = ref::shake256(seed, 96);
    vf::check(sub(sk, 4, 96) == exp, "seed-expansion", fail("sk seed|prf|pub seed"));
    vf::check(k.getIndex() == idx, "index", fail("index"));
    vf::check(k.getHeight() == c.h && k.getNumberSignatures() == (1u << c.h), "height", fail("height"));
    vf::check(k.getAddress() == ref::address(pk) && k.getAddress() == QRLHelper::getAddress(pk), "address", fail("address"));
    vf::check(k.getSignatureSize(c.w) == ref::sig_base_size(c.w) + 32u * c.h, "signature-size", fail("signature size"));
    // asking changes nothing
    vf::check(k.getSK() == sk && k.getPK() == pk, "accessors-change-key", fail("accessors change the key"));
    vf::eval(cat("acc", tag, name(c), idx, hexs(seed, 48)));
    vf::count("accessor_checks");
}
static void same(XmssBase &a, XmssBase &b, vf::Rng &r, const std::string &tag, bool signs) {
    auto fail = [&](const char *w) { return [=] { return cat(w, " ", tag); }; };
    vf::check(a.getSK() == b.getSK(), "recovered-secret-key", fail("sk"));
    vf::check(a.getPK() == b.getPK(), "recovered-public-key", fail("pk"));
    vf::check(a.getAddress() == b.getAddress(), "recovered-address", fail("address"));
    vf::check(a.getDescriptorBytes() == b.getDescriptorBytes(), "recovered-descriptor", fail("descriptor"));
    vf::check(a.getSeed() == b.getSeed() && a.getExtendedSeed() == b.getExtendedSeed(), "recovered-seed", fail("seed"));
    if (signs) {
        uint32_t n = a.getNumberSignatures();
        for (int i = 0; i < 4; i++) {
            uint32_t to = (uint32_t) (a.getIndex() + r.below(n / 4));
            if (to >= n) break;
            a.setIndex(to); b.setIndex(to);
            bytes m = r.buf(r.below(80));
            vf::check(a.sign(m) == b.sign(m), "recovered-signatures", fail("signature"));
            vf::count("signatures_compared");
        }
    }
    vf::eval(cat("same", tag, hexs(a.getExtendedSeed(), 51)));
    vf::count("recoveries");
}

void harness() {
    bool san = vf::S().part == "san";
    for (int n = 0; n < (san ? 1 : vf::scale(4, 90)); n++)
        for (int hf = 0; hf < 3; hf++)
            for (int h : {4, 6, 8, 10}) {
                if (h == 8 && (san || (!vf::thorough() && n))) continue;
                if (h == 6 && !vf::thorough() && n > 1) continue;
                if (h == 10 && (san || n || !vf::thorough())) continue;
                vf::run("recover", [&](vf::Rng &r) {
                    Cfg c{hf, h, 16};
                    bytes seed = seed48(r);
                    std::string tag = cat("recover ", name(c), " seed=", hexs(seed, 48));
                    XmssFast a(seed, (unsigned char) h, HF[hf]);
                    accessors(a, seed, c, 0, "fast");
                    bytes ext = a.getExtendedSeed();
                    vf::sample(tag);
                    // the textual forms are the reference encodings and decode to the extended seed
                    std::string hx = bin2hstr(ext), mn = bin2mnemonic(ext);
                    vf::check(hx == ref::hex(ext), "hex-form", [&] { return hx; });
                    vf::check(hstr2bin(hx) == ext, "hex-round-trip", [&] { return hx; });
                    vf::check(mnemonic2bin(mn) == ext, "mnemonic-round-trip", [&] { return mn; });
                    for (int way = 0; way < 3; way++) {
                        XmssFast b(way == 0 ? ext : way == 1 ? hstr2bin(hx) : mnemonic2bin(mn));
                        same(a, b, r, cat(tag, " by ", way == 0 ? "extended seed" : way == 1 ? "hex" : "mnemonic"), true);
                        XmssFast f(seed, (unsigned char) h, HF[hf]);  // fresh for the next comparison
                        a = f;
                    }
                    {   // the same seed and parameters again, and the basic signer
                        XmssFast b(a.getSeed(), a.getHeight(), a.getDescriptor().getHashFunction(), a.getDescriptor().getAddrFormatType());
                        same(a, b, r, tag + " by parts", true);
                        if (h <= 6) {
                            XmssFast f(seed, (unsigned char) h, HF[hf]);
                            XmssBasic q(seed, (unsigned char) h, HF[hf], SHA256_2X);
                            accessors(q, seed, c, 0, "basic");
                            same(f, q, r, tag + " basic", true);
                        }
                    }
                    // accessors along the life of a key
                    XmssFast l(ext);
                    for (int i = 0; i < 4; i++) {
                        uint32_t to = (uint32_t) (l.getIndex() + r.below((1u << h) / 4));
                        l.setIndex(to);
                        accessors(l, seed, c, to, "moved");
                        l.sign(r.buf(3));
                        accessors(l, seed, c, to + 1, "signed");
                    }
                });
            }
    // every height: several keys in one process, each built from parts and from its extended seed (whichever text), compared
    // with the reference and with each other, in changing order (key generation is planted, see tall.h)
        for (int n = 0; n < (san ? 1 : vf::scale(2, 30)); n++)
            for (int h = 4; h <= 30; h += san ? 8 : 2)
                vf::run("every-height", [&](vf::Rng &r) {
                    if (!tall::works()) return;
                    struct Kept { bytes seed; Cfg c; std::shared_ptr<tall::Sparse> t; uint32_t s; std::unique_ptr<XmssFast> k; };
                    std::vector<Kept> kept;
                    for (int q = 0; q < 6; q++) {
                        Kept e;
                        e.seed = q == 3 ? kept[0].seed : seed48(r);
                        if (q == 4) { e.seed = kept[2].seed; e.seed[r.below(48)] ^= (uint8_t) (1 << r.below(8)); }
                        e.c = Cfg{(int) r.below(3), r.chance(2, 3) ? h : 4 + 2 * (int) r.below(14), 16};
                        e.s = r.chance(1, 2) ? 0 : tall::place(r, e.c.h, 4);
                        e.t = tall::sparse(e.seed, e.c, e.s, 0);
                        std::string tag = cat("every-height ", name(e.c), " seed=", hexs(e.seed, 48), " at ", e.s);
                        vf::at(tag);
                        e.k = tall::make(*e.t, e.seed, e.s, r.chance(1, 2));
                        accessors(*e.k, e.seed, e.c, e.s, "tall");
                        bytes ext = e.k->getExtendedSeed(), want = ref::descriptor(e.c.hf, 0, e.c.h, 0);
                        want.insert(want.end(), e.seed.begin(), e.seed.end());
                        vf::check(ext == want, "extended-seed", [&] { return tag + " " + hexs(ext, 60); });
                        vf::check(e.k->getSK() == e.t->secret(e.s) && e.k->getPK() == e.t->k.epk(), "recovered-secret-key", [&] { return tag; });
                        bytes rec = r.chance(1, 2) ? mnemonic2bin(bin2mnemonic(ext)) : hstr2bin(bin2hstr(ext));
                        vf::check(rec == ext, "text-round-trip", [&] { return tag; });
                        auto again = tall::make(*e.t, bytes(rec.begin() + 3, rec.end()), e.s, true);
                        vf::check(again->getSK() == e.k->getSK() && again->getPK() == e.k->getPK() && again->getSeed() == e.seed && again->getHeight() == e.c.h && again->getExtendedSeed() == ext,
                                  "recovered-key-differs", [&] { return tag; });
                        bytes m = r.buf(r.below(40)), sig = again->sign(m);
                        vf::check(sig == e.t->sign(e.s, m), "recovered-signatures", [&] { return tag; });
                        vf::eval(tag);
                        vf::count("tall_recoveries");
                        vf::count(cat("height_", e.c.h));
                        kept.push_back(std::move(e));
                        for (auto &o : kept) vf::check(o.k->getSeed() == o.seed && o.k->getSK() == o.t->secret(o.s), "earlier-key-changed", [&] { return tag; });
                    }
                });
    // keys really generated at larger heights (cheap leaves, tall.h), rebuilt in every way and by the other signer
    for (int h = 8; h <= (san ? 10 : vf::scale(14, 20)); h += 2)
        for (int hf = 0; hf < 3; hf++)
            vf::run("grown", [&](vf::Rng &r) {
                if (!tall::grows()) return;
                Cfg c{hf, h, 16};
                bytes seed = seed48(r);
                std::string tag = cat("grown ", name(c), " seed=", hexs(seed, 48));
                vf::at(tag);
                tall::Grown t(seed, c);
                tall::Grow g(&t.k);
                XmssFast a(seed, (unsigned char) h, HF[hf]), fresh(a);
                accessors(a, seed, c, 0, "grown");
                bytes ext = a.getExtendedSeed();
                XmssFast b(hstr2bin(bin2hstr(ext))), d(mnemonic2bin(bin2mnemonic(ext)));
                accessors(b, seed, c, 0, "grown by hex");
                accessors(d, seed, c, 0, "grown by mnemonic");
                same(a, b, r, tag + " by hex", true);
                XmssBasic q(seed, (unsigned char) h, HF[hf], SHA256_2X);
                accessors(q, seed, c, 0, "grown basic");
                same(fresh, d, r, tag + " by mnemonic", false);
                if (h <= 10) same(fresh, q, r, tag + " basic", true); else same(fresh, q, r, tag + " basic", false);
                for (uint32_t to : {(1u << h) - 2, (1u << h) - 1}) { d.setIndex(to); accessors(d, seed, c, to, "grown end"); d.sign(r.buf(9)); accessors(d, seed, c, to + 1, "grown end"); }
                vf::count("grown_recoveries");
            });
    // every 12-bit group at every parity of a seed, through both texts; some of the seeds also make keys
    for (int part = 0; part < 8; part++)
        vf::run("every-group", [&](vf::Rng &r) {
            std::vector<uint16_t> order(4096);
            for (int i = 0; i < 4096; i++) order[i] = (uint16_t) i;
            for (int i = 4095; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
            for (int s = 0; s < 128; s += san ? 16 : 1) {
                bytes ext = ref::descriptor((int) r.below(3), 0, 4, 0);
                for (int q = 0; q < 32; q += 2) {
                    int a = order[s * 32 + q], b = order[s * 32 + q + 1];
                    ext.push_back((uint8_t) (a >> 4)); ext.push_back((uint8_t) (a << 4 | b >> 8)); ext.push_back((uint8_t) b);
                }
                std::string hx = bin2hstr(ext), mn = bin2mnemonic(ext);
                auto fail = [&] { return cat("extended seed ", hexs(ext, 51)); };
                bytes back_h = hstr2bin(hx), back_m = mnemonic2bin(mn);
                vf::check(back_h == ext, "hex-round-trip", fail);
                vf::check(back_m == ext, "mnemonic-round-trip", fail);
                vf::eval(vf::fnv(ext, 9));
                vf::count("groups", 32);
                if (s % 16 == 0 && !san) { XmssFast a(ext), b(back_m), c(back_h); same(a, b, r, "group by mnemonic", true); XmssFast a2(ext); same(a2, c, r, "group by hex", true); }
            }
        });
    for (int hf = 0; hf < 3; hf++)
        for (uint32_t w : WS)
            vf::run("other-W", [&](vf::Rng &r) {
                Cfg c{hf, 4, w};
                bytes seed = seed48(r);
                auto a = make(false, seed, c), b = make(false, seed, c), f = make(true, seed, c);
                accessors(*a, seed, c, 0, "basic-w");
                accessors(*f, seed, c, 0, "fast-w");
                same(*a, *b, r, name(c), true);
                auto a2 = make(false, seed, c);
                same(*a2, *f, r, name(c) + " fast", true);
            });
    // distinct seeds and parameters give distinct keys
    vf::run("distinct", [&](vf::Rng &r) {
        std::map<bytes, std::string> seen;
        bytes seed = r.buf(48);
        for (int bit = 0; bit < (san ? 4 : 96); bit++) {
            bytes s = seed;
            if (bit) { size_t p = bit <= 48 ? (size_t) (bit - 1) : r.below(48); s[p] ^= (uint8_t) (1 << r.below(8)); }
            XmssFast k(s, 4, HF[bit % 3]);
            std::string how = cat("bit ", bit);
            auto ins = seen.emplace(k.getRoot(), hexs(s, 48));
            vf::check(ins.second || ins.first->second == hexs(s, 48), "different-seeds-same-key", [&] { return how; });
            vf::eval(how);
        }
    });
}
