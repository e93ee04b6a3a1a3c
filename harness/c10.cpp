// C10: descriptors, decoded and encoded exhaustively, in C++ and Rust.
#include "qrl.h"
#include "rs.h"
using namespace vq;

static std::string decode(int from, const bytes &in, bytes &out, bytes &again) {
    return vf::outcome([&] {
        QRLDescriptor d = from == 0 ? QRLDescriptor::fromBytes(in) : from == 1 ? QRLDescriptor::fromExtendedSeed(in) : QRLDescriptor::fromExtendedPK(in);
        out = {(uint8_t) d.getHashFunction(), (uint8_t) d.getSignatureType(), d.getHeight(), (uint8_t) d.getAddrFormatType()};
        again = d.getBytes();
    });
}
static const size_t LEN[3] = {3, 51, 67};
static void one(int from, const bytes &in) {
    bool want = in.size() == LEN[from] && ref::descriptor_ok(bytes(in.begin(), in.begin() + 3));
    bytes f, b, exp, expb;
    if (want) {
        exp = {(uint8_t) (in[0] & 15), (uint8_t) (in[0] >> 4), (uint8_t) (2 * (in[1] & 15)), (uint8_t) (in[1] >> 4)};
        expb = {in[0], in[1], 0};
    }
    bytes copy = in;
    std::string o = decode(from, copy, f, b);
    auto where = [&] { return cat("source ", from, " ", hexs(in, 70), " (", in.size(), " bytes): ", o, " fields=", hexs(f), " bytes=", hexs(b)); };
    if (want != o.empty()) vf::violation(want ? "refused-known-descriptor" : "accepted-unknown-descriptor", where());
    else if (!want && o != "invalid_argument") vf::violation("undocumented-exception", where());
    else if (want && f != exp) vf::violation("wrong-fields", where() + " want " + hexs(exp));
    else if (want && b != expb) vf::violation("wrong-encoding", where() + " want " + hexs(expb));
    rs::R q = rs::take(rs_descr(from, in.data(), in.size()), "Rust descriptor " + hexs(in, 70));
    bytes all = exp;
    all.insert(all.end(), expb.begin(), expb.end());
    if (q.ok != want || (want && q.v != all)) vf::violation("rust-descriptor", where() + cat(" rust ok=", q.ok, " ") + hexs(q.v));
    vf::eval(vf::fnv(in, 100 + from));
    vf::count(want ? "decoded" : "refused");
}

void harness() {
    rs_init();
    const bool san = vf::S().part == "san";
    const int step = san ? 32 : 16;
    for (int part = 0; part < 16; part++)
        for (int from = 0; from < 3; from++)
            vf::run("every-prefix", [&](vf::Rng &r) {
                int inc = vf::thorough() || !san ? 16 : 16 * 7;
                for (int d = part; d < 65536; d += inc) {
                    bytes b = r.buf(LEN[from]);
                    b[0] = (uint8_t) d;
                    b[1] = (uint8_t) (d >> 8);
                    int n = vf::scale(san ? 1 : 2, 16);
                    for (int q = 0; q < n; q++) { b[2] = q == 0 ? 0 : (uint8_t) r.next(); one(from, b); }
                    vf::count("prefixes");
                }
                (void) step;
            });
    // the third byte is reserved: all its values, for every known prefix
    vf::run("reserved-byte", [&](vf::Rng &r) {
        for (int hf = 0; hf < 3; hf++)
            for (int h = 0; h < 16; h++)
                for (int x = 0; x < 256; x++) { bytes b = {(uint8_t) hf, (uint8_t) h, (uint8_t) x}; one(0, b); }
        vf::count("reserved_sweeps");
    });
    vf::run("lengths", [&](vf::Rng &r) {
        for (int from = 0; from < 3; from++)
            for (size_t n = 0; n < 400; n++) {
                bytes b(n, 0);
                for (int q = 0; q < 3; q++) {
                    if (q) b = r.buf(n);
                    if (n) b[0] = (uint8_t) r.below(3);
                    if (n > 1) b[1] = (uint8_t) r.below(16);
                    one(from, b);
                }
                vf::count("lengths");
            }
        one(0, r.buf(1 << 20));
        one(1, r.buf(1 << 20));
        one(2, r.buf(1 << 20));
    });
    // encode, then decode
    for (int hf = 0; hf < 3; hf++)
        vf::run("encode", [&](vf::Rng &r) {
            for (int h = 0; h <= 30; h += 2) {
                QRLDescriptor d(HF[hf], eSignatureType::XMSS, (uint8_t) h, eAddrFormatType::SHA256_2X);
                bytes want = {(uint8_t) hf, (uint8_t) (h / 2), 0};
                bytes got = d.getBytes();
                if (got != want || got != ref::descriptor(hf, 0, h, 0)) vf::violation("wrong-encoding", cat(HFN[hf], " h=", h, " got ", hexs(got)));
                if (got != d.getBytes()) vf::violation("encoding-not-stable", "");
                if (d.getHashFunction() != HF[hf] || d.getHeight() != h || d.getSignatureType() != eSignatureType::XMSS || d.getAddrFormatType() != eAddrFormatType::SHA256_2X) vf::violation("accessors", cat(HFN[hf], " h=", h));
                bytes f, b;
                if (!decode(0, got, f, b).empty() || f != bytes({(uint8_t) hf, 0, (uint8_t) h, 0}) || b != got) vf::violation("round-trip", cat(HFN[hf], " h=", h, " ", hexs(f)));
                bytes es = r.buf(51), pk = r.buf(67);
                std::copy(got.begin(), got.end(), es.begin());
                std::copy(got.begin(), got.end(), pk.begin());
                one(0, got);
                one(1, es);
                one(2, pk);
                rs::R q = rs::take(rs_descr_new(hf, (uint8_t) h), "Rust descriptor new");
                if (!q.ok || q.v != want) vf::violation("rust-encoding", cat(HFN[hf], " h=", h, " ", hexs(q.v)));
                vf::eval(cat("encode ", hf, " ", h));
                vf::count("encoded");
                vf::sample(cat(HFN[hf], " h=", h, " -> ", hexs(got)));
            }
        });
    // "so no other code ever sees an unknown value": keys and addresses
    vf::run("users", [&](vf::Rng &r) {
        for (int n = 0; n < vf::scale(40, 400); n++) {
            bytes e = r.buf(51);
            switch (r.below(3)) {
                case 0: e[0] = (uint8_t) r.range(3, 15); e[1] = 2; break;
                case 1: e[0] = (uint8_t) (r.below(3) | (r.range(1, 15) << 4)); e[1] = 2; break;
                default: e[0] = (uint8_t) r.below(3); e[1] = (uint8_t) (2 | (r.range(1, 15) << 4));
            }
            std::string o = vf::outcome([&] { XmssFast k(e); });
            if (o != "invalid_argument") vf::violation("key-from-unknown-descriptor", hexs(e, 51) + " " + o);
            bytes pk = r.buf(67), sig = r.buf(2308);
            std::copy(e.begin(), e.begin() + 3, pk.begin());
            if (XmssBase::verify(bytes(3, 0), sig, pk)) vf::violation("verified-unknown-descriptor", hexs(pk, 67));
            o = vf::outcome([&] { QRLHelper::getAddress(pk); });
            if (o != "invalid_argument") vf::violation("address-from-unknown-descriptor", hexs(pk, 67) + " " + o);
            rs::Key k(e);
            if (k.made) vf::violation("rust-key-from-unknown-descriptor", hexs(e, 51));
            vf::eval(vf::fnv(e));
            vf::count("users");
        }
    });
}
