// C09: addresses against the reference construction; validation against the reference decision for
// genuine, corrupted and arbitrary byte strings (C++ core, key accessors and the Rust port).
#include "qrl.h"
#include "rs.h"
using namespace vq;

static bool supported(const bytes &pk) { return pk.size() == 67 && ref::descriptor_ok(bytes(pk.begin(), pk.begin() + 3)); }

static void derive(const bytes &pk, vf::Rng &r) {
    vf::at("getAddress " + hexs(pk, 80));
    bytes in = pk, got;
    std::string o = vf::outcome([&] { got = QRLHelper::getAddress(in); });
    bool ok = supported(pk);
    auto where = [&] { return cat("pk=", hexs(pk, 80), " outcome=", o, " got=", hexs(got)); };
    if (in != pk) vf::violation("argument-modified", where());
    if (ok != o.empty()) vf::violation(ok ? "refused-supported-key" : "address-for-unsupported-key", where());
    else if (!ok && o != "invalid_argument") vf::violation("undocumented-exception", where());
    else if (ok && got != ref::address(pk)) vf::violation("wrong-address", where() + " want " + hexs(ref::address(pk)));
    rs::R q = rs::take(rs_address(pk.data(), pk.size()), "Rust get_address " + hexs(pk, 80));
    if (q.ok != ok || (ok && q.v != ref::address(pk))) vf::violation("rust-address", where() + " rust ok=" + cat(q.ok) + " " + hexs(q.v));
    vf::eval(vf::fnv(pk, 9));
    vf::count(ok ? "addresses" : "keys_refused");
}
static void valid(const bytes &a, const std::string &what) {
    vf::at(what + " " + hexs(a, 60));
    bytes in = a;
    bool want = ref::address_valid(a), got = false;
    std::string o = vf::outcome([&] { got = QRLHelper::addressIsValid(in); });
    auto where = [&] { return cat(what, ": ", hexs(a, 60), " (", a.size(), " bytes) scheme=", want, " got=", got, " ", o); };
    if (!o.empty()) vf::violation("validation-raised", where());
    else if (got != want) vf::violation(got ? "invalid-address-accepted" : "valid-address-rejected", where());
    if (in != a) vf::violation("argument-modified", where());
    rs::R q = rs::take(rs_address_valid(a.data(), a.size()), "Rust address_is_valid " + hexs(a, 60));
    if (!q.ok || (q.v[0] == 1) != want) vf::violation("rust-validation", where());
    vf::eval(vf::fnv(a, 19));
    vf::count(want ? "valid" : "invalid");
}
static bytes a_key(vf::Rng &r) {
    bytes pk = r.buf(67);
    pk[0] = (uint8_t) r.below(3);
    pk[1] = (uint8_t) r.below(16);
    pk[2] = r.chance(1, 2) ? 0 : (uint8_t) r.next();
    return pk;
}

void harness() {
    rs_init();
    const bool san = vf::S().part == "san";
    for (int n = 0; n < vf::scale(san ? 4 : 24, 300); n++)
        vf::run("random-keys", [&](vf::Rng &r) {
            for (int q = 0; q < 60; q++) {
                bytes pk = a_key(r);
                derive(pk, r);
                bytes a = ref::address(pk);
                valid(a, "generated");
                bytes l = QRLHelper::getAddress(pk);
                if (!QRLHelper::addressIsValid(l)) vf::violation("own-address-rejected", hexs(l, 60));
                vf::sample("pk " + hexs(pk, 12) + " -> " + hexs(a, 39));
                for (int t = 0; t < 12; t++) {  // damage
                    bytes b = a;
                    switch (r.below(7)) {
                        case 0: b[r.below(39)] ^= (uint8_t) r.range(1, 255); break;
                        case 1: b.resize(r.below(39)); break;
                        case 2: { size_t n = r.range(1, 40); for (size_t i = 0; i < n; i++) b.push_back((uint8_t) r.next()); break; }
                        case 3: std::swap(b[r.below(39)], b[r.below(39)]); break;
                        case 4: b.erase(b.begin() + r.below(39)); break;
                        case 5: b.insert(b.begin() + r.below(40), (uint8_t) r.next()); break;
                        default: for (int i = 0; i < 4; i++) b[35 + i] = (uint8_t) r.next();
                    }
                    valid(b, "damaged");
                }
                // right checksum over arbitrary first bytes (unknown descriptors must not be accepted)
                bytes b = r.buf(35);
                if (r.chance(1, 2)) b[0] = (uint8_t) (r.below(4) | (r.chance(1, 4) ? 16u << r.below(4) : 0));
                if (r.chance(1, 2)) b[1] &= 0x1f;
                bytes h = ref::sha256(b);
                b.insert(b.end(), h.end() - 4, h.end());
                valid(b, "checksummed");
                // the checksum of something else
                bytes c = a;
                h = ref::sha256(bytes(a.begin(), a.begin() + 34));
                std::copy(h.end() - 4, h.end(), c.begin() + 35);
                valid(c, "other-checksum");
                h = ref::sha256(bytes(a.begin(), a.begin() + 35));
                std::copy(h.begin(), h.begin() + 4, c.begin() + 35);
                valid(c, "leading-checksum");
            }
        });
    // every single-byte change (all 255 alternatives) of a valid address
    for (int n = 0; n < vf::scale(san ? 1 : 5, 40); n++)
        for (int part = 0; part < 3; part++)
            vf::run("every-byte", [&](vf::Rng &r) {
                vf::Rng fix(vf::S().seed, 77 + n);
                bytes a = ref::address(a_key(fix));
                for (size_t p = part; p < 39; p += 3)
                    for (int d = 1; d < 256; d++) {
                        bytes b = a;
                        b[p] ^= (uint8_t) d;
                        valid(b, cat("byte ", p, " ^ ", d));
                        vf::count("single_byte_changes");
                    }
            });
    // consecutive keys and addresses that differ little, with returns to earlier ones
    for (int n = 0; n < vf::scale(san ? 3 : 10, 80); n++)
        vf::run("neighbours", [&](vf::Rng &r) {
            bytes pk = a_key(r), was = pk;
            for (int q = 0; q < 150; q++) {
                derive(pk, r);
                valid(ref::address(pk), "neighbour");
                bytes other = ref::address(was);
                other[r.chance(1, 2) ? r.below(3) : r.below(39)] ^= (uint8_t) (1 << r.below(4));
                valid(other, "neighbour damaged");
                bytes keep = pk;
                switch (r.below(7)) {
                    case 0: pk = was; break;
                    case 1: pk[0] = (uint8_t) r.below(3); break;
                    case 2: pk[1] = (uint8_t) r.below(16); break;
                    case 3: pk[2] ^= (uint8_t) r.range(1, 255); break;
                    case 4: pk[3 + r.below(32)] ^= (uint8_t) (1 << r.below(8)); break;
                    case 5: pk[35 + r.below(32)] ^= (uint8_t) (1 << r.below(8)); break;
                    default: pk[r.chance(1, 2) ? 66 : 3] ^= 1; break;
                }
                was = keep;
                vf::count("neighbours");
            }
        });
    // every key length, every truncation and extension of an address
    vf::run("lengths", [&](vf::Rng &r) {
        bytes pk = a_key(r);
        for (size_t n = 0; n < 300; n++) { bytes p = pk; p.resize(n, 7); derive(p, r); }
        for (int rep = 0; rep < 8; rep++) {
            bytes a = ref::address(a_key(r));
            for (size_t n = 0; n < 200; n++) {
                bytes b = a;
                b.resize(n, 0);
                valid(b, "length");
                // a right checksum at the end of any length
                if (n >= 4) {
                    bytes h = ref::sha256(bytes(b.begin(), b.end() - 4));
                    std::copy(h.end() - 4, h.end(), b.end() - 4);
                    valid(b, "checksummed length");
                }
            }
        }
        vf::count("length_sweeps");
    });
    // every descriptor prefix with a right checksum
    for (int part = 0; part < 8; part++)
        vf::run("descriptors", [&](vf::Rng &r) {
            if (san) return;
            for (int d = part; d < 65536; d += 8) {
                bytes b = r.buf(35);
                b[0] = (uint8_t) d;
                b[1] = (uint8_t) (d >> 8);
                bytes h = ref::sha256(b);
                b.insert(b.end(), h.end() - 4, h.end());
                valid(b, "descriptor");
                if (d % 64 == part) { bytes pk = r.buf(67); pk[0] = b[0]; pk[1] = b[1]; derive(pk, r); }
                vf::count("descriptors");
            }
        });
    // addresses of real keys
    for (int n = 0; n < vf::scale(san ? 2 : 6, 30); n++)
        vf::run("keys", [&](vf::Rng &r) {
            Cfg c{(int) r.below(3), 4, WS[r.below(3)]};
            auto k = make(r.chance(1, 2), seed48(r), c);
            derive(k->getPK(), r);
            if (k->getAddress() != ref::address(k->getPK())) vf::violation("key-address", hexs(k->getPK(), 67));
            valid(k->getAddress(), "key address");
            vf::count("real_keys");
        });
}
