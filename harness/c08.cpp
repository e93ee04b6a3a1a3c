// C08: the hash functions against an independent FIPS 180-4 / FIPS 202 implementation over input and
// output lengths, with exact-size heap buffers (ASan) or fenced buffers (plain), C++ and Rust.
#include <sys/mman.h>
#include "qrl.h"
#include "rs.h"
#include "xmss-alt/fips202.h"
#include "shasha/shasha.h"
using namespace vq;

static const char *KN[4] = {"shake128", "shake256", "sha2_256", "sha2_256_n"};
static bytes want(int kind, const bytes &in, size_t n) {
    if (kind == 0) return ref::shake128(in, n);
    if (kind == 1) return ref::shake256(in, n);
    bytes h = ref::sha256(in);
    if (kind == 3) for (size_t i = 1; i < n; i++) h = ref::sha256(h);
    return h;
}
static bool sanitized() {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return true;
#endif
#endif
    return false;
}
// n: output length (SHAKE) or iteration count (sha2_256_n)
static void one(int kind, const bytes &in, size_t n, bool rust, vf::Rng &r) {
    auto where = [&] { return cat(KN[kind], " of ", in.size(), " bytes, n=", n, " in=", hexs(in)); };
    vf::at(cat(KN[kind], " in=", in.size(), " n=", n));
    bytes w = want(kind, in, n), given = in, got;
    // vector interface
    if (kind == 0) got = shake128(n, given);
    else if (kind == 1) got = shake256(n, given);
    else if (kind == 2) got = sha2_256(given);
    else got = sha2_256_n(given, n);
    if (got != w) vf::violation(cat("wrong-digest:", KN[kind]), where() + " got " + hexs(got) + " want " + hexs(w));
    if (given != in) vf::violation(cat("input-modified:", KN[kind]), where());
    vf::eval(vf::fnv(in, kind * 1000003 + n));
    vf::count("vector_calls");
    // pointer interface
    if (kind < 3) {
        size_t outn = kind == 2 ? 32 : n;
        const size_t F = sanitized() ? 0 : 64, off = sanitized() ? 0 : r.below(8);
        std::unique_ptr<uint8_t[]> ib(new uint8_t[in.size() + 2 * F + off]), ob(new uint8_t[outn + 2 * F + off]);
        uint8_t *ip = ib.get() + F + off, *op = ob.get() + F + off;
        memset(ib.get(), 0xA5, in.size() + 2 * F + off);
        memset(ob.get(), 0x5A, outn + 2 * F + off);
        if (!in.empty()) memcpy(ip, in.data(), in.size());
        if (kind == 0) shake128(op, outn, ip, in.size());
        else if (kind == 1) shake256(op, outn, ip, in.size());
        else sha2_256(op, ip, in.size());
        if (bytes(op, op + outn) != w) vf::violation(cat("wrong-digest-ptr:", KN[kind]), where());
        bool fence = true;
        for (size_t i = 0; i < F + off; i++) fence &= ib[i] == 0xA5 && ob[i] == 0x5A;
        for (size_t i = 0; i < F; i++) fence &= ip[in.size() + i] == 0xA5 && op[outn + i] == 0x5A;
        fence &= in.empty() || memcmp(ip, in.data(), in.size()) == 0;
        if (!fence) vf::violation(cat("wrote-outside-output:", KN[kind]), where());
        vf::evals(1);
        vf::count("pointer_calls");
    }
    if (rust) {
        rs::R q = rs::hash(kind, in, n);
        if (!q.ok) vf::violation(cat("rust-refused:", KN[kind]), where() + q.s());
        else if (q.v != w) vf::violation(cat("rust-wrong-digest:", KN[kind]), where() + " got " + hexs(q.v));
        vf::evals(1);
        vf::count("rust_calls");
    }
}
static bytes content(vf::Rng &r, size_t n) {
    switch (r.below(5)) {
        case 0: return bytes(n, 0);
        case 1: return bytes(n, 0xff);
        case 2: { bytes b(n, 0); if (n) b[n - 1] = 0x80; return b; }
        default: return r.buf(n);
    }
}

// More than 2^32 bytes (2^35 bits): byte and bit counters of every width below 64 bits wrap. The expected
// digests are committed (vectors/huge.txt, from another implementation).
static void gigabytes(int kind) {
    const size_t N = (1ull << 32) + 77;
    if (vf::available_memory() < 20ull << 30) { vf::count("gigabytes_skipped"); return; }
    std::ifstream f(vdir() + "/vectors/huge.txt");
    std::string line;
    for (int i = 0; i <= kind; i++) std::getline(f, line);
    const size_t out = kind == 2 ? 32 : 200;
    auto fill = [&](uint8_t *p) { for (size_t at = 0, i = 0; at < N; at += 1 << 20, i++) { p[at] = (uint8_t) (i * 37 + 11); p[std::min(N, at + (1 << 20)) - 1] ^= 0x80; } };
    auto judge = [&](const char *how, const bytes &got) {
        if (ref::hex(got) != line) vf::violation(cat("wrong-digest:", KN[kind]), cat(KN[kind], " of 2^32+77 bytes (", how, "): ", hexs(got, 32), " instead of ", line.substr(0, 64)));
        vf::eval(cat("gigabytes ", how, kind));
        vf::count("gigabytes");
    };
    vf::at(cat("gigabytes ", KN[kind]));
    {
        std::vector<unsigned char> v(N, 0);
        fill(v.data());
        judge("vector", kind == 0 ? shake128(out, std::move(v)) : kind == 1 ? shake256(out, std::move(v)) : sha2_256(std::move(v)));
    }
    vf::at(cat("gigabytes Rust ", KN[kind]));
    uint8_t *p = (uint8_t *) mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    fill(p);
    rs::R q = rs::take(rs_hash(kind, p, N, out), "gigabytes");
    munmap(p, N);
    if (!q.ok) vf::violation(cat("rust-refused:", KN[kind]), "2^32+77 bytes " + q.s());
    else judge("Rust", q.v);
}

void harness() {
    rs_init();
    if (vf::S().part == "huge") {
        for (int kind = 0; kind < 3; kind++) vf::run("gigabytes", [&](vf::Rng &) { gigabytes(kind); });
        return;
    }
    const bool san = vf::S().part == "san";
    const size_t MAXIN = vf::scale(san ? 420 : 700, 2100);
    // every input length, a spread of output lengths (and the reverse)
    for (int kind = 0; kind < 4; kind++) {
        size_t rate = kind == 0 ? 168 : kind == 1 ? 136 : 64;
        for (size_t lo = 0; lo <= MAXIN; lo += 50)
            vf::run(cat("inputs ", KN[kind]), [&](vf::Rng &r) {
                for (size_t n = lo; n < lo + 50; n++) {
                    bytes in = content(r, n);
                    if (kind == 2) { one(kind, in, 32, true, r); continue; }
                    if (kind == 3) { for (size_t c : {1, 2, 3}) one(kind, in, c, true, r); continue; }
                    for (size_t o : {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9), size_t(31), size_t(32), size_t(33), size_t(48), size_t(64), size_t(96), rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, 3 * rate, (size_t) r.below(1200)})
                        one(kind, in, o, true, r);
                }
                vf::count("input_lengths", 50);
            });
        if (kind < 2)
            for (size_t lo = 0; lo <= MAXIN; lo += 50)
                vf::run(cat("outputs ", KN[kind]), [&](vf::Rng &r) {
                    for (size_t o = lo; o < lo + 50; o++)
                        for (size_t n : {size_t(0), size_t(3), size_t(32), rate - 1, rate, rate + 1, 2 * rate, (size_t) r.below(900)}) one(kind, content(r, n), o, true, r);
                    vf::count("output_lengths", 50);
                });
        // random pairs, and multiples of the block well above the sweep
        for (int n = 0; n < vf::scale(san ? 4 : 12, 120); n++)
            vf::run(cat("random ", KN[kind]), [&](vf::Rng &r) {
                for (int q = 0; q < 40; q++) {
                    size_t in = r.chance(1, 2) ? rate * r.below(100) + r.below(3) - (r.chance(1, 2) ? 1 : 0) : r.below(20000);
                    if (in > 1u << 30) in = 0;
                    size_t o = kind == 3 ? r.range(1, 60) : r.chance(1, 2) ? rate * r.below(20) + r.below(3) : r.below(3000);
                    one(kind, content(r, in), o, true, r);
                }
            });
        // megabytes
        vf::run(cat("large ", KN[kind]), [&](vf::Rng &r) {
            size_t top = vf::scale(san ? 1 : 3, 24) << 20;
            one(kind, r.buf(top + r.below(400)), kind == 3 ? 2 : 100, true, r);
            one(kind, r.buf((65536 / rate + 1) * rate), kind == 3 ? 5 : 65536 + 1, true, r);
            one(kind, r.buf(65536), kind == 3 ? 257 : 300000, true, r);
            one(kind, r.buf(65535), kind == 3 ? 1 : 32, true, r);
            if (kind == 3)
                for (size_t n : {20000, 65535, 65536, 65537, 100000, 131072, 262147}) one(kind, r.buf(r.below(100)), n, !san || n < 70000, r);
            if (kind == 3 && !san) one(kind, r.buf(20), vf::scale(1u << 20, (1u << 24) + 1), true, r);
            vf::count("large_inputs");
        });
    }
    // calls interleaved: nothing survives from an earlier call
    for (int n = 0; n < vf::scale(8, 60); n++)
        vf::run("interleaved", [&](vf::Rng &r) {
            bytes keep = content(r, r.below(500));
            for (int q = 0; q < 60; q++) {
                one((int) r.below(4), content(r, r.below(700)), r.range(1, 200), r.chance(1, 2), r);
                one((int) r.below(4), keep, 40, true, r);
            }
        });
    // one buffer changed in place, a little at a time, hashed again and again; repeats and returns included
    for (int n = 0; n < vf::scale(san ? 4 : 12, 80); n++)
        vf::run("in-place", [&](vf::Rng &r) {
            bytes b = content(r, r.pick(std::vector<size_t>{1, 32, 64, 96, 100, 135, 136, 137, 168, 200, 500}));
            bytes was = b;
            for (int q = 0; q < 120; q++) {
                int kind = (int) r.below(4);
                size_t o = kind == 3 ? r.range(1, 4) : r.pick(std::vector<size_t>{31, 32, 33, 48, 64, 96});
                for (int again = 0; again < 2; again++) {
                    bytes w = want(kind, b, o), got = kind == 0 ? shake128(o, b) : kind == 1 ? shake256(o, b) : kind == 2 ? sha2_256(b) : sha2_256_n(b, o);
                    if (got != w) vf::violation(cat("wrong-digest:", KN[kind]), cat("in place, ", b.size(), " bytes, n=", o, " in=", hexs(b)));
                    if (kind < 3) {
                        bytes out(kind == 2 ? 32 : o);
                        if (kind == 0) shake128(out.data(), o, b.data(), b.size());
                        else if (kind == 1) shake256(out.data(), o, b.data(), b.size());
                        else sha2_256(out.data(), b.data(), b.size());
                        if (out != w) vf::violation(cat("wrong-digest-ptr:", KN[kind]), cat("in place, ", b.size(), " bytes, n=", o, " in=", hexs(b)));
                    }
                    vf::eval(vf::fnv(b, 31 + kind * 7919 + o));
                    vf::count("in_place");
                }
                if (r.chance(1, 5)) b = was;
                else b[r.chance(1, 3) ? 0 : r.chance(1, 2) ? b.size() - 1 : r.below(b.size())] ^= (uint8_t) (1 << r.below(8));
                if (r.chance(1, 10)) { if (r.chance(1, 2)) b.push_back(0); else if (b.size() > 1) b.pop_back(); was = b; }
            }
        });
    vf::run("count-zero", [&](vf::Rng &r) {
        for (size_t n : {0, 1, 32, 64, 200}) {
            bytes in = r.buf(n);
            std::string o = vf::outcome([&] { sha2_256_n(in, 0); });
            if (o != "invalid_argument") vf::violation("count-zero-accepted", "sha2_256_n(.., 0): " + o);
            if (rs::hash(3, in, 0).ok) vf::violation("rust-count-zero-accepted", "");
            vf::eval(cat("count zero ", n));
            vf::count("count_zero");
        }
    });
}
