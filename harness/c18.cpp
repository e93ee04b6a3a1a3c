// C18: getHashChainSeed of the C++ library and the Rust port against SHAKE256(seed | LE32 shift | LE32 i).
#include "qrl.h"
#include "rs.h"
using namespace vq;

namespace {
bytes expected(const bytes &seed, uint32_t shift, uint32_t i) {
    bytes b = seed;
    for (int k = 0; k < 4; k++) b.push_back((uint8_t) (shift >> 8 * k));
    for (int k = 0; k < 4; k++) b.push_back((uint8_t) (i >> 8 * k));
    return ref::shake256(b, 32);
}
std::vector<bytes> rust(const bytes &seed, uint32_t shift, uint32_t count, const std::string &what) {
    rs::R r = rs::take(rs_chain(seed.data(), seed.size(), shift, count), what);
    std::vector<bytes> o;
    if (!r.ok) { vf::violation("rust-refused", what); return o; }
    for (size_t p = 0; p + 4 <= r.v.size();) {
        uint32_t n;
        memcpy(&n, &r.v[p], 4);
        o.emplace_back(r.v.begin() + p + 4, r.v.begin() + p + 4 + n);
        p += 4 + n;
    }
    return o;
}
struct Seen {   // every value produced in this process, by what it should depend on
    std::map<bytes, std::string> m;
    void put(const bytes &v, const std::string &who) {
        auto it = m.emplace(v, who).first;
        if (it->second != who) vf::violation("values-coincide", cat(hexs(v), " is the value of ", it->second, " and of ", who));
    }
};
void judge(const std::vector<bytes> &got, const bytes &seed, uint32_t shift, uint32_t count, const std::string &who, const std::vector<uint32_t> *only = nullptr) {
    const std::string what = cat(who, " getHashChainSeed(", hexs(seed), ", shift ", shift, ", count ", count, ")");
    if (got.size() != count) { vf::violation("wrong-count:" + who, cat(what, " gave ", got.size(), " values")); return; }
    auto one = [&](uint32_t i) {
        if (got[i] != expected(seed, shift, i)) vf::violation("wrong-value:" + who, cat(what, ": position ", i, " is ", hexs(got[i]), " expected ", hexs(expected(seed, shift, i))));
        vf::evals(1);
        vf::count("values_" + who);
    };
    if (only) { for (uint32_t i : *only) one(i); }
    else for (uint32_t i = 0; i < count; i++) one(i);
}
std::vector<bytes> cpp(const bytes &seed, uint32_t shift, uint32_t count) {
    std::vector<bytes> g;
    bytes copy = seed;
    std::string e = vf::outcome([&] { g = getHashChainSeed(seed, shift, count); });
    if (!e.empty()) vf::violation("raised", cat("getHashChainSeed(", hexs(seed), ", ", shift, ", ", count, ") raised ", e));
    if (copy != seed) vf::violation("argument-altered", hexs(copy));
    return g;
}
uint32_t shift(vf::Rng &r) {
    static const std::vector<uint32_t> edge = {0, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    if (r.chance(1, 4)) return 1u << r.below(32);
    return r.chance(1, 2) ? r.pick(edge) : (uint32_t) r.next();
}
uint32_t count(vf::Rng &r) {
    static const std::vector<uint32_t> edge = {0, 1, 2, 3, 4, 16, 31, 32, 255, 256, 257, 300};
    return r.chance(2, 3) ? r.pick(edge) : (uint32_t) r.below(400);
}
size_t length(vf::Rng &r) {
    static const std::vector<size_t> edge = {0, 1, 3, 4, 7, 8, 31, 32, 33, 47, 48, 51, 127, 128, 129, 135, 136, 137, 168, 263, 264, 265, 271, 272, 273, 400};
    if (r.chance(1, 40)) return r.range(5000, 80000);
    return r.chance(1, 2) ? r.pick(edge) : r.below(400);
}
}  // namespace

void harness() {
    rs_init();
    for (int n = 0; n < vf::scale(1600, 20000); n++)
        vf::run("chain", [&](vf::Rng &r) {
            bytes seed = r.buf(length(r));
            uint32_t s = shift(r), c = count(r);
            if (seed.size() > 4000) c = std::min(c, 40u);
            vf::at(cat("chain of ", seed.size(), " bytes, shift ", s, ", count ", c));
            auto g = cpp(seed, s, c);
            judge(g, seed, s, c, "cpp");
            auto q = rust(seed, s, c, cat("hash chain shift ", s, " count ", c));
            judge(q, seed, s, c, "rust");
            Seen seen;
            for (uint32_t i = 0; i < g.size(); i++) seen.put(g[i], cat(hexs(seed), "/", s, "/", i));
            // neighbours: another length, another shift, nearby seeds
            uint32_t c2 = (uint32_t) r.below(c + 20);
            auto g2 = cpp(seed, s, c2);
            for (uint32_t i = 0; i < std::min(g.size(), g2.size()); i++)
                if (g[i] != g2[i]) vf::violation("longer-result-does-not-extend", cat("shift ", s, " counts ", c, " and ", c2, " differ at ", i));
            uint32_t s2 = r.chance(1, 2) ? s ^ (1u << r.below(32)) : shift(r);
            auto g3 = cpp(seed, s2, std::min(c, 8u));
            judge(g3, seed, s2, std::min(c, 8u), "cpp");
            for (uint32_t i = 0; i < g3.size(); i++) seen.put(g3[i], cat(hexs(seed), "/", s2, "/", i));
            for (int k = 0; k < 3; k++) {
                bytes o = seed;
                if (k == 0) o.push_back((uint8_t) (r.chance(1, 2) ? 0 : r.below(256)));
                else if (o.empty()) continue;
                else if (k == 1) o[r.below(o.size())] ^= (uint8_t) (1 << r.below(8));
                else o.pop_back();
                auto g4 = cpp(o, s, 3);
                judge(g4, o, s, 3, "cpp");
                // a longer seed may spell the same bytes only if shift and position are part of it; three positions of one length cannot
                for (uint32_t i = 0; i < g4.size(); i++) seen.put(g4[i], cat(hexs(o), "+", o.size(), "/", s, "/", i));
            }
            vf::count("shifts_" + std::string(s > 0xffff ? "wide" : "narrow"));
            if (c == 0) vf::count("count_zero");
            if (seed.empty()) vf::count("empty_seeds");
            vf::eval(vf::fnv(seed) ^ vf::fnv(cat(s, "/", c)));
            vf::sample(cat("seed of ", seed.size(), " bytes, shift ", s, ", count ", c));
        });
    for (uint32_t c : {65537u, 70000u})
        vf::run("long", [&](vf::Rng &r) {   // positions above 16 bits
            bytes seed = r.buf(48);
            uint32_t s = shift(r);
            std::vector<uint32_t> only = {0, 1, 255, 256, 257, 511, 512, 65535, 65536, c - 1};
            for (int i = 0; i < 3000; i++) only.push_back((uint32_t) r.below(c));
            auto g = cpp(seed, s, c);
            judge(g, seed, s, c, "cpp", &only);
            auto q = rust(seed, s, c, "long hash chain");
            judge(q, seed, s, c, "rust", &only);
            if (g != q) vf::violation("cpp-and-rust-differ", cat("count ", c));
            std::set<bytes> all(g.begin(), g.end());
            if (all.size() != g.size()) vf::violation("values-coincide", cat(g.size() - all.size(), " of ", g.size(), " values repeat"));
            vf::eval(cat("long", c, s));
            vf::count("long_chains");
        });
    if (vf::thorough())
        vf::run("very-long", [&](vf::Rng &r) {   // positions above 24 bits
            bytes seed = r.buf(32);
            uint32_t c = (1u << 24) + 300;
            std::vector<uint32_t> only = {0, 65536, (1u << 24) - 1, 1u << 24, (1u << 24) + 1, c - 1};
            auto g = cpp(seed, 7, c);
            judge(g, seed, 7, c, "cpp", &only);
            vf::count("long_chains");
        });
}
