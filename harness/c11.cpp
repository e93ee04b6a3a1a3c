// C11: hex and mnemonic codecs against reference codecs, on generated and malformed text; C++ and Rust.
#include "qrl.h"
#include "rs.h"
#include "wordlist.h"
#include <map>
using namespace vq;

static bool is_hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool is_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static bool ref_unhex(const std::string &s, bytes &out) {
    if (s.size() % 2) return false;
    for (char c : s) if (!is_hex(c)) return false;
    out.clear();
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i < s.size(); i += 2) out.push_back((uint8_t) (v(s[i]) * 16 + v(s[i + 1])));
    return true;
}
static const std::map<std::string, int> &lookup() {
    static std::map<std::string, int> m;
    if (m.empty()) for (size_t i = 0; i < 4096; i++) m[words()[i]] = (int) i;
    return m;
}
static bool ref_unmnemonic(const std::string &s, bytes &out) {
    std::vector<std::string> w(1);
    for (char c : s) { if (is_ws(c)) { if (!w.back().empty()) w.emplace_back(); } else w.back() += c; }
    if (w.back().empty()) w.pop_back();
    if (w.size() % 2) return false;
    out.clear();
    for (size_t i = 0; i < w.size(); i += 2) {
        auto a = lookup().find(w[i]), b = lookup().find(w[i + 1]);
        if (a == lookup().end() || b == lookup().end()) return false;
        int v = a->second * 4096 + b->second;
        out.push_back((uint8_t) (v >> 16));
        out.push_back((uint8_t) (v >> 8));
        out.push_back((uint8_t) v);
    }
    return true;
}
static std::string show(const std::string &s) { return cat("\"", vf::esc(s.substr(0, 160)), "\" (", s.size(), " chars)"); }

static void unhex(const std::string &s) {
    vf::at("hstr2bin " + show(s));
    bytes want, got;
    bool ok = ref_unhex(s, want);
    std::string o = vf::outcome([&] { got = hstr2bin(s); });
    auto where = [&] { return show(s) + " -> " + o + " " + hexs(got); };
    if (ok != o.empty()) vf::violation(ok ? "hex-refused" : "malformed-hex-accepted", where());
    else if (!ok && o != "invalid_argument") vf::violation("undocumented-exception", where());
    else if (ok && got != want) vf::violation("hex-decoded-wrong", where());
    rs::R q = rs::text(1, s);
    if (q.ok != ok || (ok && q.v != want)) vf::violation("rust-hex", where() + cat(" rust ok=", q.ok));
    vf::eval(vf::fnv(s));
    vf::count(ok ? "hex_decoded" : "hex_refused");
}
static void unmn(const std::string &s) {
    vf::at("mnemonic2bin " + show(s));
    bytes want, got;
    bool ok = ref_unmnemonic(s, want);
    std::string o = vf::outcome([&] { got = mnemonic2bin(s); });
    auto where = [&] { return show(s) + " -> " + o + " " + hexs(got); };
    if (ok != o.empty()) vf::violation(ok ? "mnemonic-refused" : "malformed-mnemonic-accepted", where());
    else if (!ok && o != "invalid_argument") vf::violation("undocumented-exception", where());
    else if (ok && got != want) vf::violation("mnemonic-decoded-wrong", where());
    rs::R q = rs::text(3, s);
    if (q.ok != ok || (ok && q.v != want)) vf::violation("rust-mnemonic", where() + cat(" rust ok=", q.ok) + q.s());
    vf::eval(vf::fnv(s) + 1);
    vf::count(ok ? "mnemonics_decoded" : "mnemonics_refused");
}
static void hex_round(const bytes &b, vf::Rng &r) {
    std::string want = ref::hex(b), got = bin2hstr(b);
    if (got != want) vf::violation("hex-encoded-wrong", hexs(b) + " -> " + show(got));
    if (bin2hstr(std::string(b.begin(), b.end())) != want) vf::violation("hex-encoded-wrong-string", hexs(b));
    if (str2bin(std::string(b.begin(), b.end())) != b) vf::violation("str2bin", hexs(b));
    if (hstr2bin(got) != b) vf::violation("hex-round-trip", hexs(b));
    rs::R q = rs::text(0, b);
    if (!q.ok || q.s() != want) vf::violation("rust-hex-encode", hexs(b) + " " + show(q.s()));
    std::string mixed = want;
    for (auto &c : mixed) if (r.chance(1, 2)) c = (char) toupper(c);
    unhex(mixed);
    std::string up = want;
    for (auto &c : up) c = (char) toupper(c);
    unhex(up);
    static const uint32_t WR[] = {1, 2, 3, 7, 16, 31, 32, 64, 1000, 0x7fffffff, 0x80000000u, 0xffffffffu};
    for (uint32_t wrap : {WR[r.below(12)], (uint32_t) r.range(1, 80)}) {
        std::string exp;
        for (size_t i = 0; i < b.size(); i++) {
            if (i && i % wrap == 0) exp += '\n';
            exp += want.substr(2 * i, 2);
        }
        std::string g1 = bin2hstr(b, wrap), g2 = bin2hstr(std::string(b.begin(), b.end()), wrap);
        if (g1 != exp || g2 != exp) vf::violation("wrapping", cat("wrap ", wrap, " of ", b.size(), " bytes: ", show(g1)));
        rs::R w = rs::text(0, b, wrap);
        if (!w.ok || w.s() != exp) vf::violation("rust-wrapping", cat("wrap ", wrap, " of ", b.size(), " bytes: ", show(w.s())));
        vf::evals(3);
        vf::count("wrapped");
    }
    vf::eval(vf::fnv(b, 3));
    vf::count("hex_round_trips");
}
static void mn_round(const bytes &b) {
    std::string got;
    std::string o = vf::outcome([&] { got = bin2mnemonic(b); });
    rs::R q = rs::text(2, b);
    if (b.size() % 3) {
        if (o != "invalid_argument") vf::violation("odd-byte-count-accepted", cat(b.size(), " bytes: ", o));
        if (q.ok) vf::violation("rust-odd-byte-count-accepted", cat(b.size(), " bytes"));
        vf::count("byte_counts_refused");
        vf::eval(vf::fnv(b, 5));
        return;
    }
    std::string want = ref::mnemonic(b);
    if (!o.empty() || got != want) vf::violation("mnemonic-encoded-wrong", hexs(b) + " -> " + o + show(got) + " want " + show(want));
    if (!q.ok || q.s() != want) vf::violation("rust-mnemonic-encode", hexs(b) + " -> " + show(q.s()));
    unmn(want);
    vf::eval(vf::fnv(b, 5));
    vf::count("mnemonic_round_trips");
}
// words that look like listed ones
static const int MANGLES = 26;
static std::string mangle(std::string x, int how, vf::Rng &r) {
    switch (how) {
        case 0: x[0] = (char) toupper(x[0]); break;
        case 1: x.back() = (char) toupper(x.back()); break;
        case 2: for (auto &c : x) c = (char) toupper(c); break;
        case 3: { auto &c = x[r.below(x.size())]; c = (char) toupper(c); break; }
        case 4: case 5: case 6: case 7: case 8: case 9: case 10: x += ".,;:'\"-"[how - 4]; break;
        case 11: x = "\"" + x + "\""; break;
        case 12: x = "'" + x; break;
        case 13: x += std::string(1, '\0'); break;
        case 14: x.insert(0, 1, '\0'); break;
        case 15: x = x.substr(0, 4); break;
        case 16: x = x.substr(0, 3); break;
        case 17: x.pop_back(); break;
        case 18: x.erase(0, 1); break;
        case 19: x += x.back(); break;
        case 20: x += "s"; break;
        case 21: if (x.size() > 1) std::swap(x[0], x[1]); break;
        case 22: x += "\xc2\xa0"; break;
        case 23: x.back() = (char) (x.back() | 0x80); break;
        case 24: x[r.below(x.size())] ^= (char) (1 << r.below(8)); break;
        default: x = "\xef\xbb\xbf" + x;
    }
    return x;
}
static std::string some_ws(vf::Rng &r) {
    static const std::vector<std::string> W = {" ", "  ", "\t", "\n", "\r\n", "\v", "\f", " \t \n", "\r", "   "};
    return r.pick(W);
}

void harness() {
    rs_init();
    words();
    if (vf::S().part == "huge") {   // more than 2^31 characters of hex, more than 2^31 nibbles of mnemonic
        vf::run("huge-hex", [&](vf::Rng &r) {
            if (vf::available_memory() < (7ull << 30)) { vf::count("huge_skipped"); return; }
            vf::at("hex of 2^31+ characters");
            const size_t n = (1ull << 30) + 1 + r.below(9);
            std::string s(2 * n, '0');
            for (int i = 0; i < 2000; i++) s[i < 40 ? 2 * n - 1 - (size_t) i : r.below(2 * n)] = "0123456789abcdefABCDEF"[r.below(22)];
            bytes b = hstr2bin(s);
            vf::evals(0);
            vf::check(b.size() == n, "hex-decodes-wrong", [&] { return cat("2^31+ characters give ", b.size(), " bytes"); });
            auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
            for (size_t i = 0; i < n && b.size() == n; i++)
                if (b[i] != (v(s[2 * i]) << 4 | v(s[2 * i + 1]))) { vf::violation("hex-decodes-wrong", cat("byte ", i, " of ", n)); break; }
            vf::eval("huge hex");
            vf::count("huge_texts");
            s[2 * n - 1] = 'g';
            vf::check(vf::outcome([&] { hstr2bin(s); }) == "invalid_argument", "malformed-accepted", [&] { return "last of 2^31+ hex characters is no digit"; });
        });
        vf::run("huge-mnemonic", [&](vf::Rng &r) {
            if (vf::available_memory() < (20ull << 30)) { vf::count("huge_skipped"); return; }
            vf::at("mnemonic of 2^31+ nibbles");
            const size_t n = ((1ull << 30) / 3 + 1 + r.below(9)) * 3;
            bytes b(n, 0);
            for (int i = 0; i < 2000; i++) b[i < 40 ? n - 1 - (size_t) i : r.below(n)] = (uint8_t) r.next();
            std::string s = bin2mnemonic(b);
            size_t at = 0;
            bool ok = true;
            for (size_t i = 0; ok && i < n; i += 3)
                for (int k = 0; k < 2; k++) {
                    const std::string &w = words()[k ? (b[i + 1] & 15) << 8 | b[i + 2] : b[i] << 4 | b[i + 1] >> 4];
                    if (at) { ok = ok && s.compare(at, 1, " ") == 0; at++; }
                    ok = ok && s.compare(at, w.size(), w) == 0;
                    at += w.size();
                }
            vf::check(ok && at == s.size(), "mnemonic-encodes-wrong", [&] { return cat(n, " bytes, character ", at, " of ", s.size()); });
            vf::eval("huge mnemonic");
            vf::count("huge_texts");
        });
        return;
    }
    const bool san = vf::S().part == "san";
    // texts and byte strings that differ little from the one before, with returns to earlier ones
    for (int n = 0; n < vf::scale(san ? 3 : 12, 100); n++)
        vf::run("neighbours", [&](vf::Rng &r) {
            bytes b = r.buf(3 * r.range(1, 20)), was = b;
            for (int q = 0; q < 40; q++) {
                hex_round(b, r);
                mn_round(b);
                std::string h = ref::hex(b), m = ref::mnemonic(b);
                h[r.below(h.size())] = r.chance(1, 4) ? 'g' : "0123456789abcdefABCDEF"[r.below(22)];
                unhex(h);
                unhex(ref::hex(b));
                // one word exchanged for its neighbour in the list, for another of the text, or for a near miss
                std::vector<std::string> w;
                std::istringstream in(m);
                for (std::string x; in >> x;) w.push_back(x);
                size_t p = r.below(w.size());
                int at = lookup().at(w[p]);
                switch (r.below(5)) {
                    case 0: w[p] = words()[(size_t) (at + 1) % 4096]; break;
                    case 1: w[p] = words()[(size_t) (at + 4095) % 4096]; break;
                    case 2: w[p] = w[r.below(w.size())]; break;
                    case 3: std::swap(w[p], w[r.below(w.size())]); break;
                    default: w[p] += (char) ('a' + r.below(26)); break;
                }
                std::string t;
                for (auto &x : w) t += (t.empty() ? "" : " ") + x;
                unmn(t);
                unmn(m);
                bytes keep = b;
                if (r.chance(1, 4)) b = was; else b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8));
                was = keep;
                vf::count("neighbours");
            }
        });
    words();
    vf::run("word-list", [&](vf::Rng &) {
        std::set<std::string> seen;
        for (int i = 0; i < 4096; i++) {
            std::string rw = rs::take(rs_word(i), "Rust word").s();
            if (wordlist[i] != words()[i]) vf::violation("word-list", cat(i, ": ", wordlist[i], " instead of ", words()[i]));
            if (rw != words()[i]) vf::violation("rust-word-list", cat(i, ": ", rw, " instead of ", words()[i]));
            if (!seen.insert(wordlist[i]).second) vf::violation("duplicate-word", wordlist[i]);
            vf::eval(vf::fnv(words()[i]));
            vf::count("words");
        }
        if (rs_words() != 4096) vf::violation("rust-word-count", cat(rs_words()));
    });
    // each word in each of the two positions
    for (int part = 0; part < 8; part++)
        vf::run("every-word", [&](vf::Rng &r) {
            for (int i = part; i < 4096; i += san ? 64 : 8) {
                int j = (int) r.below(4096), v = i * 4096 + j, u = j * 4096 + i;
                mn_round({(uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v});
                mn_round({(uint8_t) (u >> 16), (uint8_t) (u >> 8), (uint8_t) u});
                vf::count("words_in_position", 2);
            }
        });
    for (int part = 0; part < 8; part++)
        vf::run("every-length", [&](vf::Rng &r) {
            for (size_t n = part; n < (size_t) vf::scale(san ? 130 : 360, 800); n += 8)
                for (int q = 0; q < 3; q++) {
                    bytes b = q == 0 ? bytes(n, 0) : q == 1 ? bytes(n, 0xff) : r.buf(n);
                    hex_round(b, r);
                    if (n % 3 == 0 && n > 240 && q < 2) continue;
                    mn_round(b);
                }
        });
    // all byte values and all pairs of characters
    vf::run("hex-pairs", [&](vf::Rng &r) {
        for (int a = 0; a < 256; a++) {
            hex_round(bytes(1, (uint8_t) a), r);
            for (int b = 0; b < 256; b++) {
                if (!is_hex((char) a) && !is_hex((char) b) && r.chance(7, 8)) continue;
                unhex(std::string() + (char) a + (char) b);
                vf::count("hex_pairs");
            }
        }
    });
    for (int n = 0; n < vf::scale(san ? 6 : 30, 300); n++)
        vf::run("malformed-hex", [&](vf::Rng &r) {
            for (int q = 0; q < 120; q++) {
                std::string s = ref::hex(r.buf(r.below(60)));
                for (auto &c : s) if (r.chance(1, 3)) c = (char) toupper(c);
                switch (r.below(8)) {
                    case 0: if (!s.empty()) s.pop_back(); break;
                    case 1: s += "0123456789abcdefABCDEF"[r.below(22)]; break;
                    case 2: if (!s.empty()) s[r.below(s.size())] = (char) r.next(); break;
                    case 3: if (!s.empty()) s[r.below(s.size())] = "gG/:@`xX \n\t-+\0zZ{^"[r.below(18)]; break;
                    case 4: s.insert(r.below(s.size() + 1), "0x"); break;
                    case 5: s.insert(r.below(s.size() + 1), " "); break;
                    case 6: s.insert(r.below(s.size() + 1), "\xc3\xa9"); break;
                    default: if (!s.empty()) { s[r.below(s.size())] = '\0'; }
                }
                unhex(s);
            }
        });
    for (int n = 0; n < vf::scale(san ? 12 : 60, 600); n++)
        vf::run("mnemonics", [&](vf::Rng &r) {
            for (int q = 0; q < (san ? 8 : 16); q++) {
                int k = (int) r.below(40);
                std::vector<std::string> w;
                for (int i = 0; i < k; i++) w.push_back(words()[r.chance(1, 8) ? (r.chance(1, 2) ? 4095 : 0) : r.below(4096)]);
                switch (r.below(9)) {
                    case 0: if (!w.empty()) w[r.below(w.size())] = ""; break;           // a word lost
                    case 1: if (!w.empty()) { auto &x = w[r.below(w.size())]; x[r.below(x.size())] = (char) ('a' + r.below(26)); } break;
                    case 2: if (!w.empty()) { auto &x = w[r.below(w.size())]; for (auto &c : x) c = (char) toupper(c); } break;
                    case 3: if (!w.empty()) w[r.below(w.size())] += "s"; break;
                    case 4: if (!w.empty()) w[r.below(w.size())].pop_back(); break;
                    case 5: if (!w.empty()) w[r.below(w.size())] = r.chance(1, 2) ? "," : "zzzz"; break;
                    default: if (w.size() % 2) w.pop_back();
                }
                bool odd_ws = r.chance(1, 2);
                std::string s = odd_ws && r.chance(1, 2) ? some_ws(r) : "";
                for (size_t i = 0; i < w.size(); i++) s += (i ? (odd_ws ? some_ws(r) : " ") : "") + w[i];
                if (odd_ws && r.chance(1, 2)) s += some_ws(r);
                unmn(s);
                if (odd_ws) vf::count("unusual_white_space");
                vf::sample(show(s));
            }
        });
    for (int n = 0; n < vf::scale(san ? 4 : 13, 104); n++)
        vf::run("look-alikes", [&](vf::Rng &r) {
            for (int q = 0; q < 52; q++) {
                std::vector<std::string> w;
                for (int k = 2 * (int) r.range(1, 4); k > 0; k--) w.push_back(words()[r.below(4096)]);
                int at = (int) r.below(w.size());
                w[at] = mangle(w[at], q % MANGLES, r);
                std::string s;
                for (auto &x : w) s += (s.empty() ? "" : " ") + x;
                unmn(s);
                vf::count("look_alike_words");
            }
        });
    vf::run("mnemonic-edges", [&](vf::Rng &r) {
        std::string a = words()[0], z = words()[4095], m = words()[2048];
        for (std::string s : {std::string(), std::string(" "), std::string("\n"), a, " " + a, a + " ", " " + a + " ", a + "  " + z, a + " " + z + " ", " " + a + " " + z, a + " " + z + " " + m, a + "  " + z + " " + m,
                              a + z, a + " " + z + "\n", a + "\t" + z, a + "\n" + z + "\r\n", a + std::string(1, '\0') + " " + z, a + " " + z + std::string(1, '\0'), std::string(" \t\n "), a + "," + z, a + " " + z + " x y",
                              std::string(1, '\0'), std::string(" ") + std::string(1, '\0'), a + "-" + z, a + "    " + z, a + " " + z + "  " + m + " " + a, std::string(10000, ' ') + a + std::string(10000, '\n') + z})
            unmn(s);
        for (size_t n : {51u, 48u, 4092u, 4095u}) mn_round(r.buf(n));
        // white space and look-alikes beyond ASCII separate nothing
        for (std::string u : {"\xc2\xa0", "\xc2\x85", "\xe1\x9a\x80", "\xe2\x80\x82", "\xe2\x80\x8b", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xe2\x80\xaf", "\xe2\x81\x9f", "\xe3\x80\x80", "\xef\xbb\xbf", "\x1c", "\x1f", "\x08", "\x0e"}) {
            for (std::string t : {a + u + z, a + " " + z + u, u + a + " " + z, a + " " + u + " " + z, a + u + " " + z, a + " " + u, u, u + u, a + " " + z + " " + u + " " + m}) unmn(t);
            for (std::string t : {u, "ab" + u, u + "ab", "a" + u + "b", "abc" + u}) unhex(t);
            vf::count("beyond_ascii");
        }
        vf::count("edges");
    });
    vf::run("large", [&](vf::Rng &r) {
        hex_round(r.buf((1 << 20) + 1), r);
        bytes b = r.buf(3 * 70000);
        mn_round(b);
        unmn(std::string(1 << 20, 'a'));
        unmn(std::string(3 << 20, ' '));
        unhex(std::string((2 << 20) + 1, 'f'));
        unhex(std::string((2 << 20), 'f') + "g0");
        vf::count("large");
    });
}
