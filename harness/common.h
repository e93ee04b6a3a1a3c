// Runtime shared by every harness: deterministic case scheduling over shards, the event and
// case counters that become evidence, and the violation channel read by vf.py.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include "ref.h"

namespace vf {
typedef std::vector<uint8_t> bytes;

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t a = 1, uint64_t b = 2) {
        s[0] = mix(a * 0x9E3779B97F4A7C15ull + 1);
        s[1] = mix(b * 0xD1B54A32D192ED03ull + s[0] + 2);
    }
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bytes buf(size_t n) {
        bytes r(n);
        for (size_t i = 0; i < n; i++) r[i] = (uint8_t) (next() >> 24);
        return r;
    }
    ref::n32 n32() {
        ref::n32 r;
        for (auto &x : r) x = (uint8_t) (next() >> 24);
        return r;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t available_memory() {
    FILE *f = fopen("/proc/meminfo", "r");
    char l[200];
    unsigned long long kb = 0;
    while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu kB", &kb) == 1) break;
    if (f) fclose(f);
    return kb << 10;
}
struct State {
    std::string property, tier = "quick", out, prog;
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    long only = -1;
    std::string part;          // harness specific sub-workload
    long next_case = 0, ran = 0;
    std::atomic<uint64_t> evals{0};
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::string current;       // the case being run
    std::set<std::string> reported;
    std::mutex mu;
    volatile uint64_t *beat = nullptr;
    char *note = nullptr;      // shared with the driver: what is running now
};
State &S();
inline bool thorough() { return S().tier == "thorough"; }
// scale: cases in the quick tier / in the thorough tier
inline long scale(long q, long t) { return thorough() ? t : q; }

std::string hexs(const uint8_t *p, size_t n, size_t max = 48);
inline std::string hexs(const bytes &b, size_t max = 48) { return hexs(b.data(), b.size(), max); }
std::string esc(const std::string &s);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const bytes &b, uint64_t h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

// One observation judged by the oracle. `key` identifies the distinct non-trivial situation.
void eval(uint64_t key);
inline void eval(const std::string &key) { eval(fnv(key)); }
void evals(uint64_t n);                       // judged, but not counted as distinct
void count(const std::string &name, uint64_t n = 1);
void sample(const std::string &s);
void at(const std::string &what);             // describes the current step (crash/hang reports)
// The oracle refuted the property. `cls` is the stable identity (used for known findings).
void violation(const std::string &cls, const std::string &detail);
inline void check(bool ok, const std::string &cls, const std::function<std::string()> &detail) {
    if (!ok) violation(cls, detail());
}
// Schedules one case; runs it in this process if the shard (or --only) selects it.
bool run(const std::string &name, const std::function<void(Rng &)> &body);
struct Skip {};

template <class F> std::string outcome(F f) {  // "" when it returns, else the exception class
    try { f(); return ""; }
    catch (const std::invalid_argument &) { return "invalid_argument"; }
    catch (const std::runtime_error &) { return "runtime_error"; }
    catch (const std::bad_alloc &) { return "bad_alloc"; }
    catch (const std::exception &e) { return std::string("exception:") + e.what(); }
    catch (...) { return "unknown exception"; }
}
template <class... A> std::string cat(const A &...a) {
    std::ostringstream o;
    (void) std::initializer_list<int>{((void) (o << a), 0)...};
    return o.str();
}
}  // namespace vf

void harness();  // each cXX.cpp
#endif
