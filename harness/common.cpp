#include <time.h>
#include "common.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>

namespace vf {
State &S() { static State *s = new State; return *s; }

std::string hexs(const uint8_t *p, size_t n, size_t max) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n && i < max; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > max) r += cat("..(", n, " bytes)");
    return r;
}
std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r;
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
    auto c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static void beat() { if (S().beat) __atomic_fetch_add(S().beat, 1, __ATOMIC_RELAXED); }
void eval(uint64_t key) {
    beat();
    S().evals++;
    std::lock_guard<std::mutex> l(S().mu);
    S().distinct.insert(key);
}
void evals(uint64_t n) { beat(); S().evals += n; }
void count(const std::string &name, uint64_t n) {
    beat();
    std::lock_guard<std::mutex> l(S().mu);
    S().counters[name] += n;
}
void sample(const std::string &s) {
    std::lock_guard<std::mutex> l(S().mu);
    if (S().samples.size() < 4) S().samples.push_back(s);
}
void at(const std::string &what) {
    beat();
    if (S().note) {
        std::string t = S().current + " :: " + what;
        size_t n = t.size() < 1500 ? t.size() : 1500;
        memcpy(S().note, t.data(), n);
        S().note[n] = 0;
    }
}
static void line(const std::string &l) {
    int fd = open(S().out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) return;
    std::string t = l + "\n";
    if (write(fd, t.data(), t.size()) < 0) {}
    close(fd);
}
void violation(const std::string &cls, const std::string &detail) {
    std::lock_guard<std::mutex> l(S().mu);
    std::string k = cls;
    S().counters["violating_observations"]++;
    if (!S().reported.insert(k).second || S().reported.size() > 40) return;
    line(cat("V {\"class\": \"", esc(cls), "\", \"case\": \"", esc(S().current), "\", \"n\": ", S().next_case - 1,
             ", \"detail\": \"", esc(detail.substr(0, 3000)), "\"}"));
    fprintf(stderr, "violating observation: %s: %s\n", cls.c_str(), detail.substr(0, 600).c_str());
}
bool run(const std::string &name, const std::function<void(Rng &)> &body) {
    long n = S().next_case++;
    if (S().only >= 0 ? n != S().only : (n % S().shards) != S().shard) return false;
    S().current = cat("case ", n, " ", name);
    at("start");
    Rng r(S().seed, (uint64_t) n + fnv(name));
    S().ran++;
    struct Took {   // where the time goes, when asked
        const std::string &name;
        timespec a{};
        explicit Took(const std::string &n) : name(n) { clock_gettime(CLOCK_MONOTONIC, &a); }
        ~Took() {
            if (!getenv("VERIF_TIMES")) return;
            timespec b;
            clock_gettime(CLOCK_MONOTONIC, &b);
            fprintf(stderr, "TOOK %s %.3f\n", name.c_str(), (double) (b.tv_sec - a.tv_sec) + 1e-9 * (double) (b.tv_nsec - a.tv_nsec));
        }
    } took(name);
    try {
        body(r);
    } catch (const Skip &) {
    } catch (const std::exception &e) {
        violation("unexpected-exception:" + name.substr(0, name.find(' ')), cat(name, " raised: ", e.what()));
    } catch (...) {
        violation("unexpected-exception:" + name.substr(0, name.find(' ')), name + " raised a non-standard exception");
    }
    return true;
}
}  // namespace vf

int main(int argc, char **argv) {
    using namespace vf;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    State &s = S();
    s.prog = argv[0];
    std::string beatfile;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--property") s.property = v;
        else if (a == "--tier") s.tier = v;
        else if (a == "--out") s.out = v;
        else if (a == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--shard") s.shard = atoi(v.c_str());
        else if (a == "--shards") s.shards = atoi(v.c_str());
        else if (a == "--only") s.only = atol(v.c_str());
        else if (a == "--part") s.part = v;
        else if (a == "--beat") beatfile = v;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    if (s.out.empty()) { fprintf(stderr, "need --out\n"); return 3; }
    if (!beatfile.empty()) {
        int fd = open(beatfile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 4096) != 0) return 3;
        void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (m == MAP_FAILED) return 3;
        s.beat = (volatile uint64_t *) m;
        s.note = (char *) m + 64;
    }
    harness();
    std::ostringstream o;
    o << "E {\"cases\": " << s.ran << ", \"scheduled\": " << s.next_case << ", \"evaluations\": " << s.evals.load() << ", \"counters\": {";
    bool first = true;
    for (auto &c : s.counters) { o << (first ? "" : ", ") << "\"" << esc(c.first) << "\": " << c.second; first = false; }
    o << "}, \"samples\": [";
    first = true;
    for (auto &c : s.samples) { o << (first ? "" : ", ") << "\"" << esc(c) << "\""; first = false; }
    o << "], \"distinct\": [";
    first = true;
    for (auto h : s.distinct) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    o << "]}";
    line(o.str());
    fflush(0);
    _exit(0);
}
