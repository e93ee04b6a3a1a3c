// C17: getRandomSeed. The system generator is replaced by a scripted one: opening /dev/urandom (or
// /dev/random) gives a file holding known bytes, getrandom() delivers known bytes, and reads can be cut
// short, interrupted, fail or end early. The oracle: the result is SHAKE256 of exactly the first n bytes
// the generator delivered followed by the entropy, or an error; and no descriptor is left open.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
#include "qrl.h"
#include "rs.h"
using namespace vq;

namespace {
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
#ifdef __x86_64__
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
#else
    static auto f0 = (long (*)(long, ...)) dlsym(RTLD_NEXT, "syscall");
    return f0(n, a, b, c, d, e, f);
#endif
}
struct Script {
    bool on = false;
    bytes stream;          // what the generator would deliver
    size_t given = 0;      // bytes delivered so far (getrandom) or the furthest file offset read
    int open_errno = 0;    // opening fails
    long fail_after = -1;  // a read past this many bytes fails
    int fail_errno = EIO;
    long end_after = -1;   // the generator ends here
    size_t chunk = 0;      // at most this many bytes per read
    int eintr_every = 0;   // every n-th read is interrupted
    int reads = 0, opens = 0, interrupted = 0;
    ino_t ino = 0;
    int memfd = -1;
};
thread_local Script T;
thread_local long fail_alloc = -1;

bool device(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
template <class F> F real(const char *n) {
    return (F) dlsym(RTLD_NEXT, n);
}
bool scripted(int fd) {
    if (!T.on || T.memfd < 0) return false;
    struct stat st;
    return fstat(fd, &st) == 0 && st.st_ino == T.ino && S_ISREG(st.st_mode);
}
std::string scripted_path() { return cat("/proc/self/fd/", T.memfd); }
// how many bytes a read of n may deliver now: <0 means fail with errno
long allow(size_t n, size_t pos) {
    T.reads++;
    if (T.eintr_every && T.reads % T.eintr_every == 0) { T.interrupted++; errno = EINTR; return -1; }
    if (T.fail_after >= 0 && pos >= (size_t) T.fail_after) { errno = T.fail_errno; return -1; }
    if (T.fail_after >= 0) n = std::min(n, (size_t) T.fail_after - pos);
    if (T.chunk) n = std::min(n, T.chunk);
    return (long) n;
}
void prepare() {   // put the stream behind a descriptor of its own
    T.memfd = memfd_create("gen", MFD_CLOEXEC);
    size_t n = T.end_after >= 0 ? std::min<size_t>(T.end_after, T.stream.size()) : T.stream.size();
    size_t o = 0;
    while (o < n) { long k = raw(SYS_write, T.memfd, (long) (T.stream.data() + o), (long) (n - o)); if (k <= 0) _exit(3); o += k; }
    struct stat st;
    fstat(T.memfd, &st);
    T.ino = st.st_ino;
    T.on = true;
}
void finish() { T.on = false; if (T.memfd >= 0) raw(SYS_close, T.memfd); T.memfd = -1; }
int fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
}  // namespace

extern "C" {
FILE *fopen(const char *p, const char *m) {
    auto f = real<FILE *(*)(const char *, const char *)>("fopen");
    if (T.on && device(p)) { T.opens++; if (T.open_errno) { errno = T.open_errno; return nullptr; } return f(scripted_path().c_str(), m); }
    return f(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    auto f = real<FILE *(*)(const char *, const char *)>("fopen64");
    if (T.on && device(p)) { T.opens++; if (T.open_errno) { errno = T.open_errno; return nullptr; } return f(scripted_path().c_str(), m); }
    return f(p, m);
}
static int do_open(const char *p, int flags, int mode) {
    if (T.on && device(p)) {
        T.opens++;
        if (T.open_errno) { errno = T.open_errno; return -1; }
        return (int) raw(SYS_openat, AT_FDCWD, (long) scripted_path().c_str(), flags, mode);
    }
    return (int) raw(SYS_openat, AT_FDCWD, (long) p, flags, mode);
}
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags, m); }
int openat(int d, const char *p, int flags, ...) {
    va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
    return T.on && device(p) ? do_open(p, flags, m) : (int) raw(SYS_openat, d, (long) p, flags, m);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!scripted(fd)) return raw(SYS_read, fd, (long) b, (long) n);
    off_t pos = lseek(fd, 0, SEEK_CUR);
    long k = allow(n, (size_t) pos);
    if (k < 0) return -1;
    ssize_t r = raw(SYS_read, fd, (long) b, k);
    if (r > 0) T.given = std::max<size_t>(T.given, (size_t) pos + (size_t) r);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!scripted(fd)) return raw(SYS_readv, fd, (long) v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    auto r = real<size_t (*)(void *, size_t, size_t, FILE *)>("fread");
    if (!scripted(fileno(f))) return r(b, s, n, f);
    size_t got = 0;                               // unbuffered, through the same script
    while (got < s * n) {
        ssize_t k = read(fileno(f), (char *) b + got, s * n - got);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        got += (size_t) k;
    }
    return s ? got / s : 0;
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
    if (!T.on) return raw(SYS_getrandom, (long) b, (long) n, flags);
    T.opens++;
    if (T.open_errno) { errno = T.open_errno == ENOENT ? EIO : T.open_errno; return -1; }
    long k = allow(n, T.given);
    if (k < 0) return -1;
    size_t end = T.end_after >= 0 ? std::min<size_t>(T.end_after, T.stream.size()) : T.stream.size();
    if (T.given >= end) { errno = EIO; return -1; }
    k = (long) std::min<size_t>((size_t) k, end - T.given);
    memcpy(b, T.stream.data() + T.given, (size_t) k);
    T.given += (size_t) k;
    return k;
}
long syscall(long n, ...) {
    va_list v; va_start(v, n);
    long a[6];
    for (auto &x : a) x = va_arg(v, long);
    va_end(v);
    if (n == SYS_getrandom) return getrandom((void *) a[0], (size_t) a[1], (unsigned) a[2]);
    return raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int getentropy(void *b, size_t n) {
    if (!T.on) return raw(SYS_getrandom, (long) b, (long) n, 0) == (long) n ? 0 : -1;
    size_t o = 0;
    while (o < n) { ssize_t k = getrandom((char *) b + o, n - o, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) { errno = EIO; return -1; } o += (size_t) k; }
    return 0;
}
}

namespace {
struct Call { std::string error; bytes out; };
Call call(bool rust, uint32_t n, const std::string &ent) {
    Call c;
    if (!rust) { c.error = vf::outcome([&] { c.out = getRandomSeed(n, ent); }); return c; }
    RsOut o = rs_random(n, (const uint8_t *) ent.data(), ent.size());   // a failing generator may surface as a panic here
    if (o.rc) c.error = "error: " + std::string(o.p, o.p + std::min<size_t>(o.n, 80));
    else c.out.assign(o.p, o.p + o.n);
    rs_free(o);
    return c;
}
std::string entropy(vf::Rng &r, bool ascii) {
    std::string s;
    size_t n = r.chance(1, 5) ? 0 : r.chance(1, 6) ? r.range(1000, 9000) : r.below(300);
    for (size_t i = 0; i < n; i++) s += (char) (ascii ? r.below(128) : r.below(256));
    if (n && r.chance(1, 3)) s[r.below(n)] = 0;
    return s;
}
uint32_t size(vf::Rng &r) {
    static const std::vector<uint32_t> edge = {0, 1, 2, 15, 16, 31, 32, 47, 48, 49, 63, 64, 127, 128, 135, 136, 137, 255, 256, 257, 271, 272, 511, 512, 513, 1000, 1023, 1024,
                                               4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537};
    if (r.chance(1, 30)) return (uint32_t) r.range(70000, 400000);
    return r.chance(1, 2) ? r.pick(edge) : (uint32_t) r.below(3000);
}

// mode: 0 plain, 1 short reads, 2 interrupted, 3 open fails, 4 ends early, 5 read fails part way, 6 short and interrupted
void one(vf::Rng &r, bool rust, int mode, uint32_t n, const std::string &ent) {
    T = Script();
    T.stream = r.buf(n + 64 + 20000);            // more than any buffered reader asks for
    bool must_fail = false;
    if (mode == 1 || mode == 6) T.chunk = r.range(1, std::max<size_t>(1, n > 3000 ? n / 3 : n));
    if (mode == 2 || mode == 6) T.eintr_every = (int) r.range(2, 4);
    if (mode == 3) { static const std::vector<int> E = {ENOENT, EMFILE, ENFILE, EACCES, ENXIO}; T.open_errno = r.pick(E); must_fail = n > 0; }
    if (mode == 4) { T.end_after = n ? (long) (r.chance(1, 2) ? n - 1 - r.below(std::min<uint32_t>(n, 3)) : r.below(n)) : 0; must_fail = n > 0; }
    if (mode == 5) { T.fail_after = n ? (long) (r.chance(1, 2) ? n - 1 - r.below(std::min<uint32_t>(n, 3)) : r.below(n)) : 0; must_fail = n > 0; }
    int before = fds();
    prepare();
    Call c = call(rust, n, ent);
    T.on = false;
    int opens = T.opens, intr = T.interrupted;
    size_t given = T.given;
    finish();
    int after = fds();
    const std::string who = rust ? "rust" : "cpp";
    const std::string what = cat(who, " getRandomSeed(", n, ", ", ent.size(), " entropy bytes), generator mode ", mode, " chunk ", T.chunk, " end ", T.end_after, " fail ", T.fail_after, " errno ", T.open_errno);
    if (!opens && n) vf::violation("generator-not-consulted:" + who, what + ": returned " + hexs(c.out) + " without reading the system generator");
    if (before != after) vf::violation("descriptor-left-open:" + who, cat(what, ": ", before, " descriptors before, ", after, " after"));
    if (must_fail) {
        if (c.error.empty()) vf::violation("seed-without-entropy:" + who, cat(what, ": the generator delivered ", given, " bytes, yet a seed was returned: ", hexs(c.out)));
        else if (!rust && (c.error.find("unknown") == 0)) vf::violation("error-not-a-standard-exception", what + ": " + c.error);
        vf::count("refusals_" + who);
    } else if (mode == 3 && n == 0) {
        if (c.error.empty() && !c.out.empty()) vf::violation("wrong-seed:" + who, what);
    } else {
        bytes in(T.stream.begin(), T.stream.begin() + n);
        in.insert(in.end(), ent.begin(), ent.end());
        if (!c.error.empty()) vf::violation("refused-with-working-generator:" + who, what + ": " + c.error);
        else if (c.out != ref::shake256(in, n)) vf::violation("wrong-seed:" + who, what + ": got " + hexs(c.out) + " expected " + hexs(ref::shake256(in, n)));
        vf::count("seeds_" + who);
        if (intr) vf::count("interrupted");
        if (mode == 1) vf::count("short_reads");
    }
    vf::count("mode_" + std::to_string(mode));
    vf::eval(vf::fnv(what + ent));
    vf::sample(what);
}
}  // namespace

// allocation failures while the device is open
void *operator new(size_t n) {
    if (fail_alloc >= 0 && fail_alloc-- == 0) { fail_alloc = -1; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

void harness() {
    rs_init();
    for (int mode = 0; mode <= 6; mode++)
        for (int i = 0; i < vf::scale(60, 1200); i++)
            vf::run("seed", [&](vf::Rng &r) {
                vf::at(cat("mode ", mode));
                for (int k = 0; k < 6; k++) { bool rust = r.chance(1, 3); one(r, rust, mode, size(r), entropy(r, rust)); }
            });
    // every size
    vf::run("sizes", [&](vf::Rng &r) { for (uint32_t n = 0; n <= 700; n++) { one(r, false, 0, n, n % 3 ? entropy(r, false) : ""); one(r, true, 0, n, n % 3 ? entropy(r, true) : ""); vf::count("sizes_swept"); } });
    // every place to fail
    vf::run("places", [&](vf::Rng &r) {
        for (long k = 0; k < 48; k++) for (int mode : {4, 5}) for (int rust = 0; rust < 2; rust++) {
            T = Script();
            T.stream = r.buf(20000);
            (mode == 4 ? T.end_after : T.fail_after) = k;
            prepare();
            Call c = call(rust, 48, "");
            finish();
            if (c.error.empty()) vf::violation(std::string("seed-without-entropy:") + (rust ? "rust" : "cpp"), cat("48 bytes asked for, ", k, " delivered, yet a seed was returned: ", hexs(c.out)));
            vf::eval(cat("place", mode, k, rust));
            vf::count("failure_places");
        }
    });
    // many calls: fresh bytes every time, none reused
    for (int rust = 0; rust < 2; rust++)
        vf::run("fresh", [&](vf::Rng &r) {
            std::set<bytes> seen;
            std::string ent = entropy(r, true);
            int before = fds();
            for (int i = 0; i < vf::scale(1500, 20000); i++) {
                T = Script();                   // the real generator
                Call c = call(rust, 32, ent);
                if (!c.error.empty() || c.out.size() != 32) vf::violation("real-generator-refused", c.error);
                if (!seen.insert(c.out).second) vf::violation("repeated-seed", hexs(c.out));
                vf::count("real_generator_calls");
            }
            if (fds() != before) vf::violation("descriptor-left-open:real", cat(before, " before, ", fds(), " after"));
            vf::eval(cat("fresh", rust, hexs(*seen.begin())));
        });
    // no descriptors left for the device: the real refusal, not a scripted one
    vf::run("exhausted", [&](vf::Rng &r) {
        struct rlimit old, lim;
        getrlimit(RLIMIT_NOFILE, &old);
        lim = old;
        lim.rlim_cur = 0;                       // nothing more can be opened
        setrlimit(RLIMIT_NOFILE, &lim);
        T = Script();
        bytes out;
        std::string e = vf::outcome([&] { out = getRandomSeed(48, "x"); });
        setrlimit(RLIMIT_NOFILE, &old);
        if (e.empty() && out.size() != 48) vf::violation("wrong-size", hexs(out));
        // with a generator that needs no descriptor a seed is right; /dev/urandom cannot be opened here
        if (e.empty()) {
            bytes in(48, 0);
            in.push_back('x');
            if (out == ref::shake256(in, 48)) vf::violation("seed-without-entropy:cpp", "no descriptor could be opened, yet a seed of zeros was returned");
        }
        vf::eval("exhausted");
        vf::count("descriptor_limit");
    });
    // allocation failures
    for (int k = 0; k < 12; k++)
        vf::run("allocations", [&](vf::Rng &r) {
            int before = fds();
            bytes out;
            uint32_t n = (uint32_t) r.range(32, 5000);
            std::string ent(100, 'e');
            T = Script();
            T.stream = r.buf(n + 20000);
            prepare();
            fail_alloc = k;
            std::string e = vf::outcome([&] { out = getRandomSeed(n, ent); });
            bool fired = fail_alloc < 0;
            fail_alloc = -1;
            finish();
            if (fds() != before) vf::violation("descriptor-left-open:cpp", cat("allocation ", k, " failed (", e, "): ", before, " descriptors before, ", fds(), " after"));
            if (e.empty()) {
                bytes in(T.stream.begin(), T.stream.begin() + n);
                in.insert(in.end(), ent.begin(), ent.end());
                if (out != ref::shake256(in, n)) vf::violation("wrong-seed:cpp", cat("after allocation ", k, " failed: ", hexs(out)));
            }
            if (fired) vf::count("allocation_failures");
            vf::eval(cat("alloc", k, n));
        });
    // several threads at once: each gets its own bytes
    for (int i = 0; i < vf::scale(8, 80); i++)
        vf::run("threads", [&](vf::Rng &r) {
            std::vector<std::thread> ts;
            std::vector<std::string> bad(6);
            std::vector<uint64_t> seeds(6);
            for (auto &s : seeds) s = r.next();
            for (int t = 0; t < 6; t++)
                ts.emplace_back([&, t] {
                    vf::Rng q(seeds[t], (uint64_t) t);
                    for (int k = 0; k < 30; k++) {
                        uint32_t n = (uint32_t) q.below(500);
                        std::string ent = entropy(q, false);
                        T = Script();
                        T.stream = q.buf(n + 20000);
                        T.chunk = q.range(1, 400);
                        prepare();
                        Call c = call(false, n, ent);
                        finish();
                        bytes in(T.stream.begin(), T.stream.begin() + n);
                        in.insert(in.end(), ent.begin(), ent.end());
                        if (!c.error.empty() || c.out != ref::shake256(in, n)) bad[t] = cat("size ", n, ": ", c.error, " ", hexs(c.out));
                    }
                });
            for (auto &t : ts) t.join();
            for (auto &b : bad) if (!b.empty()) vf::violation("wrong-seed-when-concurrent", b);
            vf::eval(cat("threads", seeds[0]));
            vf::count("concurrent_seeds", 180);
        });
}
