// C24: what leaves the library in public (keys, addresses, descriptors, signatures, error texts, standard output and
// error) is searched for every secret the reference derives from the seed; and key creation, signing and verification
// open nothing. A secret counts as leaked when any aligned 8-byte piece of it appears, raw or in hex.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <iostream>
#include <stdarg.h>
#include <sys/mman.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unordered_map>
#include "tall.h"
#include "rs.h"
#include "qrl/xmssPool.h"
using namespace vq;

namespace {
#define EXPECT(ok, cls, what) vf::check((ok), cls, [&] { return std::string(what); })
thread_local bool watching = false;
thread_local std::string opened;
void note(const char *fn, const char *p) { if (watching) opened += cat(fn, "(", p ? p : "", ") "); }
template <class F> F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
}  // namespace
extern "C" {
FILE *fopen(const char *p, const char *m) { note("fopen", p); return real<FILE *(*)(const char *, const char *)>("fopen")(p, m); }
FILE *fopen64(const char *p, const char *m) { note("fopen", p); return real<FILE *(*)(const char *, const char *)>("fopen64")(p, m); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); note("open", p); return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); note("open", p); return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); note("openat", p); return (int) syscall(SYS_openat, d, p, fl, m); }
ssize_t getrandom(void *b, size_t n, unsigned f) { note("getrandom", ""); return syscall(SYS_getrandom, b, n, f); }
unsigned _ZNSt13random_device9_M_getvalEv(void *self) { note("std::random_device", ""); return real<unsigned (*)(void *)>("_ZNSt13random_device9_M_getvalEv")(self); }
int getentropy(void *b, size_t n) { note("getentropy", ""); return syscall(SYS_getrandom, b, n, 0) == (long) n ? 0 : -1; }
}

namespace {
// The same question put to the kernel: a child's system calls that open something or fetch entropy are trapped, whatever
// library or instruction made them. What the C library itself looks up about the machine is not counted.
int trap_pipe = -1;
void on_trap(int, siginfo_t *si, void *u) {
    auto &g = ((ucontext_t *) u)->uc_mcontext.gregs;
    const char *path = si->si_syscall == SYS_open ? (const char *) g[REG_RDI] : si->si_syscall == SYS_openat ? (const char *) g[REG_RSI] : "";
    if (strncmp(path, "/proc/", 6) && strncmp(path, "/sys/", 5)) {
        char b[200];
        int n = snprintf(b, sizeof b, "system call %d %.150s\n", si->si_syscall, path);
        if (write(trap_pipe, b, (size_t) n) < 0) _exit(4);
    }
    g[REG_RAX] = -EACCES;
}
bool trap_calls() {
    static const unsigned calls[] = {SYS_open, SYS_openat, SYS_openat2, SYS_creat, SYS_getrandom, SYS_socket, SYS_connect, SYS_execve, SYS_memfd_create, SYS_mknod, SYS_mkdir, SYS_unlink, SYS_unlinkat, SYS_rename};
    const size_t n = sizeof calls / sizeof *calls;
    std::vector<sock_filter> p;
    p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
    for (size_t i = 0; i < n; i++) p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i], (unsigned char) (n - i), 0));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    sock_fprog prog{(unsigned short) p.size(), p.data()};
    struct sigaction sa {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &sa, nullptr);
    return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) == 0;
}
template <class F> void trapped(const std::string &what, F f) {
    int fd[2];
    if (pipe(fd)) return;
    vf::at(what);
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        trap_pipe = fd[1];
        signal(SIGALRM, SIG_DFL);
        alarm(60);
        if (!trap_calls()) _exit(77);
        try { f(); } catch (const std::exception &) { _exit(1); }
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    char b[4096];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) if (got.size() < 4000) got.append(b, (size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { vf::count("no_seccomp"); return; }
    EXPECT(got.empty(), "opens-or-fetches-entropy", what + ": " + got.substr(0, 200));
    EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "trapped-run-failed", cat(what, " ended with status ", st));
    vf::eval(what);
    vf::count("trapped_runs");
}
// what the library prints while f runs
struct Capture {
    int fd, o1, o2;
    Capture() : fd(memfd_create("cap", MFD_CLOEXEC)) {
        fflush(0);
        std::cout.flush(), std::cerr.flush();
        o1 = dup(1), o2 = dup(2);
        if (fd < 0 || o1 < 0 || o2 < 0) { fprintf(stderr, "cannot capture output\n"); _exit(3); }
        dup2(fd, 1), dup2(fd, 2);
    }
    std::string take() {
        if (fd < 0) return "";
        fflush(0);
        std::cout.flush(), std::cerr.flush(), std::clog.flush();
        dup2(o1, 1), dup2(o2, 2);
        close(o1), close(o2);
        std::string s(65536, 0);
        ssize_t n = pread(fd, &s[0], s.size(), 0);
        s.resize(n > 0 ? (size_t) n : 0);
        close(fd);
        fd = -1;
        return s;
    }
    ~Capture() { take(); }
};
struct Secrets {
    struct What { std::string name; int idx = -1, chain = 0, pos = 0; };
    std::unordered_map<uint64_t, What> win;
    static uint64_t load(const uint8_t *p) { uint64_t x; memcpy(&x, p, 8); return x; }
    void add(const uint8_t *p, size_t n, const What &w) {
        for (size_t i = 0; i + 8 <= n; i += 8) {
            std::set<uint8_t> kinds(p + i, p + i + 8);
            if (kinds.size() >= 5) win.emplace(load(p + i), w);
        }
    }
    template <class A> void add(const A &a, const What &w) { add(a.data(), a.size(), w); }
    const What *in(const bytes &b, size_t *where, const std::function<bool(const What &)> &allowed = nullptr) const {
        for (size_t i = 0; i + 8 <= b.size(); i++) {
            auto it = win.find(load(&b[i]));
            if (it != win.end() && !(allowed && allowed(it->second))) { *where = i; return &it->second; }
        }
        return nullptr;
    }
};
struct Watched {
    ref::Key k;
    bytes seed, ext;
    uint32_t w;
    Secrets s;
    std::vector<std::string> seed_words;
    std::string what;
};
void judge(const Watched &x, const std::string &kind, const bytes &b, const std::function<bool(const Secrets::What &)> &allowed = nullptr) {
    size_t where = 0;
    const Secrets::What *hit = x.s.in(b, &where, allowed);
    EXPECT(!hit, cat("leak:", kind), cat(x.what, ": ", kind, " holds ", hit->name, hit->idx >= 0 ? cat(" of index ", hit->idx, " chain ", hit->chain, " position ", hit->pos).c_str() : "", " at byte ", where));
    vf::count("outputs_searched");
    vf::count("bytes_searched", b.size());
}
void judge_text(const Watched &x, const std::string &kind, const std::string &t) {
    judge(x, kind, bytes(t.begin(), t.end()));
    auto nib = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    bytes run;
    std::string digits;
    for (char c : t) if (nib(c) >= 0) digits += c;    // hex, however it is separated
    for (int a = 0; a < 2; a++) {
        run.clear();
        for (size_t i = (size_t) a; i + 1 < digits.size(); i += 2) run.push_back((uint8_t) (nib(digits[i]) * 16 + nib(digits[i + 1])));
        judge(x, kind, run);
    }
    int seq = 0;
    std::istringstream in(t);
    for (std::string w; in >> w;) {
        seq = std::find(x.seed_words.begin(), x.seed_words.end(), w) != x.seed_words.end() ? seq + 1 : 0;
        EXPECT(seq < 4, cat("leak:", kind), cat(x.what, ": ", kind, " holds words of the seed: ", t));
    }
}
Watched watch(vf::Rng &r, uint32_t w, int h, const std::vector<uint32_t> *some = nullptr) {
    Watched x;
    x.w = w;
    int hf = (int) r.below(3);
    x.seed = r.buf(48);
    x.k = ref::make_key(x.seed, hf, h, w, !some);
    x.ext = ref::descriptor(hf, 0, h, 0);
    x.ext.insert(x.ext.end(), x.seed.begin(), x.seed.end());
    x.what = cat(HFN[hf], " h", h, " w", w, " seed ", hexs(x.seed));
    x.s.add(x.seed, {"the seed"});
    x.s.add(x.ext, {"the extended seed"});
    x.s.add(x.k.sk_seed, {"the secret seed"});
    x.s.add(x.k.sk_prf, {"the PRF key"});
    words();
    std::istringstream in(ref::mnemonic(x.ext));
    for (std::string q; in >> q;) x.seed_words.push_back(q);
    std::vector<uint32_t> all;
    if (!some) { for (uint32_t i = 0; i < 1u << h; i++) all.push_back(i); some = &all; }
    for (uint32_t i : *some) {
        ref::n32 ots = ref::ots_seed(x.k, i);
        x.s.add(ots, {"the one-time key seed", (int) i, -1, -1});
        for (int j = 0; j < x.k.w.len; j++) {
            ref::n32 v = ref::chain_start(x.k, i, j);
            for (int p = 0; p < x.k.w.w - 1; p++) {
                x.s.add(v, {p ? "an unrevealed chain value" : "an unrevealed chain start", (int) i, j, p});
                if (w == 256 && p >= 3) break;       // the first values of the long chains
                if (p + 1 < x.k.w.w - 1) v = ref::chain(hf, v, p, p + 1, x.k.pub_seed, i, j);
            }
        }
    }
    vf::count("secrets", x.s.win.size());
    return x;
}
std::function<bool(const Secrets::What &)> reveal(const Watched &x, uint32_t idx, const bytes &sig, const bytes &m) {
    ref::n32 R;
    std::copy(sig.begin() + 4, sig.begin() + 36, R.begin());
    std::vector<int> d = ref::wots_digits(x.k.w, ref::digest(x.k.hf, R.data(), x.k.root, idx, m).data());
    return [idx, d](const Secrets::What &s) { return s.idx == (int) idx && s.chain >= 0 && s.pos >= d[(size_t) s.chain]; };
}
void judge_signature(vf::Rng &, const Watched &x, const std::string &who, uint32_t idx, const bytes &m, const bytes &s) {
    if (s.size() < 36) { vf::violation("signature-size", cat(x.what, " ", s.size())); return; }
    judge(x, "signature", s, reveal(x, idx, s, m));
    ref::n32 R = ref::sig_random(x.k, idx);
    EXPECT(std::equal(R.begin(), R.end(), s.begin() + 4), "signature-randomness", cat(x.what, " ", who, " index ", idx, ": ", hexs(&s[4], 32), " is not the PRF of the index"));
    vf::eval(cat(x.what, who, idx, hexs(m)));
    vf::count(cat("signatures_", who));
}
// f's output and opened files are judged; the error text is returned
template <class F> std::string quiet(const Watched &x, const std::string &what, F f, bool sink = true) {
    vf::at(what);
    std::string why, printed, files;
    {
        Capture c;
        opened.clear();
        watching = true;
        try { f(); }
        catch (const std::exception &e) { why = e.what(); if (why.empty()) why = "?"; }
        catch (...) { why = "unknown"; }
        watching = false;
        files = opened;
        printed = c.take();
    }
    EXPECT(printed.empty(), "prints", cat(what, " printed: ", printed.substr(0, 300)));
    judge_text(x, "printed output", printed);
    judge_text(x, "error text", why);
    if (sink) EXPECT(files.empty(), "opens-something", cat(what, ": ", files));
    vf::count("calls_watched");
    if (!why.empty()) vf::count("error_texts");
    return why;
}

void cpp(vf::Rng &r, uint32_t w, int h, bool fast) {
    Watched x = watch(r, w, h);
    Cfg c{x.k.hf, h, w};
    const std::string who = fast ? "fast" : "basic";
    std::unique_ptr<XmssBase> k;
    std::string e = quiet(x, x.what + " construction", [&] { k = make(fast, x.seed, c); });
    EXPECT(e.empty(), "construction-refused", x.what + e);
    if (!k) return;
    bytes pk;
    quiet(x, x.what + " accessors", [&] { pk = k->getPK(); k->getExtendedSeed(); k->getHeight(); });
    judge(x, "public key", pk);
    quiet(x, x.what + " address", [&] { judge(x, "address", k->getAddress()); judge(x, "descriptor", k->getDescriptorBytes()); judge(x, "root", k->getRoot()); judge(x, "public seed", k->getPKSeed()); });
    std::set<bytes> Rs;
    for (uint32_t i = 0; i < 1u << h;) {
        bytes m = r.chance(1, 6) ? x.seed : r.chance(1, 6) ? x.ext : r.buf(msglen(r, false)), s, s2;
        if (fast && i % 5 == 2) {      // the same index from a copy, for another message
            XmssFast copy(*static_cast<XmssFast *>(k.get()));
            bytes m2 = r.buf(40);
            quiet(x, x.what + " signing from a copy", [&] { s2 = copy.sign(m2); });
            judge_signature(r, x, who, i, m2, s2);
            vf::count("same_index_other_message");
        }
        quiet(x, cat(x.what, " signing at ", i), [&] { s = k->sign(m); });
        judge_signature(r, x, who, i, m, s);
        if (s.size() >= 36) EXPECT(Rs.insert(bytes(s.begin() + 4, s.begin() + 36)).second, "randomness-repeats", cat(x.what, " index ", i));
        quiet(x, x.what + " verification", [&] {
            XmssBase::verify(m, s, pk, w);
            bytes bad = s;
            bad[r.below(bad.size())] ^= 1;
            XmssBase::verify(m, bad, pk, w);
            bad.resize(r.below(bad.size()));
            XmssBase::verify(m, bad, pk, w);
        });
        i++;
        if (r.chance(1, 10) && i + 3 < 1u << h) { uint32_t to = i + 1 + (uint32_t) r.below(2); quiet(x, x.what + " moving", [&] { k->setIndex(to); }); i = to; }
        if (r.chance(1, 8)) EXPECT(!quiet(x, x.what + " moving back", [&] { k->setIndex(i - 1); }).empty(), "rewind-allowed", x.what);
    }
    EXPECT(!quiet(x, x.what + " signing beyond the end", [&] { k->sign({1, 2}); }).empty(), "exhausted-key-signs", x.what);
    quiet(x, x.what + " moving past the end", [&] { k->setIndex(1u << h); });
    quiet(x, x.what + " signature size", [&] { k->getSignatureSize(w); XmssBase::getHeightFromSigSize(7, w); });
    quiet(x, x.what + " destruction", [&] { k.reset(); });
    vf::sample(x.what);
}
// Indices of trees too tall to generate (tall.h): the secrets of the indices used, of their neighbours and of index 0.
void tall_key(vf::Rng &r, uint32_t w, int h, int turn) {
    if (!tall::works()) return;
    const uint64_t n = 1ull << h;
    uint32_t s = tall::place(r, h, 3, turn);
    std::vector<uint32_t> ix;
    for (uint64_t i = s ? s - 1 : 0; i < std::min(n, (uint64_t) s + 4); i++) ix.push_back((uint32_t) i);
    if (s > 1) ix.push_back(0);
    Watched x = watch(r, w, h, &ix);
    auto t = tall::sparse(x.seed, Cfg{x.k.hf, h, w}, s, 3);
    x.k.root = t->k.root;
    std::unique_ptr<XmssFast> k;
    quiet(x, x.what + " tall construction", [&] { k = tall::make(*t, x.seed, s, r.chance(1, 2)); }, false);
    if (!k) { vf::violation("construction-refused", x.what); return; }
    judge(x, "public key", k->getPK());
    judge(x, "address", k->getAddress());
    judge(x, "descriptor", k->getDescriptorBytes());
    std::set<bytes> Rs;
    for (uint64_t i = s; i < std::min(n, (uint64_t) s + 3); i++) {
        bytes m = r.chance(1, 6) ? x.seed : r.buf(msglen(r, false)), sig;
        quiet(x, cat(x.what, " tall signing at ", i), [&] { sig = k->sign(m); });
        judge_signature(r, x, "tall", (uint32_t) i, m, sig);
        if (sig.size() >= 36) EXPECT(Rs.insert(bytes(sig.begin() + 4, sig.begin() + 36)).second, "randomness-repeats", cat(x.what, " index ", i));
        quiet(x, x.what + " verification", [&] { XmssBase::verify(m, sig, k->getPK(), w); });
        if (r.chance(1, 2)) quiet(x, x.what + " moving back", [&] { k->setIndex((uint32_t) r.below(i + 1)); });
        if (r.chance(1, 2)) quiet(x, x.what + " moving past the end", [&] { k->setIndex((uint32_t) (n + r.below(9))); });
    }
    vf::sample(cat(x.what, " from ", s));
}
// The basic signer rebuilds the tree for each signature: a few indices of a 256-leaf tree.
void basic_high(vf::Rng &r) {
    std::vector<uint32_t> ix;
    for (int i = 0; i < 3; i++) ix.push_back(i ? (uint32_t) r.range(64, 255) : 128);
    std::sort(ix.begin(), ix.end());
    ix.erase(std::unique(ix.begin(), ix.end()), ix.end());
    Watched x = watch(r, 4, 8, &ix);
    XmssBasic k(x.seed, 8, (eHashFunction) x.k.hf, SHA256_2X, 4);
    bytes root = k.getRoot();
    std::copy(root.begin(), root.end(), x.k.root.begin());
    for (uint32_t i : ix) {
        bytes m = r.buf(30), s;
        k.setIndex(i);
        quiet(x, cat(x.what, " signing at ", i), [&] { s = k.sign(m); });
        judge_signature(r, x, "basic", i, m, s);
        vf::count("basic_high_indices");
    }
}
// secrets as arguments of calls that refuse
void errors(vf::Rng &r) {
    Watched x = watch(r, 16, 4);
    auto f = (eHashFunction) x.k.hf;
    for (int i = 0; i < 6; i++) {
        bytes s = x.seed, e = x.ext;
        s.resize(48 + (r.chance(1, 2) ? 1 + r.below(20) : 0) - (r.chance(1, 2) ? 1 + r.below(20) : 0));
        if (s.size() == 48) s.pop_back();
        quiet(x, x.what + " bad seed size", [&] { XmssFast k(s, 4, f, SHA256_2X); });
        quiet(x, x.what + " bad seed size", [&] { XmssBasic k(s, 4, f, SHA256_2X, 16); });
        quiet(x, x.what + " bad height", [&] { XmssFast k(x.seed, (uint8_t) (5 + 2 * r.below(100)), f, SHA256_2X); });
        quiet(x, x.what + " bad height", [&] { XmssBasic k(x.seed, (uint8_t) (32 + 2 * r.below(100)), f, SHA256_2X, 16); });
        quiet(x, x.what + " bad W", [&] { XmssBasic k(x.seed, 4, f, SHA256_2X, 3 + (uint32_t) r.below(1) * 5); });
        switch (r.below(3)) {
            case 0: e[0] |= 0xf0; break;
            case 1: e[1] |= 0xf0; break;
            default: e[1] &= 0xf0;
        }
        quiet(x, x.what + " bad descriptor", [&] { XmssFast k(e); });
        e.resize(r.below(51));
        quiet(x, x.what + " bad extended seed", [&] { XmssFast k(e); });
        std::string hex = ref::hex(x.ext), mn = ref::mnemonic(x.ext);
        quiet(x, "hstr2bin of a seed with a bad digit", [&] { std::string t = hex; t[r.below(t.size())] = 'g'; hstr2bin(t); });
        quiet(x, "hstr2bin of an odd seed", [&] { hstr2bin(hex.substr(1)); });
        quiet(x, "mnemonic2bin with a bad word", [&] { std::string t = mn; t.insert(r.below(t.size()), "qq"); mnemonic2bin(t); });
        quiet(x, "mnemonic2bin with a word missing", [&] { mnemonic2bin(mn.substr(0, mn.rfind(' '))); });
        quiet(x, "bin2mnemonic of a cut seed", [&] { bin2mnemonic(bytes(x.ext.begin(), x.ext.end() - 1)); });
        quiet(x, "round trips", [&] { hstr2bin(hex); mnemonic2bin(mn); bin2hstr(x.ext); bin2mnemonic(x.ext); XmssBase::verify(x.seed, x.ext, x.seed); });
        quiet(x, "getHashChainSeed", [&] { getHashChainSeed(x.seed, (uint32_t) r.below(100), (uint32_t) r.below(4)); });
        bytes a = QRLHelper::getAddress(x.k.epk());
        judge(x, "address", a);
        quiet(x, "address of something else", [&] { QRLHelper::getAddress(x.seed); });
        quiet(x, "address of something else", [&] { QRLHelper::addressIsValid(x.ext); });
        // decisions about everything malformed are silent too
        bytes epk = x.k.epk(), m = r.buf(30), sig;
        { XmssFast k(x.seed, 4, f, SHA256_2X); sig = k.sign(m); }
        for (int q = 0; q < 40; q++) {
            bytes s2 = sig, p2 = epk;
            uint32_t w2 = 16;
            if (r.chance(2, 3)) p2[r.below(3)] = (uint8_t) r.next();
            if (r.chance(1, 3)) p2[1] = (uint8_t) (p2[1] & 0xf0);
            if (r.chance(1, 4)) p2.resize(r.below(80));
            switch (r.below(5)) {
                case 0: s2.resize(r.below(2400)); break;
                case 1: s2.resize(ref::sig_base_size(16) + 32 * r.below(300)); break;
                case 2: s2.resize(4 + 32 * r.below(200)); break;
                case 3: s2[r.below(s2.size())] ^= (uint8_t) (1 + r.below(255)); break;
                default: break;
            }
            if (r.chance(1, 4)) w2 = (uint32_t) (r.chance(1, 2) ? r.below(300) : r.next());
            quiet(x, cat("verify of ", s2.size(), " bytes under ", hexs(p2, 4), " w ", w2), [&] { XmssBase::verify(m, s2, p2, w2); });
            quiet(x, "size arithmetic", [&] { XmssBase::getHeightFromSigSize(s2.size(), w2); });
            vf::count("malformed_verifications");
        }
        for (int h : {0, 3, 5, 7, 32, 255}) {
            const uint64_t from = r.below(1000);
            quiet(x, cat(x.what, " pool of trees of height ", h), [&] { XmssPool p(x.seed, (uint8_t) h, from, (size_t) r.below(3)); p.getNextTree(); });
            quiet(x, cat(x.what, " pool of trees of height ", h), [&] { XmssPool p(x.ext, (uint8_t) h, from, 1); try { p.getNextTree(); } catch (std::exception &) {} p.isAvailable(); p.getNextTree(); });
            vf::count("pools_refused");
        }
        vf::eval(cat(x.what, " errors ", i));
    }
    vf::count("error_rounds");
}
void rust(vf::Rng &r, uint32_t w, bool fast) {
    Watched x = watch(r, w, 4);
    if (fast && w != 16) fast = false;
    std::unique_ptr<rs::Key> k;
    quiet(x, x.what + " Rust construction", [&] { k.reset(new rs::Key(fast, x.seed, 4, x.k.hf, w)); }, false);
    if (!k || !k->made) { vf::violation("rust-construction-refused", x.what); return; }
    for (int a : {1, 2, 4, 5, 6}) judge(x, "Rust accessor", k->get(a));
    for (uint32_t i = 0; i < 16; i++) {
        bytes m = r.chance(1, 6) ? x.seed : r.buf(msglen(r, false));
        rs::R s;
        quiet(x, cat(x.what, " Rust signing at ", i), [&] { s = k->sign(m); }, false);
        EXPECT(s.ok, "rust-refused-to-sign", x.what);
        if (s.ok) judge_signature(r, x, "rust", i, m, s.v);
        quiet(x, x.what + " Rust verification", [&] { bytes b = s.v; rs::verify(m, b, x.k.epk(), w); b[r.below(b.size())] ^= 2; rs::verify(m, b, x.k.epk(), w); }, false);
    }
    // decisions about everything malformed are silent too
    bytes good = ref::sign(x.k, 0, {1});
    for (int q = 0; q < 40; q++) {
        bytes s2 = good, p2 = x.k.epk();
        uint32_t w2 = w;
        if (r.chance(2, 3)) p2[r.below(3)] = (uint8_t) r.next();
        if (r.chance(1, 3)) p2[1] = (uint8_t) (p2[1] & 0xf0);
        if (r.chance(1, 4)) p2.resize(r.below(80));
        switch (r.below(5)) {
            case 0: s2.resize(r.below(2400)); break;
            case 1: s2.resize(ref::sig_base_size(w) + 32 * r.below(300)); break;
            case 2: s2.resize(4 + 32 * r.below(200)); break;
            case 3: s2[r.below(s2.size())] ^= (uint8_t) (1 + r.below(255)); break;
            default: break;
        }
        if (r.chance(1, 4)) w2 = (uint32_t) (r.chance(1, 2) ? r.below(300) : r.next());
        rs::R o;
        quiet(x, cat("Rust verify of ", s2.size(), " bytes under ", hexs(p2, 4), " w ", w2), [&] { rs::verify({1}, s2, p2, w2); }, false);
        quiet(x, "Rust size arithmetic", [&] { o = rs::take(rs_height_from_size(s2.size(), w2), "Rust size arithmetic"); }, false);
        if (!o.ok) judge_text(x, "Rust error text", o.s());
        quiet(x, "Rust address of something else", [&] { o = rs::take(rs_address(p2.data(), p2.size()), "Rust address"); }, false);
        if (!o.ok) judge_text(x, "Rust error text", o.s());
        quiet(x, "Rust address validity", [&] { o = rs::take(rs_address_valid(s2.data(), std::min<size_t>(s2.size(), 10 + r.below(60))), "Rust address validity"); }, false);
        quiet(x, "Rust descriptor", [&] { o = rs::take(rs_descr(0, p2.data(), p2.size()), "Rust descriptor"); }, false);
        if (!o.ok) judge_text(x, "Rust error text", o.s());
        vf::count("rust_malformed");
    }
    rs::R s;
    for (int q = 0; q < 3; q++) {
        quiet(x, x.what + " Rust errors", [&] { s = q == 0 ? k->sign({1}) : q == 1 ? k->set_index(3) : k->set_index(99); }, false);
        EXPECT(!s.ok, "exhausted-key-signs", x.what + " Rust");
        judge_text(x, "Rust error text", s.s());
    }
    std::string hex = ref::hex(x.ext), mn = ref::mnemonic(x.ext);
    for (int kind = 0; kind < 8; kind++)
        for (const std::string &t : {hex.substr(1), hex + "g", mn + " qq qq", mn.substr(0, mn.rfind(' ')), mn}) {
            if (kind < 1) continue;
            rs::R o;
            quiet(x, cat("Rust text ", kind), [&] { o = rs::take(rs_text(kind, (const uint8_t *) t.data(), t.size(), 0), "Rust text"); }, false);
            if (!o.ok) { judge_text(x, "Rust error text", o.s()); vf::count("error_texts"); }
        }
    bytes bad = x.ext;
    bad.resize(50);
    RsOut why;
    RsKey *p = rs_key_ext(bad.data(), bad.size(), &why);
    rs::R o = rs::take(why, "Rust key");
    judge_text(x, "Rust error text", o.s());
    if (p) rs_key_free(p);
    vf::sample(x.what + " Rust");
}
}  // namespace

void harness() {
    rs_init();
    const bool san = vf::S().part == "san";
    for (int i = 0; i < vf::scale(san ? 2 : 14, san ? 40 : 500); i++)
        for (uint32_t w : WS)
            for (int fast = 0; fast < 2; fast++) {
                if (w == 256 && (san || i % 2)) continue;
                vf::run("key", [&](vf::Rng &r) { cpp(r, w, w != 256 && i % 5 == 4 ? 6 : 4, fast != 0); });
            }
    if (!san)
        for (int h = 6; h <= 30; h += 2)
            for (int turn = 0; turn < vf::scale(4, 40); turn++)
                vf::run("tall", [&](vf::Rng &r) { tall_key(r, (turn + h / 2) % 3 == 0 ? 16 : turn % 2 ? 4 : 2, h, (int) ((turn + h / 2 + vf::S().seed) % 10)); });
    if (!san) for (int i = 0; i < vf::scale(4, 40); i++) vf::run("basic-high", [&](vf::Rng &r) { basic_high(r); });
    for (int i = 0; i < vf::scale(san ? 4 : 40, san ? 100 : 1500); i++) vf::run("errors", [&](vf::Rng &r) { errors(r); });
    if (!san)
        for (int i = 0; i < vf::scale(6, 60); i++)
            vf::run("system-calls", [&](vf::Rng &r) {
                const uint32_t w = WS[r.below(3)];
                const int hf = (int) r.below(3);
                const bytes seed = r.buf(48), m = r.buf(msglen(r, false)), ext = [&] { bytes e = ref::descriptor(hf, 0, 4, 0); e.insert(e.end(), seed.begin(), seed.end()); return e; }();
                trapped(cat("C++ key h=4 w=", w, " hash ", hf, " seed ", hexs(seed)), [&] {
                    for (int fast = 0; fast < 2; fast++) {
                        Cfg c{hf, 4, fast ? 16 : w};
                        auto k = make(fast, seed, c);
                        for (int j = 0; j < 16; j++) { bytes sg = k->sign(m); XmssBase::verify(m, sg, k->getPK(), c.w); sg[40] ^= 1; XmssBase::verify(m, sg, k->getPK(), c.w); }
                        try { k->sign(m); } catch (const std::invalid_argument &) {}
                        try { k->setIndex(1); } catch (const std::invalid_argument &) {}
                        k->getAddress(), k->getExtendedSeed(), k->getDescriptor();
                    }
                    XmssFast again(ext);
                });
                trapped(cat("Rust key h=4 w=", w, " hash ", hf, " seed ", hexs(seed)), [&] {
                    for (int fast = 0; fast < 2; fast++) {
                        rs::Key k(fast, seed, 4, hf, fast ? 16 : w);
                        if (!k.made) continue;
                        for (int j = 0; j < 16; j++) { bytes sg = k.sign(m).v; rs::verify(m, sg, k.get(1), fast ? 16 : w); if (sg.size() > 40) sg[40] ^= 1; rs::verify(m, sg, k.get(1), fast ? 16 : w); }
                        k.sign(m), k.set_index(1);
                    }
                    rs::Key again(ext);
                });
            });
    if (!san)
        for (int i = 0; i < vf::scale(20, 600); i++)
            vf::run("rust", [&](vf::Rng &r) { rust(r, i % 10 == 9 ? 256 : WS[r.below(3)], r.chance(1, 2)); });
}
