// Shared vocabulary of the harnesses that drive the C++ library.
#ifndef VERIF_QRL_H
#define VERIF_QRL_H
#include <memory>
#include <unistd.h>
#include "common.h"
#include "xmssBase.h"
#include "xmssBasic.h"
#include "xmssFast.h"
#include "qrlHelper.h"
#include "misc.h"
#include "hashing.h"

namespace vq {
using vf::bytes;
using vf::cat;
using vf::hexs;
static const eHashFunction HF[3] = {SHA2_256, SHAKE_128, SHAKE_256};
static const char *HFN[3] = {"sha2_256", "shake_128", "shake_256"};
static const uint32_t WS[4] = {2, 4, 16, 256};

struct Cfg { int hf, h; uint32_t w; };
inline std::string name(const Cfg &c) { return cat(HFN[c.hf], "/h", c.h, "/w", c.w); }

// A fast key for any W (the constructor builds W=16; other W re-initialise, as the API offers).
struct FastW : XmssFast {
    FastW(const bytes &seed, int h, int hf, uint32_t w) : XmssFast(seed, (unsigned char) h, HF[hf], SHA256_2X) {
        if (w != 16) initialize_tree(w);
    }
};
inline std::unique_ptr<XmssBase> make(bool fast, const bytes &seed, const Cfg &c) {
    if (fast) return std::unique_ptr<XmssBase>(new FastW(seed, c.h, c.hf, c.w));
    return std::unique_ptr<XmssBase>(new XmssBasic(seed, (unsigned char) c.h, HF[c.hf], SHA256_2X, c.w));
}
inline size_t msglen(vf::Rng &r, bool big = true) {
    static const std::vector<size_t> edge = {0, 1, 2, 31, 32, 33, 39, 40, 41, 55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 135, 136, 137,
                                             167, 168, 169, 199, 200, 255, 256, 257, 271, 272, 335, 336, 1000, 4095, 4096};
    if (big && r.chance(1, 12)) return r.range(5000, 70000);
    return r.chance(2, 3) ? r.pick(edge) : r.below(600);
}
inline bytes seed48(vf::Rng &r) {
    switch (r.below(8)) {
        case 0: return bytes(48, 0);
        case 1: return bytes(48, 0xff);
        case 2: { bytes b(48, 0); b[r.below(48)] = (uint8_t) (1 << r.below(8)); return b; }
        default: return r.buf(48);
    }
}
inline bytes vec(const ref::n32 &x) { return bytes(x.begin(), x.end()); }
}  // namespace vq
#include <fstream>
namespace vq {
inline std::string vdir() { const char *d = getenv("VERIF_DIR"); return d ? d : "/verif"; }
// the published word list, committed with the checks
inline const std::vector<std::string> &words() {
    if (ref::words().empty()) {
        std::ifstream f(vdir() + "/vectors/words.txt");
        std::vector<std::string> w;
        std::string l;
        while (std::getline(f, l)) w.push_back(l);
        if (w.size() != 4096) { fprintf(stderr, "words.txt missing\n"); _exit(3); }
        ref::set_words(w);
    }
    return ref::words();
}
}  // namespace vq
#endif
