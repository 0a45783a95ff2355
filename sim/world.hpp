#pragma once
#include "engine.hpp"
struct World {
    std::string prop;
    virtual Plan gen(u64 seed) = 0;
    virtual void exec(const Plan&, Run&) = 0;
    virtual bool fork_per_seed() { return false; }
    virtual ~World() {}
};

void register_algs();                          // defined in main.cpp from -DFAM_* flags

// ---- executable reference of one instance ----------------------------------
enum St { S_RAW, S_UNINIT, S_OPEN, S_FINAL, S_MOVED, S_BROKEN };
// key, iv: what the algorithm uses; kraw, iraw: what the library is given when
// that has another size (missing bytes count as zero, redundant ones are ignored).
struct Params { bytes key, iv, info; u32 iters = 1; bool kodd = false, iodd = false; bytes kraw, iraw; const bytes& kin() const { return kodd ? kraw : key; } const bytes& iin() const { return iodd ? iraw : iv; } };
struct Model {
    int st = S_RAW; Params p; bytes data, aad; bool text = false, aadover = false; int dir = 0; u64 pos = 0;
    std::shared_ptr<bytes> kstream;
    void fresh(const Params& q) { p = q; data.clear(); aad.clear(); text = aadover = false; dir = 0; pos = 0; kstream.reset(); st = S_OPEN; }
};
bytes model_digest(const Alg&, const Model&);
bytes model_kdf(const Alg&, Model&, u64 from, size_t n);   // next n bytes of key
bytes model_crypt(const Alg&, const Params&, u64 pos, const bytes& in);
constexpr u64 SAME_SECRET = 0x5EC3E7;   // C21: the history in which every secret begins alike
Params gen_params(const Alg&, u64 pseed, int pmode, size_t ksz, size_t isz, size_t nsz, u32 it, u64 secret);
size_t pick_size(Rng& r, size_t B, int big);
