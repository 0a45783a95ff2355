// Stream world: instances of every algorithm as simulated workers.  A seeded
// plan creates them in simulator-owned storage, cuts their traffic into calls,
// interleaves them, copies / moves / swaps them, crashes them (between calls or
// at an arbitrary instruction inside a call), restarts them from saved copies,
// fails their allocations, places their buffers against guard pages - and an
// executable reference model decides every byte they produce.
#include <algorithm>
#include "world.hpp"

__attribute__((weak)) const char* init_check();
namespace {
constexpr int NS = 6, NSNAP = 4; constexpr size_t SLOT = 16384;
struct Slot { Model m; int alg = -1; u8* mem = nullptr; };
struct Flags { bool life = false, alloc = false, mem = false, erase = false, isa = false, abi = false, crash = false, path = false; int big = 2; };

struct Stream : World {
    std::vector<int> pool; Flags fl; Run* R = nullptr; u64 secret = 0;
    Slot s[NS], snap[NSNAP];
    int arm = 0; i64 arm_k = 0; bool last_crashed = false;
    std::vector<bytes>* residue = nullptr; size_t residue_i = 0; bool residue_compare = false;
    std::vector<std::string> residue_what;
    struct Step { u64 path, mpath, steps; }; std::vector<Step> trail; size_t trail_i = 0; int path_pass = 0; u64 path_cap = 0;   // C21: 0 first uses, 1 record, 2 compare
    u64 ops_done = 0, judged = 0, op_hash = 0;

    explicit Stream(const std::string& p) {
        prop = p;
        auto& a = algs();
        for (size_t i = 0; i < a.size(); i++) if (a[i]->kind != K_CODEC || p == "C10" || p == "C11" || p == "C21") pool.push_back(int(i));
        if (p == "C21") { auto b = pool; for (int q : b) if (A(q).kind == K_CODEC) pool.insert(pool.end(), 12, q); else if (A(q).kind == K_AEAD && A(q).apie) pool.insert(pool.end(), 6, q); }
        if (p == "C09") { fl.life = fl.crash = true; fl.big = 1; }
        else if (p == "C10") { fl.alloc = true; fl.big = 1; }
        else if (p == "C11") { fl.mem = fl.abi = true; fl.big = 2; }
        else if (p == "C12") { fl.erase = true; fl.life = true; fl.big = 1; }
        else if (p == "C21") { fl.path = true; fl.big = 0; }
        else if (p == "C08") { fl.isa = true; fl.big = 1; }
    }
    static int algn() { return int(algs().size()); }
    Alg& A(int i) { return *algs()[size_t(i)]; }
    void bad(const char* cls, const std::string& m) { R->fail(cls, m); }

    // -- storage ---------------------------------------------------------------
    u8* storage(int region_id, int idx, const Alg& a, u64 jitter) {
        u8* b = region(region_id).base + size_t(idx) * SLOT;
        bytes j = gen_bytes(jitter * 31 + u64(idx), 0, SLOT); memcpy(b, j.data(), SLOT);
        return b + 4096 + (jitter % 5) * a.align;
    }
    // -- one library call --------------------------------------------------------
    enum { OK, CRASHED };
    int call(Alg& a, Call& c) {
        sigjmp_buf jb;
        last_crashed = false; R->count("library_calls");
        c.pre = stale_size(op_hash, c.op == O_DIGEST || c.op == O_DERIVE || a.kind < K_CIPHER || a.kind > K_AEAD ? std::min(c.req, c.op == O_DERIVE ? c.req : size_t(64)) : c.in.n);
        u64 live0 = win_live();
        tl.mon = 0; tl.maxsteps = 0;
        if (fl.isa && !g_isa_patched) { tl.mon |= M_ISA; tl.maxsteps = 40000; }
        if (fl.abi && abi_on) { tl.mon |= M_ABI; tl.maxsteps = 12000; }
        if (fl.path && path_pass) { path_cap = op_hash % 5 == 0 || c.op == O_VERIFY || c.op == O_OPEN || a.kind == K_CODEC ? 20000 : 2500; tl.mon |= M_COUNT; tl.maxsteps = path_cap; tl.path = tl.mpath = 0; }
        tl.cpu_state_check = fl.mem;
        int armed = arm; i64 k = arm_k; arm = 0;
        bool ro = fl.mem && ro_on;
        if (armed == 1) {
            tl.crash = &jb; tl.act = A_CRASH; tl.act_at = u64(k < 1 ? 1 : k); tl.fired = false;
            if (sigsetjmp(jb, 0)) { tl.depth = 0; tl.act = 0; tl.mon = 0; tl.in_guard = 0; if (ro) protect(false); last_crashed = true; R->count("fault_crash_inside_call"); R->log("crash"); R->log(tl.steps); return CRASHED; }
        } else if (armed == 3) { tl.fail_alloc = int(k < 1 ? 1 : k); }
        else if (armed == 4) { g_user_fail_in = int(k < 1 ? 1 : k); }
        u64 g0 = g_user_growths; int uf0 = g_user_fail_in;
        if (ro) protect(true);
        a.exec(c);
        if (ro) protect(false);
        c.allocs = tl.allocs;
        bool afail = tl.alloc_failed, ufail = uf0 && g_user_fail_in == 0 && g_user_growths > g0;
        tl.act = 0; tl.mon = 0; tl.fail_alloc = 0; g_user_fail_in = 0;
        if (fl.path && path_pass) {
            bool plain = c.threw == T_NONE && !c.allocs && c.ii < 2 && c.io < 2 && (c.op != O_ONESHOT && c.op != O_OPEN || a.kind == K_CODEC); // containers live where the heap puts them
            if (path_pass == 1) trail.push_back({tl.path, tl.mpath, tl.steps});
            else if (trail_i < trail.size()) {
                Step& q = trail[trail_i++]; R->count("calls_compared_with_other_secrets"); if (plain) R->count("calls_with_addresses_compared");
                if (tl.path != q.path || tl.steps != q.steps) bad("secret-path", fmt("%s: op %d (interfaces %d/%d): the executed instructions depend on secret bytes (%llu instructions with one secret, %llu with another)", a.name.c_str(), c.op, c.ii, c.io, (unsigned long long)q.steps, (unsigned long long)tl.steps));
                else if (plain && tl.mpath != q.mpath) bad("secret-address", fmt("%s: op %d (interfaces %d/%d): the memory addresses used depend on secret bytes", a.name.c_str(), c.op, c.ii, c.io));
            }
        }
        if (g_isa[0]) { if (fl.isa) bad("isa", a.name + " (cpu " + g_cpu.name + "): " + g_isa); g_isa[0] = 0; }
        if (g_abi[0]) { if (fl.mem) bad("abi", a.name + ": " + g_abi); g_abi[0] = 0; }
        alloc_failed = false;
        if (fl.alloc) {
            if (afail) { R->count("fault_alloc_failed"); if (c.threw != T_BADALLOC) bad("alloc-exception", fmt("%s: op %d io %d: a failed allocation did not reach the caller as std::bad_alloc (got %d)", a.name.c_str(), c.op, c.io, c.threw)); else alloc_failed = true; }
            if (ufail) { R->count("fault_growth_failed"); if (c.threw != T_USER) bad("user-exception", fmt("%s: op %d io %d: the container's own exception did not reach the caller (got %d)", a.name.c_str(), c.op, c.io, c.threw)); else alloc_failed = true; }
            if (win_live() > live0) bad("leak", fmt("%s: op %d io %d leaks %zu allocation(s)", a.name.c_str(), c.op, c.io, size_t(win_live() - live0)));
            if (c.alloc_free_api && c.allocs && c.threw == T_NONE) bad("allocates", fmt("%s: op %d io %d: a pointer/fixed-size interface allocated %llu time(s)", a.name.c_str(), c.op, c.io, (unsigned long long)c.allocs));
            if (c.alloc_free_api) R->count("allocation_free_calls");
        }
        if (!alloc_failed && c.threw != T_NONE && c.threw != T_MILO && !(c.threw == T_OTHER && c.err == -1)) bad("exception", fmt("%s: op %d io %d threw unexpectedly (%d)", a.name.c_str(), c.op, c.io, c.threw));
        return OK;
    }
    bool alloc_failed = false, abi_on = false, ro_on = true;
    void protect(bool on) { for (int r : {R_IN, R_KEY, R_IV, R_INFO, R_TAG}) region_protect(r, on); }

    // -- buffers ------------------------------------------------------------------
    In put(int reg, const bytes& b, int mode) { u8* p = place(reg, b.size(), mode); if (!b.empty()) memcpy(p, b.data(), b.size()), lent.push_back({p, b.size()}); return {p, b.size()}; }
    // The caller may reuse the memory of its inputs and outputs as soon as the call is over
    // (except what a KDF instance is documented to keep referring to).
    std::vector<std::pair<u8*, size_t>> lent;
    void reuse() { for (auto& x : lent) memset(x.first, int(0x5D ^ (ops_done * 29 & 255)), x.second); lent.clear(); }
    // Output buffer with canaries on both sides of it.
    static constexpr size_t CAN = 192;
    Buf outbuf(int reg, size_t n, int mode) {
        u8* p = place(reg, n, mode); Region& r = region(reg);
        u8* lo = p - CAN < r.base ? r.base : p - CAN; u8* hi = p + n + CAN > r.base + r.size ? r.base + r.size : p + n + CAN;
        for (u8* q = lo; q < hi; q++) *q = u8(0xC3 ^ (u64(q) * 7));
        lent.push_back({p, n}); return {p, n};
    }
    // bytes [0,n) may have been written, everything around must be intact
    void canary(const Alg& a, int reg, const Buf& b, size_t cap, size_t n, const char* what) {
        if (!fl.mem) return;
        Region& r = region(reg); u8* lo = b.p - CAN < r.base ? r.base : b.p - CAN; u8* hi = b.p + cap + CAN > r.base + r.size ? r.base + r.size : b.p + cap + CAN;
        for (u8* q = lo; q < hi; q++) { if (q >= b.p && q < b.p + n) continue; if (*q != u8(0xC3 ^ (u64(q) * 7))) { bad("output-overrun", fmt("%s: %s wrote outside the %zu byte(s) it reports, at offset %lld", a.name.c_str(), what, n, (long long)(q - b.p))); return; } }
        R->count("guarded_outputs");
    }
    // KDF instances keep references to some inputs (HKDF: info, PBKDF2: ikm and salt): memory that outlives the run.
    size_t pool_at = 0;
    In keep(const bytes& b) { u8* p = region(R_POOL).base + pool_at; pool_at += (b.size() + 31) / 16 * 16 + 16; if (pool_at > region(R_POOL).size) { pool_at = b.size() + 64; p = region(R_POOL).base; } if (!b.empty()) memcpy(p, b.data(), b.size()); return {p, b.size()}; }
    void set_params(const Alg& a, Call& c, const Params& p, int mode) {
        bool k = a.kind == K_HKDF || a.kind == K_PBKDF2;
        if (a.kind == K_HKDF) { c.key = put(R_KEY, p.key, mode); c.iv = put(R_IV, p.iv, mode); c.info = keep(p.info); }
        else if (k) { c.key = keep(p.key); c.iv = keep(p.iv); }
        else { c.key = put(R_KEY, p.kin(), mode); c.iv = put(R_IV, p.iin(), mode); if (p.kodd || p.iodd) R->count("keys_or_nonces_of_another_size"); }
        c.iters = p.iters;
    }
    Params params(const Alg& a, const Op& o, size_t i) { return gen_params(a, u64(o.at(i)), kindof(o.at(i), int(o.at(i + 1))), size_t(o.at(i + 2)), size_t(o.at(i + 3)), size_t(o.at(i + 4)), u32(o.at(i + 5)), secret); }
    // C21: the other secret is often of another kind (all zero, runs, edge values)
    int kindof(i64 seed, int mode) { if (secret == 3) return mode & ~7; return fl.path && secret && (u64(seed) * 0x9E3779B97F4A7C15ULL >> 40) % 3 ? (mode & ~7) | ((mode + 1 + int((u64(seed) * 0x9E3779B97F4A7C15ULL >> 50) % 7)) & 7) : mode; }
    bytes data(i64 seed, i64 mode, i64 n) { return gen_bytes(secret == 3 ? SAME_SECRET : u64(seed) ^ (secret * 0x9e3779b1), kindof(seed, int(mode)), size_t(n)); }

    // -- judging an output -----------------------------------------------------------
    void judge(const Alg& a, Call& c, const bytes& exp, const char* what, int reg, const Buf& b, size_t cap) {
        judged++; R->count("outputs_judged");
        const u8* got; size_t n = exp.size();
        if (c.ret != n) { bad("size", fmt("%s: %s (interface %d) reports %zu bytes, %zu expected", a.name.c_str(), what, c.io, c.ret, n)); return; }
        if (c.used_got) { if (c.got.size() < n || (c.cont_size && c.cont_size != n)) { bad("container-size", fmt("%s: %s (interface %d) left a container of %zu bytes, %zu expected", a.name.c_str(), what, c.io, c.got.size(), n)); return; } got = c.got.data(); if (c.ret2 && c.op != O_ONESHOT) bad("output-overrun", fmt("%s: %s (interface %d) wrote byte %zu of the output but reports %zu", a.name.c_str(), what, c.io, c.ret2 - 1, c.ret)); }
        else { got = c.out.p; canary(a, reg, b, cap, n, what); }
        R->log(got, n); 
        for (size_t i = 0; i < n; i++) if (got[i] != exp[i]) { bad("wrong-output", fmt("%s: %s (interface %d, cpu %s): byte %zu of %zu differs: got %s expected %s", a.name.c_str(), what, c.io, g_cpu.name, i, n, hex(got + (i / 16 * 16), n - i / 16 * 16, 16).c_str(), hex(exp.data() + (i / 16 * 16), n - i / 16 * 16, 16).c_str())); return; }
    }
    void sig(const Alg& a, const char* k, u64 x, u64 y = 0, u64 z = 0) { u64 h = fnv(a.name.data(), a.name.size()); h = fnv(k, strlen(k), h); h = fnv(&x, 8, h); h = fnv(&y, 8, h); h = fnv(&z, 8, h); h = fnv(&g_cpu_id, 4, h); R->sig(h); }
    static u64 szclass(size_t n, size_t B) { return n == 0 ? 0 : n < B ? 1 : n == B ? 2 : n % B == 0 ? 3 : n < 4 * B ? 4 : n < 16 * B ? 5 : n < 65536 ? 6 : 7; }
    static size_t blk(const Alg& a) { return a.kind == K_POLY || a.kind == K_AEAD ? 16 : a.kind == K_CIPHER || a.kind == K_CODEC ? 64 : ref::hash_block(a.hash); }

    void finalise(Slot& t) { // implementation-level objects are finalised explicitly
        Alg& a = A(t.alg);
        if (a.apie || t.m.st != S_OPEN) return;
        if (a.kind == K_AEAD && !t.m.aadover) { Call c; c.op = O_AADOVER; c.self = t.mem; a.exec(c); t.m.aadover = true; }
        Call c; c.op = O_FINALIZE; c.self = t.mem; a.exec(c);
    }
    void instance_bounds(Slot& t, const char* what) {
        (void)t; (void)what;
    }
    void destroy(Slot& t, bool dtor) {
        if (t.m.st == S_RAW) return;
        Alg& a = A(t.alg);
        if (dtor) {
            Call c; c.op = O_DTOR; c.self = t.mem; int keep_arm = arm; arm = 0; call(a, c); arm = keep_arm;
            if (fl.erase) {
                bytes r(t.mem, t.mem + a.size);
                if (!residue_compare) { residue->push_back(r); residue_what.push_back(fmt("%s destroyed in state %d", a.name.c_str(), t.m.st)); }
                else if (residue_i < residue->size()) {
                    bytes& q = (*residue)[residue_i]; R->count("storage_residues_compared"); sig(a, "residue", u64(t.m.st), t.m.data.size() % blk(a), t.m.pos % 64);
                    for (size_t i = 0; i < r.size() && i < q.size(); i++) if (r[i] != q[i]) { bad("residue", fmt("%s: after destruction byte %zu of %zu of its storage still depends on the secrets it processed", residue_what[residue_i].c_str(), i, r.size())); break; }
                    residue_i++;
                }
            }
        } else { bytes j = gen_bytes(u64(t.alg) + 77, 0, a.size); memcpy(t.mem, j.data(), a.size); R->count("fault_crash_between_calls"); }
        t.m = Model(); t.alg = -1;
    }
    static size_t request(i64 v) { return v >= 0 ? size_t(v) : v == -1 ? ~size_t(0) : (size_t(1) << 32) + size_t(-2 - v); }   // far more than there is
    static bool queryable(const Model& m) { return m.st == S_OPEN || m.st == S_FINAL; }

    void step(const Op& o) {
        const std::string& k = o.k; ops_done++; op_hash = fnv(o.a.data(), o.a.size() * sizeof(i64), 77);
        auto slot = [&](size_t i) -> Slot& { return s[u64(o.at(i)) % NS]; };
        if (k == "initcheck") { if (init_check) { const char* w = init_check(); R->count("startup_results_judged", 56); if (*w) bad("startup", fmt("%s used by a global object under construction gives a wrong result (cpu %s)", w, g_cpu.name)); } return; }
        if (k == "arm") { arm = int(o.at(0)); arm_k = o.at(1); return; }
        if (k == "new") {
            Slot& t = slot(0); if (t.m.st != S_RAW) { destroy(t, true); }
            t.alg = int(u64(o.at(1)) % u64(algn())); Alg& a = A(t.alg); if (a.kind == K_CODEC) { t.alg = -1; codec(a, o); return; }
            t.mem = storage(R_SLOTS, int(u64(o.at(0)) % NS), a, u64(o.at(3)));
            Call c; c.self = t.mem; c.ii = int(o.at(9)); Params p;
            if (o.at(2)) { c.op = O_CTOR_INIT; p = params(a, o, 3); set_params(a, c, p, int(o.at(10))); } else c.op = O_CTOR;
            int ka = arm; if (arm == 1) arm = 0; (void)ka;
            call(a, c);
            if (o.at(2) || a.kind == K_HASH && a.apie) t.m.fresh(p); else t.m.st = S_UNINIT;
            R->log("new"); sig(a, "new", u64(o.at(2)), u64(c.ii), szclass(p.key.size(), blk(a)));
            return;
        }
        if (k == "ini") {
            Slot& t = slot(0); if (t.m.st == S_RAW) return; Alg& a = A(t.alg);
            Call c; c.self = t.mem; c.op = O_INIT; c.ii = int(o.at(7)); Params p = params(a, o, 1); set_params(a, c, p, int(o.at(8)));
            sig(a, "ini", u64(t.m.st), t.m.data.size() % blk(a), szclass(p.key.size(), blk(a)));
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            t.m.fresh(p); R->log("ini"); return;
        }
        if (k == "fed") {
            Slot& t = slot(0); if (t.m.st != S_OPEN) return; Alg& a = A(t.alg);
            if (a.kind != K_HASH && a.kind != K_HMAC && a.kind != K_POLY && a.kind != K_AEAD) return;
            if (a.kind == K_AEAD && t.m.aadover) return;
            bytes d = data(o.at(1), o.at(2), o.at(3)); Call c; c.self = t.mem; c.op = O_ABSORB; c.ii = int(o.at(4));
            c.in = put(R_IN, d, int(o.at(5)));
            bytes& h = a.kind == K_AEAD ? t.m.aad : t.m.data;
            sig(a, "fed", h.size() % blk(a), szclass(d.size(), blk(a)), u64(c.ii) * 1000 + d.size() % blk(a));
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            h.insert(h.end(), d.begin(), d.end());
            if (fl.mem && memcmp(c.in.p, d.data(), d.size())) bad("input-changed", a.name + ": update changed its input");
            R->log("fed"); return;
        }
        if (k == "cry") {
            Slot& t = slot(0); if (t.m.st != S_OPEN) return; Alg& a = A(t.alg); if (a.kind != K_CIPHER && a.kind != K_AEAD) return;
            bool dec = o.at(8) & 1; if (a.kind == K_AEAD && t.m.dir && (t.m.dir == 2) != dec) dec = t.m.dir == 2;
            bytes d = data(o.at(1), o.at(2), o.at(3)); Call c; c.self = t.mem; c.op = O_CRYPT; c.io = int(o.at(4)); c.dec = dec;
            bool inplace = o.at(7) && (c.io < 2 || c.io == 3);
            Buf b = outbuf(R_OUT, d.size(), int(o.at(6)));
            if (inplace) { if (!d.empty()) memcpy(b.p, d.data(), d.size()); c.in = {b.p, d.size()}; }
            else c.in = put(R_IN, d, int(o.at(5)));
            c.out = b;
            if (a.kind == K_AEAD && !a.apie && !t.m.aadover) { Call f; f.op = O_AADOVER; f.self = t.mem; int ka = arm; arm = 0; call(a, f); arm = ka; t.m.aadover = true; }
            sig(a, "cry", t.m.pos % 64, szclass(d.size(), 64), u64(c.io) * 1000 + d.size() % 64 + (inplace ? 100000 : 0));
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            if (c.threw == T_OTHER && c.err == -1) return;
            if (alloc_failed) { R->log("afail"); return; }
            bytes e = model_crypt(a, t.m.p, t.m.pos, d);
            judge(a, c, e, dec ? "decrypt" : "encrypt", R_OUT, b, d.size());
            if (c.io < 2 && c.sized != d.size()) bad("size", fmt("%s: encrypt_size/decrypt_size of %zu is %zu", a.name.c_str(), d.size(), c.sized));
            if (fl.mem && !inplace && memcmp(c.in.p, d.data(), d.size())) bad("input-changed", a.name + ": encrypt/decrypt changed its input");
            t.m.pos += d.size(); t.m.dir = dec ? 2 : 1; t.m.aadover = true;
            const bytes& ct = dec ? d : e; t.m.data.insert(t.m.data.end(), ct.begin(), ct.end());
            return;
        }
        if (k == "dig") {
            Slot& t = slot(0); if (!queryable(t.m)) return; Alg& a = A(t.alg); size_t D = size_t(a.digest);
            if (a.kind != K_HASH && a.kind != K_HMAC && a.kind != K_POLY && a.kind != K_AEAD) return;
            int io = int(o.at(1)); size_t req = request(o.at(2)); size_t cap = size_t(o.at(3));
            finalise(t);
            Call c; c.self = t.mem; c.op = O_DIGEST; c.io = io; c.req = req; 
            bool fixed = a.apie && io == 3; 
            size_t bn = fixed ? cap : std::min(req, D);
            Buf b = outbuf(R_OUT2, bn, int(o.at(4))); c.out = b;
            sig(a, "dig", u64(t.m.st) * 1000 + t.m.data.size() % blk(a), u64(io), req < D ? 0 : req == D ? 1 : 2);
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            if (alloc_failed) { R->log("afail"); return; }
            size_t n = std::min(c.req, D); if (fixed) n = std::min(n, cap); if (a.apie && (io == 8)) n = std::min(n, size_t(13)); if (a.apie && io == 9 && a.kind != K_AEAD) n = std::min(n, size_t(100));
            bytes e = model_digest(a, t.m); e.resize(n);
            judge(a, c, e, "digest", R_OUT2, b, bn);
            if (t.m.st == S_OPEN) t.m.st = S_FINAL; t.m.aadover = true;
            return;
        }
        if (k == "der") {
            Slot& t = slot(0); if (t.m.st != S_OPEN) return; Alg& a = A(t.alg); if (a.kind != K_HKDF && a.kind != K_PBKDF2) return;
            int io = int(o.at(1)); size_t req = size_t(o.at(2)), cap = size_t(o.at(3));
            Call c; c.self = t.mem; c.op = O_DERIVE; c.io = io;
            u64 lim = a.kind == K_HKDF ? 255 * ref::mac_size(a.hash) : t.m.p.iters > 1000 ? 2 * ref::mac_size(a.hash) : t.m.p.iters > 200 ? 2000 : t.m.p.iters > 1 ? 20000 : 3 << 20; 
            size_t most = a.apie && io == 6 ? 45 : req;
            if (t.m.pos + most > lim) { if (a.apie && io == 6) return; req = size_t(lim - t.m.pos); }
            c.req = req; bool fixed = a.apie && io == 3; size_t bn = fixed ? cap : req; if (bn > 4 << 20) bn = 4 << 20, cap = 4 << 20;
            Buf b = outbuf(R_OUT, bn, int(o.at(4))); c.out = b;
            sig(a, "der", t.m.pos % ref::mac_size(a.hash), u64(io), szclass(req, ref::mac_size(a.hash)) * 1000 + req % ref::mac_size(a.hash));
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            if (alloc_failed) { R->log("afail"); return; }
            size_t n = c.req; if (fixed) n = std::min(n, cap); if (a.apie && io == 8) n = std::min(n, size_t(13));
            bytes e = model_kdf(a, t.m, t.m.pos, n);
            judge(a, c, e, "derive", R_OUT, b, bn);
            t.m.pos += n; return;
        }
        if (k == "ver") {
            Slot& t = slot(0); if (!queryable(t.m)) return; Alg& a = A(t.alg); if (a.kind != K_AEAD || !a.apie) return;
            bytes tag = model_digest(a, t.m); int kind = int(o.at(2));
            if (kind == 1) { u64 bit = (u64(o.at(3)) + secret * 37) % 128; tag[bit / 8] ^= u8(1 << bit % 8); }
            Call c; c.self = t.mem; c.op = O_VERIFY; c.io = int(o.at(1)) % 6; c.stale = int(o.at(4)); c.tag = put(R_TAG, tag, int(o.at(5)));
            sig(a, "ver", u64(c.io), u64(kind), t.m.data.size() % 16);
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            bool ok = c.has_err ? c.err == 0 : c.threw == T_NONE;
            R->log(u64(ok)); R->count("verdicts_judged");
            if (ok != (kind == 0)) bad("verdict", fmt("%s: verify (interface %d) %s a %s tag", a.name.c_str(), c.io, ok ? "accepts" : "rejects", kind ? "forged" : "genuine"));
            t.m.st = S_FINAL; t.m.aadover = true; return;
        }
        if (k == "cpy" || k == "mov") {
            Slot &f = slot(0), &t = slot(1); if (&f == &t || f.m.st == S_RAW || f.m.st == S_MOVED || f.m.st == S_BROKEN) return;
            if (t.m.st != S_RAW) { destroy(t, true); }
            Alg& a = A(f.alg); t.alg = f.alg; t.mem = storage(R_SLOTS, int(&t - s), a, u64(o.at(2)));
            Call c; c.self = t.mem; c.other = f.mem; c.op = k == "cpy" ? O_COPY : O_MOVE; if (arm == 1) arm = 0;
            sig(a, k.c_str(), u64(f.m.st) * 1000 + f.m.data.size() % blk(a), f.m.pos % 64);
            call(a, c); t.m = f.m; if (k == "mov") f.m.st = S_MOVED; R->log(k.c_str()); R->count("copies_and_moves"); return;
        }
        if (k == "asg" || k == "mas") { // slot1 = slot0
            Slot &f = slot(0), &t = slot(1); if (f.m.st == S_RAW || t.m.st == S_RAW || f.m.st == S_MOVED || f.m.st == S_BROKEN || f.alg != t.alg) return;
            if (&f == &t && k == "mas") return;
            Alg& a = A(f.alg); Call c; c.self = t.mem; c.other = f.mem; c.op = k == "asg" ? O_ASSIGN : O_MASSIGN; if (arm == 1 && &f == &t) arm = 0;
            sig(a, k.c_str(), u64(f.m.st) * 10 + u64(t.m.st), &f == &t, f.m.data.size() % blk(a));
            if (call(a, c) == CRASHED) { t.m.st = S_BROKEN; return; }
            if (&f != &t) t.m = f.m; if (k == "mas") f.m.st = S_MOVED; R->log(k.c_str()); R->count("assignments"); return;
        }
        if (k == "swp") {
            Slot &f = slot(0), &t = slot(1); if (f.m.st == S_RAW || t.m.st == S_RAW || f.alg != t.alg) return;
            auto okst = [](int x) { return x == S_OPEN || x == S_FINAL || x == S_UNINIT; }; if (!okst(f.m.st) || !okst(t.m.st)) return;
            Alg& a = A(f.alg); Call c; c.self = t.mem; c.other = f.mem; c.op = O_SWAP; if (arm == 1) arm = 0;
            sig(a, "swp", u64(f.m.st) * 10 + u64(t.m.st), f.m.data.size() % blk(a), t.m.data.size() % blk(a));
            call(a, c); if (&f != &t) std::swap(f.m, t.m); R->log("swp"); R->count("swaps"); return;
        }
        if (k == "del") { destroy(slot(0), true); return; }
        if (k == "drp") { destroy(slot(0), false); return; }
        if (k == "snp") {
            Slot& f = slot(0); Slot& t = snap[u64(o.at(1)) % NSNAP]; if (f.m.st != S_OPEN && f.m.st != S_FINAL) return;
            if (t.m.st != S_RAW) destroy(t, true);
            Alg& a = A(f.alg); t.alg = f.alg; t.mem = storage(R_SNAP, int(&t - snap), a, u64(o.at(2)));
            Call c; c.self = t.mem; c.other = f.mem; c.op = O_COPY; arm = 0; call(a, c); t.m = f.m; R->count("snapshots"); return;
        }
        if (k == "rst") { // a crashed worker restarts from its saved copy
            Slot& f = snap[u64(o.at(0)) % NSNAP]; Slot& t = slot(1); if (f.m.st != S_OPEN && f.m.st != S_FINAL) return;
            if (t.m.st != S_RAW) destroy(t, o.at(3) & 1);
            Alg& a = A(f.alg); t.alg = f.alg; t.mem = storage(R_SLOTS, int(&t - s), a, u64(o.at(2)));
            Call c; c.self = t.mem; c.other = f.mem; c.op = O_COPY; arm = 0; call(a, c); t.m = f.m; R->count("restarts_from_saved_copy"); return;
        }
        if (k == "one") oneshot(o);
    }
    // Codecs have no instances: a plan that creates one encodes or decodes a text.
    void codec(Alg& a, const Op& o) { // new slot alg init seed mode ksz isz nsz it ii place
        if (arm == 1) arm = 0;
        u64 h = op_hash; int pl = int(o.at(10)); bytes d = data(o.at(3), o.at(4), o.at(5)); bool enc = h & 1; h >>= 1;
        std::string t = a.hash == 16 ? ref::b16enc(d) : ref::b64enc(d); bytes tx(t.begin(), t.end());
        Call c; c.io = int(h % u64(enc ? NENC : NDEC)); h /= NDEC; sig(a, enc ? "enc" : "dec", u64(c.io), d.size() % 48, u64(pl != 0)); R->count("codec_calls");
        if (enc) {
            c.op = O_ENC; c.in = put(R_IN, d, pl); Buf b = outbuf(R_OUT, tx.size(), pl); c.out = b; call(a, c); if (alloc_failed) return;
            judge(a, c, tx, "encode", R_OUT, b, tx.size()); if (!R->failed && fl.mem && memcmp(c.in.p, d.data(), d.size())) bad("input-changed", a.name + ": encode changed its input"); return;
        }
        bool broken = !fl.path && h % 4 == 0 && !tx.empty(); if (broken) tx[h / 4 % tx.size()] = u8(h % 8 < 4 ? '!' : 0x80 + h / 64 % 128);
        c.op = O_DEC; c.in = put(R_IN, tx, pl); c.stale = int(h / 128 % 3); size_t cap = d.size(); if (broken) { Call z; z.op = O_SIZES; z.in = c.in; a.exec(z); cap = z.sized; }
        Buf b = outbuf(R_OUT, cap, pl); c.out = b; call(a, c); if (alloc_failed) return;
        if (fl.mem && memcmp(c.in.p, tx.data(), tx.size())) bad("input-changed", a.name + ": decode changed its input");
        if (!broken) judge(a, c, d, "decode", R_OUT, b, cap); else if (!c.used_got) { canary(a, R_OUT, b, cap, cap, "decode of damaged text"); R->count("damaged_texts"); }
    }
    // one alg pseed pmode ksz isz nsz it dseed dmode n ii io req cap place dec
    //     0   1     2     3   4   5   6  7     8     9 10 11 12  13  14    15
    void oneshot(const Op& o) {
        Alg& a = A(int(u64(o.at(0)) % u64(algn()))); if (!a.apie || a.kind == K_CODEC) return;
        Params p = params(a, o, 1); bytes d = data(o.at(7), o.at(8), o.at(9)); Call c; c.op = O_ONESHOT; c.ii = int(o.at(10)); c.io = int(o.at(11)); c.dec = o.at(15) & 1; int pl = int(o.at(14));
        size_t req = request(o.at(12)), cap = size_t(o.at(13)); Model m; m.fresh(p);
        c.key = put(R_KEY, p.kin(), pl); c.iv = put(R_IV, p.iin(), pl); c.iters = p.iters;
        sig(a, "one", u64(c.ii) * 100 + u64(c.io), szclass(d.size(), blk(a)), d.size() % blk(a));
        if (arm == 1) arm = 0;
        if (a.kind == K_HASH || a.kind == K_HMAC || a.kind == K_POLY) {
            size_t D = a.digest; bool fixed = c.io == 5; c.in = put(R_IN, d, pl); c.req = req; size_t bn = fixed ? cap : std::min(req, D); Buf b = outbuf(R_OUT2, bn, pl); c.out = b;
            call(a, c); if (alloc_failed) return; m.data = d; size_t n = std::min(c.req, D); if (fixed) n = std::min(n, cap); bytes e = model_digest(a, m); e.resize(n); judge(a, c, e, "one-call digest", R_OUT2, b, bn);
        } else if (a.kind == K_CIPHER) {
            c.in = put(R_IN, d, pl); Buf b = outbuf(R_OUT, d.size(), pl); c.out = b; call(a, c); if (alloc_failed || (c.threw == T_OTHER && c.err == -1)) return;
            judge(a, c, model_crypt(a, p, 0, d), c.dec ? "one-call decrypt" : "one-call encrypt", R_OUT, b, d.size());
        } else if (a.kind == K_AEAD) {
            bytes ad = data(o.at(7) ^ 0x33, o.at(8) + 1, o.at(13)); c.info = put(R_INFO, ad, pl); m.aad = ad;
            if (c.dec) { // d is the ciphertext
                m.data = d; bytes tag = model_digest(a, m); bool forge = o.at(12) & 1; if (forge) tag[(u64(o.at(12)) / 2 + secret * 5) % 16] ^= u8(1 << (o.at(12) & 7));
                c.op = O_OPEN; c.io %= 10; c.in = put(R_IN, d, pl); c.tag = put(R_TAG, tag, pl); Buf b = outbuf(R_OUT, d.size(), pl); c.out = b; c.stale = int(o.at(12) / 2 % 3);
                if (d.size() > 4096 && (c.io == 5 || c.io == 8)) c.io = 1;
                call(a, c); if (alloc_failed) return;
                bool ok = c.has_err ? c.err == 0 : c.threw == T_NONE; R->count("verdicts_judged");
                if (ok == forge) bad("verdict", fmt("%s: one-call decrypt (interface %d) %s a %s tag", a.name.c_str(), c.io, ok ? "accepts" : "rejects", forge ? "forged" : "genuine"));
                if (ok) judge(a, c, model_crypt(a, p, 0, d), "one-call decrypt", R_OUT, b, d.size());
            } else {
                c.in = put(R_IN, d, pl); Buf b = outbuf(R_OUT, d.size(), pl), g = outbuf(R_OUT2, 16, pl); c.out = b; c.out2 = g; c.io %= 7;
                call(a, c); if (alloc_failed) return;
                bytes ct = model_crypt(a, p, 0, d); m.data = ct; bytes tag = model_digest(a, m);
                judge(a, c, ct, "one-call encrypt", R_OUT, b, d.size());
                const u8* gt = c.used_got2 ? c.got2.data() : g.p; if (c.ret2 != 16 || (c.used_got2 && c.got2.size() != 16) || memcmp(gt, tag.data(), 16)) bad("wrong-output", fmt("%s: one-call encrypt (interface %d): wrong tag: got %s expected %s", a.name.c_str(), c.io, hex(gt, 16).c_str(), hex(tag).c_str()));
                if (!c.used_got2) canary(a, R_OUT2, g, 16, 16, "one-call tag");
            }
        } else {
            c.info = put(R_INFO, p.info, pl); if (req > 4000) req = 4000; if (a.kind == K_PBKDF2 && req > 200) req = 200; if (p.iters > 1000 && req > 20) req = 20; if (a.kind == K_HKDF && req > 255 * ref::mac_size(a.hash)) req = 255 * ref::mac_size(a.hash);
            c.req = req; bool fixed = c.io == 5; size_t bn = fixed ? cap : req; Buf b = outbuf(R_OUT, bn, pl); c.out = b;
            call(a, c); if (alloc_failed) return; size_t n = c.req; if (fixed) n = std::min(n, cap); judge(a, c, model_kdf(a, m, 0, n), "one-call derive", R_OUT, b, bn);
        }
    }

    void run_once(const Plan& p) {
        for (auto& x : s) x = Slot(); for (auto& x : snap) x = Slot(); arm = 0; pool_at = 0; lent.clear(); g_wind = false; g_wind_calls = 0; win_live_reset(); tl.fail_alloc = 0; g_user_fail_in = 0; g_abi[0] = 0;
        if (g_isa[0]) { if (fl.isa) bad("isa-startup", std::string("while the program starts (cpu ") + g_cpu.name + "): " + g_isa); g_isa[0] = 0; if (R->failed) return; }
        for (auto& o : p) {
            if (o.k == "cfg") { abi_on = o.at(0) & 1; ro_on = o.at(0) & 2; g_wind = o.at(0) & 4; if (g_wind) { if (wind_cpuid_check) wind_cpuid_check(); R->count("runs_with_the_windows_convention"); } continue; }
            step(o); if (R->failed) return;
            reuse();
        }
        arm = 0;
        for (auto& x : s) { if (x.m.st != S_RAW) destroy(x, true); if (R->failed) return; }
        for (auto& x : snap) { if (x.m.st != S_RAW) destroy(x, true); if (R->failed) return; }
    }
    struct Arg { Stream* w; const Plan* p; };
    void exec(const Plan& p, Run& r) override {
        R = &r; abi_on = false; ro_on = true; secret = 0; std::vector<bytes> res; residue = &res; residue_what.clear(); residue_compare = false; residue_i = 0;
        Arg arg{this, &p}; hang_arm(30);
        u64 st0 = tl.total_steps;
        trail.clear(); u64 other = 1; for (auto& o : p) if (o.k == "cfg" && fl.path && o.at(0) & 8) { other = 3; r.count("runs_compared_with_all_secrets_equal"); }
        for (int pass = 0; pass < (fl.erase ? 2 : fl.path ? 3 : 1) && !r.failed; pass++) {
            secret = fl.path ? (pass == 2 ? other : 0) : u64(pass); path_pass = fl.path ? pass : 0; trail_i = 0; residue_compare = pass == 1; residue_i = 0;
            if (guarded([](void* a) { auto* x = (Arg*)a; x->w->run_once(*x->p); }, &arg)) {
                for (int g : {R_IN, R_KEY, R_IV, R_INFO, R_TAG}) region_protect(g, false);
                r.fail("crash", fmt("operation %llu: %s", (unsigned long long)ops_done, g_fault));
            }
        }
        hang_arm(0);
        r.count("instructions_stepped", tl.total_steps - st0); r.count("operations", ops_done); ops_done = 0; if (g_wind_calls) r.count("calls_with_the_windows_convention", g_wind_calls);
    }

    // ---- generation --------------------------------------------------------------
    Plan gen(u64 seed) override {
        Rng r(seed); Plan p; auto add = [&](const char* k, std::vector<i64> a) { p.push_back({k, std::move(a)}); };
        struct G { int alg = -1, st = S_RAW; int dir = 0; u64 pos = 0; bool over = false; } g[NS]; int gsnap[NSNAP]; int gsnapst[NSNAP] = {0, 0, 0, 0}; for (auto& x : gsnap) x = -1;
        // swarm: a few algorithms and a random operation mix per run
        std::vector<int> use; int na = int(1 + r.below(fl.life ? 2 : 3)); for (int i = 0; i < na; i++) use.push_back(r.pick(pool));
        bool abi = fl.abi && r.chance(8) || fl.path; int big = abi ? 0 : r.chance(25) ? fl.big : r.chance(50) ? 1 : 0;
        if (fl.isa && seed % 97 == 1) add("initcheck", {});
        if (fl.path && r.chance(25)) add("cfg", {8 + 2});   // every key, salt and message of the other history begins alike
        if (fl.mem) add("cfg", {(abi ? 1 : 0) + (r.chance(80) ? 2 : 0) + (r.chance(abi ? 40 : 12) ? 4 : 0)});
        int w_life = fl.life ? int(r.range(10, 60)) : int(r.below(15)), w_snap = int(r.below(25)), w_one = int(r.below(20)), w_reinit = int(r.below(25)), w_fin = int(r.range(5, 40)), w_feed = int(r.range(20, 90));
        int w_arm = fl.crash ? int(r.below(12)) : fl.alloc ? int(r.range(10, 50)) : (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04" || prop == "C06") ? int(r.below(4)) : 0;
        if (fl.erase) w_one = 0;
        int n = int(abi ? r.range(3, 10) : r.chance(70) ? r.range(3, 25) : r.range(25, 70));
        auto S = [&]() { return i64(r.below(r.chance(60) ? 3 : NS)); };
        auto pl = [&]() -> i64 { return r.chance(45) ? 0 : r.chance(30) ? 1 : i64(2 + r.below(190)); };
        std::vector<i64> seen; std::vector<std::vector<i64>> hist;
        auto dseed = [&]() { if (!seen.empty() && r.chance(12)) return r.pick(seen); seen.push_back(i64(r.below(1u << 30))); return seen.back(); };
        auto psz = [&](const Alg& a, std::vector<i64>& v) { // pseed pmode ksz isz nsz it
            size_t B = a.kind == K_HASH || a.kind == K_HMAC || a.kind == K_HKDF || a.kind == K_PBKDF2 ? ref::hash_block(a.hash) : 64;
            auto ks = [&]() -> i64 { if (big >= 2 && r.below(150) == 0) return 65536 + r.range(-2, 200); switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return i64(B) + r.range(-1, 1); case 3: return i64(2 * B) + r.range(-1, 1); case 4: return i64(ref::mac_size(a.hash < 0 || a.kind == K_CODEC ? 0 : a.hash)); case 5: return big ? i64(r.below(5000)) : i64(r.below(400)); default: return i64(r.below(120)); } };
            size_t v0 = v.size(); v.push_back(i64(r.below(1u << 30))); v.push_back(i64(r.below(32))); v.push_back(ks()); v.push_back(ks()); v.push_back(r.chance(25) ? 0 : ks()); u64 rare = prop == "C06" && a.kind == K_PBKDF2 ? r.below(3000) : 99; // counts beyond 8 and 16 bits, now and then
            v.push_back(rare < 12 ? i64(250 + r.below(12)) : rare == 12 ? i64(65532 + r.below(8)) : a.kind == K_PBKDF2 ? (r.chance(70) ? i64(1 + r.below(4)) : i64(1 + r.below(abi ? 6 : 40))) : 1);
            // a key, nonce or salt that was used before comes again: alone, together, cut or extended
            if (!hist.empty() && r.chance(30)) { std::vector<i64> q = r.pick(hist); i64 K = 32767LL << 15; switch (r.below(7)) { case 0: case 1: break; case 2: q[0] = (q[0] & K) | (v[v0] & 32767); break; case 3: q[0] = (v[v0] & K) | (q[0] & 32767); break; case 4: q[2] = r.chance(50) ? v[v0 + 2] : q[2] + 1; break; case 5: q[3] = v[v0 + 3]; break; default: q[4] = v[v0 + 4]; q[3] = r.chance(50) ? q[3] : q[3] + 1; } i64 it = v[v0 + 5]; if (q[5] > 40) q[5] = it; v.resize(v0); v.insert(v.end(), q.begin(), q.end()); if (a.kind != K_PBKDF2) v.back() = 1; }
            hist.push_back(std::vector<i64>(v.begin() + i64(v0), v.end()));
        };
        auto req = [&](size_t D) -> i64 { return r.chance(45) ? i64(D) : r.chance(20) ? (r.chance(50) ? -1 : -2 - i64(r.below(D + 20))) : r.chance(50) ? i64(r.below(D + 1)) : i64(r.below(D * 2 + 10)); };
        auto dreq = [&](const Alg& a) -> i64 { size_t D = ref::mac_size(a.hash); if (a.kind == K_PBKDF2) return prop == "C06" && r.chance(1) ? i64(D * (250 + r.below(12)) + r.below(3)) : r.chance(50) ? i64(r.below(2 * D + 2)) : i64(D * r.below(4)) ; switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return i64(D) + r.range(-1, 1); case 3: return i64(2 * D) + r.range(-1, 1); case 4: return i64(D * r.below(6)); case 5: return i64(r.below(40)); case 6: return big ? i64(r.below(256 * D)) : i64(r.below(200)); default: return i64(r.below(4 * D)); } };
        for (int i = 0; i < n; i++) {
            i64 si = S(); G& t = g[si];
            if (w_arm && r.chance(w_arm)) {
                if (fl.alloc) add("arm", {r.chance(60) ? 3 : 4, r.chance(80) ? 1 : r.range(1, 3)});
                else { double e = double(r.below(1000)) / 1000.0; i64 k = 1; for (int q = 0; q < 14; q++) if (e > double(q) / 14) k *= 2; add("arm", {1, i64(1 + r.below(u64(k)))}); }
            }
            if (t.st == S_RAW) {
                if (r.chance(w_one) ) goto one;
                t.alg = r.pick(use); Alg& a = A(t.alg); bool init = r.chance(85); std::vector<i64> v{si, t.alg, init}; psz(a, v); v.push_back(i64(r.below(8))); v.push_back(pl()); add("new", v);
                t.st = a.kind == K_CODEC ? S_RAW : init || (a.kind == K_HASH && a.apie) ? S_OPEN : S_UNINIT; t.pos = 0; t.dir = 0; t.over = false; continue;
            }
            { int roll = int(r.below(u64(w_life + w_snap + w_one + w_reinit + w_fin + w_feed))); Alg& a = A(t.alg);
              if (t.st == S_UNINIT || t.st == S_MOVED || t.st == S_BROKEN) { if (r.chance(70)) goto reinit; if (r.chance(50)) goto life; add("del", {si}); t.st = S_RAW; continue; }
              if ((roll -= w_feed) < 0) {
                if (a.kind == K_CIPHER || a.kind == K_AEAD) {
                    if (t.st == S_FINAL) goto fin;
                    if (a.kind == K_AEAD && !t.over && r.chance(50)) goto feed;
                    if (!t.dir || a.kind == K_CIPHER) t.dir = r.chance(50) ? 1 : 2;
                    i64 sz = i64(pick_size(r, 64, big)); add("cry", {si, dseed(), i64(r.below(8)), sz, a.apie ? (r.chance(50) ? i64(r.below(2)) : i64(r.below(8))) : i64(r.below(2)), pl(), pl(), r.chance(25), t.dir == 2}); t.over = true; continue;
                }
                if (a.kind == K_HKDF || a.kind == K_PBKDF2) { add("der", {si, a.apie ? (r.chance(40) ? i64(r.below(2)) : i64(r.below(10))) : i64(r.below(2)), dreq(a), i64(r.below(200)), pl()}); continue; }
                if (t.st == S_FINAL) goto fin;
              feed:
                add("fed", {si, dseed(), i64(r.below(8)), i64(pick_size(r, blk(a), big)), a.apie ? (r.chance(40) ? i64(r.below(2)) : i64(r.below(8))) : i64(r.below(2)), pl()}); continue;
              }
              if ((roll -= w_fin) < 0) {
              fin:
                if (a.kind == K_CIPHER || a.kind == K_HKDF || a.kind == K_PBKDF2) { if (r.chance(20)) { add("del", {si}); t.st = S_RAW; } continue; }
                if (a.kind == K_AEAD && a.apie && r.chance(40)) add("ver", {si, i64(r.below(6)), r.chance(50), i64(r.below(128)), i64(r.below(3)), pl()});
                else add("dig", {si, a.apie ? (r.chance(35) ? i64(r.below(2)) : i64(r.below(12))) : i64(r.below(2)), req(a.digest), i64(r.below(100)), pl()});
                t.st = S_FINAL; continue;
              }
              if ((roll -= w_reinit) < 0) {
              reinit:
                std::vector<i64> v{si}; psz(a, v); v.push_back(i64(r.below(8))); v.push_back(pl()); add("ini", v); t.st = S_OPEN; t.pos = 0; t.dir = 0; t.over = false; continue;
              }
              if ((roll -= w_snap) < 0) {
                i64 k = i64(r.below(NSNAP));
                if (gsnap[k] < 0 || r.chance(40)) { add("snp", {si, k, i64(r.below(100))}); gsnap[k] = t.alg; gsnapst[k] = t.st; }
                else { i64 d = S(); add("rst", {k, d, i64(r.below(100)), i64(r.below(2))}); g[d] = G(); g[d].alg = gsnap[k]; g[d].st = gsnapst[k]; }
                continue;
              }
              if ((roll -= w_life) < 0) {
              life:
                i64 d = S(); switch (r.below(9)) {
                case 0: case 1: if (d != si) { add("cpy", {si, d, i64(r.below(100))}); g[d] = t; } break;
                case 2: if (d != si && t.st != S_MOVED && t.st != S_BROKEN) { add("mov", {si, d, i64(r.below(100))}); g[d] = t; t.st = S_MOVED; } break;
                case 3: case 4: { for (int q = 0; q < NS; q++) if (g[q].st != S_RAW && g[q].alg == t.alg && q != si && r.chance(60)) { d = q; break; } if (g[d].alg == t.alg && g[d].st != S_RAW) { add("asg", {si, d}); if (t.st != S_MOVED && t.st != S_BROKEN) g[d] = t; } break; }
                case 5: { for (int q = 0; q < NS; q++) if (g[q].st != S_RAW && g[q].alg == t.alg && q != si && r.chance(60)) { d = q; break; } if (d != si && g[d].alg == t.alg && g[d].st != S_RAW && t.st != S_MOVED) { add("mas", {si, d}); g[d] = t; t.st = S_MOVED; } break; }
                case 6: { for (int q = 0; q < NS; q++) if (g[q].st != S_RAW && g[q].alg == t.alg && q != si && r.chance(60)) { d = q; break; } if (d != si && g[d].alg == t.alg && g[d].st != S_RAW && t.st != S_MOVED && g[d].st != S_MOVED) { add("swp", {si, d}); std::swap(g[d], t); } break; }
                case 7: add(r.chance(30) ? "swp" : "asg", {si, si}); break;
                default: add(r.chance(50) ? "del" : "drp", {si}); t.st = S_RAW;
                }
                continue;
              }
            }
          one: {
            int ai = r.pick(use); Alg& a = A(ai); if (a.kind == K_CODEC) { std::vector<i64> v{si, ai, 0}; psz(a, v); v.push_back(i64(r.below(1u << 20))); v.push_back(pl()); if (t.st == S_RAW) add("new", v); continue; } std::vector<i64> v{ai}; psz(a, v); i64 sz = i64(pick_size(r, blk(a), big)); v.push_back(dseed()); v.push_back(i64(r.below(8))); v.push_back(sz); v.push_back(i64(r.below(8))); v.push_back(i64(r.below(10)));
            v.push_back(a.kind == K_AEAD ? i64(r.below(64)) : a.kind == K_HKDF || a.kind == K_PBKDF2 ? dreq(a) : req(a.digest ? a.digest : 1)); v.push_back(a.kind == K_AEAD ? i64(pick_size(r, 16, 0)) : i64(r.below(100))); v.push_back(pl()); v.push_back(i64(r.below(2)));
            add("one", v); }
        }
        // most histories end by asking every open instance for its result
        if (r.chance(85)) for (int i = 0; i < NS; i++) if (g[i].st == S_OPEN || g[i].st == S_FINAL) { Alg& a = A(g[i].alg);
            if (a.kind == K_CIPHER) add("cry", {i, dseed(), 0, i64(r.below(130)), i64(r.below(2)), 0, 0, 0, 0});
            else if (a.kind == K_HKDF || a.kind == K_PBKDF2) add("der", {i, i64(r.below(2)), i64(r.below(100)), 0, 0});
            else add("dig", {i, i64(r.below(2)), i64(a.digest), 0, 0}); }
        // a derived key of more than 65535 blocks
        if (prop == "C06" && r.below(1200) == 0) { std::vector<size_t> c; for (size_t i = 0; i < p.size(); i++) { if (p[i].k == "new") p[i].a[8] = 1; if (p[i].k == "ini") p[i].a[6] = 1; if (p[i].k == "der") c.push_back(i); } if (!c.empty()) { Op& o = p[r.pick(c)]; o.a[1] &= 1; o.a[2] = 65536 * (r.chance(60) ? 20 : r.chance(50) ? 28 : 32) + r.range(-40, 300); } }
        // now and then one call is so long that a 16 bit count of blocks does not hold it
        if (prop <= "C04" && r.below(1500) == 0) { std::vector<size_t> c; for (size_t i = 0; i < p.size(); i++) if (p[i].k == "fed" || p[i].k == "cry") c.push_back(i); if (!c.empty()) { Op& o = p[r.pick(c)]; static const i64 B[] = {16, 64, 64, 64, 128}; i64 z = o.k == "cry" ? 64 : r.pick(std::vector<i64>(B, B + 5)); i64 n = 65536 * (z == 128 ? 64 : z) / (z == 128 ? 2 : 1) + r.range(-70, 700); if (z == 128) n *= r.chance(50) ? 1 : 2; if (n < (5 << 20) - 300) { o.a[3] = n; o.a[4] &= 1; } } }
        return p;
    }
};
}
World* make_stream(const std::string& p) { return new Stream(p); }
