// Thread world: real threads of one process, each with its own instances.  A
// baton decides which one runs; the plan hands it over between calls or at a
// chosen instruction inside a call (single-stepping), and lets simulated signal
// handlers interrupt a call at a chosen instruction to use the library
// themselves.  Every seed runs in a freshly forked process, so the very first
// uses are part of the schedule.  Blocking primitives (mutexes, once flags,
// function-local statics, futexes) go through the scheduler.
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "world.hpp"

extern void (*g_rearm)(); extern int g_attempt; void engine_step_on();

namespace {
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
}
constexpr int NT = 4; constexpr u64 QUANTUM = 3000;
enum { E_PRE = 1, E_HAN = 2, E_QUANTUM = 3 };
struct Job { int alg = 0; u64 ps = 0; int pm = 0; size_t k = 0, i = 0, n = 0; u32 it = 1; u64 ds = 0; int dm = 0; size_t size = 0; u64 cut = 0; };
struct Ev { int kind = 0; u64 cmin = 0, k = 1; int who = 0; Job job; u64 sub_k = 0; int sub_who = 0; };
struct Th { std::vector<Job> jobs; std::vector<Ev> ev; size_t at = 0; u64 calls = 0; bool done = true, failed = false; pthread_t id; std::string cls, msg; u64 consumed = 0; bool armed_q = false; };

Th T[NT]; int nthreads; std::atomic<int> turn; thread_local int me = -1; thread_local int in_handler = 0;
u64 mix, total_calls, progress, spin_mark, spins; Run* R; u64 ileave; bool deadlocked;
thread_local const Ev* hev; thread_local u64 hconsumed; thread_local bool hused;

void wait_turn(int i) { int v; while ((v = turn.load()) != i) raw_syscall(SYS_futex, (long)&turn, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
int next_alive(int from, int who) {
    if (who >= 0 && who < nthreads && who != from && !T[who].done) return who;
    for (int d = 1; d <= nthreads; d++) { int j = (from + d) % nthreads; if (!T[j].done && j != from) return j; }
    return -1;
}
void give(int to) { turn.store(to); raw_syscall(SYS_futex, (long)&turn, FUTEX_WAKE_PRIVATE, 100, 0, 0, 0); }
bool hand_over(int who, u64 where) {
    int n = next_alive(me, who); if (n < 0) return false;
    u64 v[3] = {u64(me), u64(n), where}; ileave = fnv(v, sizeof v, ileave);
    int i = me; give(n); wait_turn(i); return true;
}
// ---- the event that comes next for the running thread ---------------------------
Ev* upcoming() { Th& t = T[me]; if (t.at >= t.ev.size()) return nullptr; Ev* e = &t.ev[t.at]; return e->cmin <= t.calls ? e : nullptr; }
u64 base_steps; thread_local u64 arm_base;   // instruction count of the window when the distance starts
void arm_next() {
    tl.act = 0; arm_base = tl.steps;
    if (me < 0) return;
    if (in_handler) {
        if (g_attempt) { tl.act = A_YIELD; tl.act_at = tl.steps + QUANTUM; }
        else if (hev && hev->sub_k && !hused) { tl.act = A_YIELD; tl.act_at = tl.steps + (hev->sub_k > hconsumed ? hev->sub_k - hconsumed : 1); }
        return;
    }
    Th& t = T[me]; Ev* e = upcoming(); t.armed_q = false;
    if (e) { u64 d = e->k > t.consumed ? e->k - t.consumed : 1; if (g_attempt && d > QUANTUM) { d = QUANTUM; t.armed_q = true; } tl.act = t.armed_q || e->kind == E_PRE ? A_YIELD : A_HANDLER; tl.act_at = tl.steps + d; }
    else if (g_attempt) { t.armed_q = true; tl.act = A_YIELD; tl.act_at = tl.steps + QUANTUM; }
}
// instructions executed since arming count towards the event even if it did not fire
void settle() {
    if (me < 0) return; u64 d = tl.steps - arm_base; arm_base = tl.steps;
    if (in_handler) hconsumed += d; else if (upcoming()) T[me].consumed += d;
}
void run_job(const Job&);
void rearm() { arm_next(); }
void on_handler() {
    Th& t = T[me]; Ev& e = t.ev[t.at]; t.at++; t.consumed = 0; progress++;
    R->count("fault_signal_handler"); u64 v[3] = {u64(me), t.calls, 77}; ileave = fnv(v, sizeof v, ileave);
    R->sig(fnv(v, sizeof v, u64(e.job.alg) * 977 + e.k));
    const Ev* ph = hev; hev = &e; u64 pc = hconsumed; hconsumed = 0; bool pu = hused; hused = false; in_handler++;
    run_job(e.job);
    in_handler--; hev = ph; hconsumed = pc; hused = pu;
}
void on_yield(int why) {
    if (me < 0) { if (why == 1) return; g_fault_kind = 1001; snprintf(g_fault, sizeof g_fault, "a call waits for itself"); siglongjmp(*tl.run, 1); }
    if (why == 1) {
        progress++;
        if (in_handler) { if (!g_attempt) hused = true; hconsumed = 0; R->count("fault_preempted_inside_handler"); hand_over(hev ? hev->sub_who : -1, T[me].calls * 1000003 + 7); return; }
        Th& t = T[me];
        if (t.armed_q) { t.consumed += QUANTUM; hand_over(-1, 3); return; }
        Ev& e = t.ev[t.at]; t.at++; t.consumed = 0;
        R->count("fault_preempted_inside_call"); R->sig(fnv(&e.k, 8, t.calls * 31 + u64(me)));
        hand_over(e.who, t.calls * 1000003 + e.k); return;
    }
    // a blocking primitive: let the others go on
    struct Pause { int d = tl.depth; Pause() { tl.depth = 0; } ~Pause() { tl.depth = d; if (tl.act) engine_step_on(); } } pause; // (no stepping in here)
    R->count("waits_for_another_thread");
    if (spin_mark != progress) { spin_mark = progress; spins = 0; }
    if (++spins > 20000 || !hand_over(-1, 5)) { g_fault_kind = 1001; snprintf(g_fault, sizeof g_fault, "deadlock: the call waits for something that can never happen%s", in_handler ? " (inside a signal handler that interrupted another call)" : ""); siglongjmp(*tl.run, 1); }
}
struct JobFail { std::string cls, msg; };
void job_fail(const char* cls, const std::string& m) { Th& t = T[me]; if (!t.failed) { t.failed = true; t.cls = cls; t.msg = fmt("thread %d%s: ", me, in_handler ? " (signal handler)" : "") + m; } }

void tcall(Alg& a, Call& c) {
    Th& t = T[me];
    if (!in_handler && mix) { u64 h = (mix * 0x9E3779B97F4A7C15ULL) ^ (total_calls * 0xBF58476D1CE4E5B9ULL); h ^= h >> 29; h *= 0x94D049BB133111EBULL; h ^= h >> 32; if (h % 3 == 0) { if (hand_over(int(h / 7 % u64(nthreads)), total_calls)) R->count("switches_between_calls"); } }
    total_calls++; R->count("library_calls");
    tl.steps = 0; tl.mon = 0; arm_next(); arm_base = 0;
    a.exec(c);
    settle(); tl.act = 0; progress++;
    if (!in_handler) t.calls++;
    if (c.threw != T_NONE) job_fail("exception", fmt("%s: op %d io %d threw (%d)", a.name.c_str(), c.op, c.io, c.threw));
}
void check(const Alg& a, const Call& c, const u8* out, const bytes& e, const char* what) {
    R->count("outputs_judged");
    const u8* g = c.used_got ? c.got.data() : out; size_t n = c.used_got ? c.got.size() : c.ret;
    if (c.ret != e.size() || n != e.size()) { job_fail("size", fmt("%s: %s reports %zu bytes, %zu expected", a.name.c_str(), what, c.ret, e.size())); return; }
    R->log(g, n);
    for (size_t i = 0; i < n; i++) if (g[i] != e[i]) { job_fail("wrong-output", fmt("%s: %s: byte %zu of %zu differs from what the thread gets alone: got %s expected %s", a.name.c_str(), what, i, n, hex(g + i / 16 * 16, n - i / 16 * 16, 16).c_str(), hex(e.data() + i / 16 * 16, n - i / 16 * 16, 16).c_str())); return; }
}
struct Storage { bytes raw; u8* p; Storage(const Alg& a) : raw(a.size + a.align + 64) { p = raw.data(); size_t al = a.align ? a.align : 1; p += (al - u64(p) % al) % al; } };

void run_job(const Job& j) {
    Alg& a = *algs()[size_t(j.alg) % algs().size()]; Rng r(j.cut);
    bytes d = gen_bytes(j.ds, j.dm, j.size); bool failed0 = T[me].failed; (void)failed0;
    auto done = [&] { return T[me].failed; };
    R->count("jobs");
    if (a.kind == K_CODEC) {
        std::string e = a.hash == 16 ? ref::b16enc(d) : ref::b64enc(d); bytes eb(e.begin(), e.end()), o(e.size() + 8), back(e.size() + 8);
        Call c; c.op = O_ENC; c.io = in_handler ? 0 : int(r.below(2)); c.in = {d.data(), d.size()}; c.out = {o.data(), o.size()}; tcall(a, c); if (done()) return; check(a, c, o.data(), eb, "encode"); if (done()) return;
        Call q; q.op = O_DEC; q.io = in_handler ? 0 : int(r.below(2)); q.in = {eb.data(), eb.size()}; q.out = {back.data(), back.size()}; tcall(a, q); if (done()) return; check(a, q, back.data(), d, "decode"); return;
    }
    Params p = gen_params(a, j.ps, j.pm, j.k, j.i, j.n, j.it, 0);
    Model m; m.fresh(p);
    Storage s1(a), s2(a); u8* self = s1.p;
    auto base = [&](int op) { Call c; c.op = op; c.self = self; c.key = {p.kin().data(), p.kin().size()}; c.iv = {p.iin().data(), p.iin().size()}; c.info = {p.info.data(), p.info.size()}; c.iters = p.iters; return c; };
    if (r.chance(70)) { Call c = base(O_CTOR_INIT); c.ii = 0; tcall(a, c); }
    else { Call c = base(O_CTOR); tcall(a, c); Call i = base(O_INIT); i.ii = int(r.below(2)); tcall(a, i); }
    if (done()) return;
    auto maybe_copy = [&] { if (!r.chance(12)) return; u8* to = self == s1.p ? s2.p : s1.p; Call c = base(O_COPY); c.self = to; c.other = self; tcall(a, c); Call x = base(O_DTOR); tcall(a, x); self = to; };
    auto pieces = [&](size_t n) { std::vector<size_t> v; size_t at = 0; int k = int(r.below(4)); while (k-- && at < n) { size_t q = r.below(n - at + 1); v.push_back(q); at += q; } v.push_back(n - at); return v; };
    auto absorb = [&](const bytes& x) { size_t at = 0; for (size_t q : pieces(x.size())) { Call c = base(O_ABSORB); c.ii = int(r.below(2)); c.in = {x.data() + at, q}; tcall(a, c); if (done()) return; at += q; maybe_copy(); } };
    if (a.kind == K_HASH || a.kind == K_HMAC || a.kind == K_POLY) { absorb(d); m.data = d; }
    if (a.kind == K_AEAD) { bytes ad = gen_bytes(j.ds ^ 0x77, j.dm + 1, j.n % 200); absorb(ad); m.aad = ad; if (done()) return; if (!a.apie) { Call c = base(O_AADOVER); tcall(a, c); } }
    if (done()) return;
    if (a.kind == K_CIPHER || a.kind == K_AEAD) {
        bool dec = r.chance(50); size_t at = 0; bytes o(d.size() + 64);
        for (size_t q : pieces(d.size())) {
            Call c = base(O_CRYPT); c.io = int(r.below(2)); c.dec = dec; c.in = {d.data() + at, q}; c.out = {o.data(), q}; tcall(a, c); if (done()) return;
            bytes in(d.begin() + i64(at), d.begin() + i64(at + q)); bytes e = model_crypt(a, p, at, in); check(a, c, o.data(), e, dec ? "decrypt" : "encrypt"); if (done()) return;
            const bytes& ct = dec ? in : e; m.data.insert(m.data.end(), ct.begin(), ct.end()); at += q; maybe_copy();
        }
    }
    if (a.kind == K_HKDF || a.kind == K_PBKDF2) {
        size_t tot = std::min(d.size(), a.kind == K_HKDF ? size_t(600) : size_t(150)), at = 0; bytes o(tot + 64);
        for (size_t q : pieces(tot)) { Call c = base(O_DERIVE); c.io = int(r.below(2)); c.req = q; c.out = {o.data(), q}; tcall(a, c); if (done()) return; check(a, c, o.data(), model_kdf(a, m, at, q), "derive"); if (done()) return; at += q; maybe_copy(); }
    } else if (a.kind != K_CIPHER) {
        if (!a.apie) { Call c = base(O_FINALIZE); tcall(a, c); if (done()) return; }
        for (int rep = r.chance(20) ? 2 : 1; rep--;) {
            bytes o(a.digest + 64); Call c = base(O_DIGEST); c.io = a.apie && !in_handler ? int(r.below(6)) : int(r.below(2)); c.req = a.digest; c.out = {o.data(), a.digest}; tcall(a, c); if (done()) return;
            check(a, c, o.data(), model_digest(a, m), "digest"); if (done()) return;
        }
    }
    Call x = base(O_DTOR); tcall(a, x);
}
void thread_body(void* arg) { Th& t = *(Th*)arg; for (auto& j : t.jobs) { run_job(j); if (t.failed) return; R->sig(fnv(&ileave, 8, u64(me) * 131 + t.calls)); } }
void* thread_main(void* arg) {
    Th& t = *(Th*)arg; me = int(&t - T); wait_turn(me);
    if (guarded(thread_body, &t)) { if (!t.failed) { t.failed = true; t.cls = g_fault_kind == 1001 ? "deadlock" : "crash"; t.msg = fmt("thread %d%s: %s", me, in_handler ? " (signal handler)" : "", g_fault); } }
    t.done = true; progress++;
    int n = next_alive(me, -1); bool any = false; for (int i = 0; i < nthreads; i++) any = any || T[i].failed;
    (void)any; give(n < 0 ? 1000 : n); me = -1; return nullptr;
}
void on_watchdog(int) { _exit(g_attempt ? 78 : 77); }

Job job_of(const Op& o, size_t i) { Job j; j.alg = int(u64(o.at(i)) % algs().size()); j.ps = u64(o.at(i + 1)); j.pm = int(o.at(i + 2)); j.k = size_t(o.at(i + 3)); j.i = size_t(o.at(i + 4)); j.n = size_t(o.at(i + 5)); j.it = u32(o.at(i + 6)); j.ds = u64(o.at(i + 7)); j.dm = int(o.at(i + 8)); j.size = size_t(o.at(i + 9)); j.cut = u64(o.at(i + 10)); return j; }

struct Threads : World {
    explicit Threads(const std::string& p) { prop = p; }
    bool fork_per_seed() override { return true; }
    void exec(const Plan& p, Run& r) override {
        R = &r; nthreads = NT; for (auto& t : T) t = Th(); mix = total_calls = progress = spins = 0; ileave = 1; u64 c0 = g_cpuid_calls;
        for (auto& o : p) {
            if (o.k == "mix") mix = u64(o.at(0));
            else if (o.k == "job") T[u64(o.at(0)) % NT].jobs.push_back(job_of(o, 1));
            else if (o.k == "pre") { Ev e; e.kind = E_PRE; e.cmin = u64(o.at(1)); e.k = u64(o.at(2) < 1 ? 1 : o.at(2)); e.who = int(o.at(3)); T[u64(o.at(0)) % NT].ev.push_back(e); }
            else if (o.k == "han") { Ev e; e.kind = E_HAN; e.cmin = u64(o.at(1)); e.k = u64(o.at(2) < 1 ? 1 : o.at(2)); e.sub_k = u64(o.at(3)); e.sub_who = int(o.at(4)); e.job = job_of(o, 5); T[u64(o.at(0)) % NT].ev.push_back(e); }
        }
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_watchdog; sigaction(SIGPROF, &sa, nullptr); hang_arm(g_attempt ? 60 : 10);
        g_handler = on_handler; g_yield = on_yield; g_rearm = rearm; turn = -1;
        int first = -1;
        for (int i = 0; i < NT; i++) T[i].done = T[i].jobs.empty();
        for (int i = 0; i < NT; i++) if (!T[i].done) { if (first < 0) first = i; if (pthread_create(&T[i].id, nullptr, thread_main, &T[i])) _exit(92); }
        if (first >= 0) give(first);
        for (int i = 0; i < NT; i++) if (!T[i].jobs.empty()) pthread_join(T[i].id, nullptr);
        hang_arm(0);
        for (int i = 0; i < NT; i++) if (T[i].failed) r.fail(T[i].cls, T[i].msg);
        r.log(ileave); r.count("operations", total_calls); r.count("threads", 0); for (auto& t : T) { r.count("threads", !t.jobs.empty()); r.count("instructions_stepped", 0); }
        r.count("cpuid_calls_in_runs", g_cpuid_calls - c0); if (g_attempt) r.count("runs_repeated_with_preemption_everywhere");
        r.sig(ileave);
    }
    Plan gen(u64 seed) override {
        Rng r(seed); Plan p; auto& al = algs();
        int nt = int(r.range(2, NT));
        // related algorithms: they share code, back ends and first uses
        int lead = int(r.below(al.size())); std::vector<int> same; for (size_t i = 0; i < al.size(); i++) { auto &x = *al[i], &y = *al[size_t(lead)]; if (x.kind == y.kind && x.hash == y.hash) same.push_back(int(i)); }
        std::vector<int> akin; for (size_t i = 0; i < al.size(); i++) { auto &x = *al[i], &y = *al[size_t(lead)]; bool ch = (x.kind == K_CIPHER || x.kind == K_AEAD) && (y.kind == K_CIPHER || y.kind == K_AEAD), po = (x.kind == K_POLY || x.kind == K_AEAD) && (y.kind == K_POLY || y.kind == K_AEAD); if (ch || po || (x.hash >= 0 && x.hash == y.hash) || x.kind == y.kind) akin.push_back(int(i)); }
        int style = int(r.below(10));
        auto alg = [&]() { return style < 4 ? r.pick(same) : style < 8 ? r.pick(akin) : int(r.below(al.size())); };
        std::vector<std::vector<i64>> jobs;
        auto job = [&](std::vector<i64>& v, bool small) {
            int ai = alg(); Alg& a = *al[size_t(ai)]; size_t B = a.kind == K_POLY || a.kind == K_AEAD ? 16 : a.kind == K_CIPHER || a.kind == K_CODEC ? 64 : ref::hash_block(a.hash);
            size_t sz = pick_size(r, B, 0); if (small) sz %= 400; if (a.kind == K_CIPHER && r.chance(30)) sz += 512;
            for (i64 x : {i64(ai), i64(r.below(1u << 30)), i64(r.below(32)), i64(r.below(r.chance(80) ? 140 : 300)), i64(r.below(100)), i64(r.below(100)), i64(1 + r.below(small ? 3 : 6)), i64(r.below(1u << 30)), i64(r.below(8)), i64(sz), i64(r.below(1u << 30))}) v.push_back(x);
            size_t v0 = v.size() - 11; // keys, salts and messages of an earlier job, in the same or another thread
            if (!jobs.empty() && r.chance(25)) { auto q = r.pick(jobs); bool m = r.chance(40); for (size_t i = 1; i < 11; i++) if (m || i < 6) v[v0 + i] = q[i]; if (small) { v[v0 + 9] %= 400; } if (!m && r.chance(40)) v[v0 + 1] = (r.chance(50) ? (v[v0 + 1] & ~32767LL) | i64(r.below(32768)) : (v[v0 + 1] & 32767) | i64(r.below(32768)) << 15); }
            jobs.push_back(std::vector<i64>(v.begin() + i64(v0), v.end()));
        };
        auto dist = [&]() { i64 k = i64(1) << r.below(r.chance(85) ? 13 : 15); return i64(1 + r.below(u64(k))); };
        p.push_back({"mix", {r.chance(60) ? i64(1 + r.below(1000000)) : 0}});
        for (int t = 0; t < nt; t++) {
            int nj = int(r.range(1, 3)); for (int i = 0; i < nj; i++) { std::vector<i64> v{t}; job(v, false); p.push_back({"job", v}); }
            int ne = int(r.below(5)); i64 at = 0;
            for (int i = 0; i < ne; i++) {
                at += r.chance(50) ? 0 : i64(r.below(6));
                if (r.chance(65)) p.push_back({"pre", {t, at, dist(), i64(r.below(u64(nt)))}});
                else { std::vector<i64> v{t, at, dist(), r.chance(25) ? dist() : 0, i64(r.below(u64(nt)))}; job(v, true); p.push_back({"han", v}); }
            }
        }
        return p;
    }
};
}
// ---- blocking primitives under the scheduler -----------------------------------------
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!tl.depth || !g_yield) return real(m);
    int e; while ((e = pthread_mutex_trylock(m)) == EBUSY) g_yield(2); return e;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!tl.depth || !g_yield) { static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return real(m); } int e; while ((e = pthread_rwlock_tryrdlock(m)) == EBUSY) g_yield(2); return e; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!tl.depth || !g_yield) { static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return real(m); } int e; while ((e = pthread_rwlock_trywrlock(m)) == EBUSY) g_yield(2); return e; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    int* s = (int*)o;
    while (true) {
        int v = __atomic_load_n(s, __ATOMIC_ACQUIRE); if (v == 2) return 0;
        if (v == 0) { __atomic_store_n(s, 1, __ATOMIC_RELEASE); try { f(); } catch (...) { __atomic_store_n(s, 0, __ATOMIC_RELEASE); throw; } __atomic_store_n(s, 2, __ATOMIC_RELEASE); return 0; }
        if (g_yield) g_yield(2); else sched_yield();
    }
}
int sched_yield() noexcept { if (tl.depth && g_yield) { g_yield(2); return 0; } return int(raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); }
long syscall(long n, ...) noexcept {
    va_list v; va_start(v, n); long a[6]; for (auto& x : a) x = va_arg(v, long); va_end(v);
    if (n == SYS_futex && tl.depth && g_yield && (a[1] & 0x7f) != FUTEX_WAKE && (a[1] & 0x7f) != FUTEX_WAKE_BITSET) { g_yield(2); errno = EAGAIN; return -1; }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r;
}
}
World* make_threads(const std::string& p) { return new Threads(p); }
