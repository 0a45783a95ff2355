#include <cerrno>
#include <csignal>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "engine.hpp"

thread_local Tl tl;
thread_local int g_user_fail_in; thread_local u64 g_user_growths;
void (*g_handler)(); void (*g_yield)(int); void (*g_rearm)(); int g_attempt;
char g_fault[512], g_isa[512], g_abi[512]; volatile int g_fault_kind; u64 g_fault_addr;
u64 g_isa_insns, g_avx_insns, g_sha_insns, g_ssse3_insns, g_abi_rets;
std::vector<Alg*>& algs() { static std::vector<Alg*> v; return v; }

extern "C" char __executable_start, etext, __start_simtext, __stop_simtext; extern "C" __attribute__((weak)) char __start_wintext[], __stop_wintext[];
bool g_wind = false; u64 g_wind_calls;
static inline bool in_wind(u64 a) { return a >= u64(__start_wintext) && a < u64(__stop_wintext); }
static inline bool in_lib(u64 a) { return in_wind(a) || a >= u64(&__executable_start) && a < u64(&etext) && !(a >= u64(&__start_simtext) && a < u64(&__stop_simtext)); }

// ---- simulated CPU ----------------------------------------------------
static const u32 C_SSSE3 = 1u << 9, C_SSE41 = 1u << 19, C_SSE42 = 1u << 20, C_OSX = 1u << 27, C_AVX = 1u << 28, B_AVX2 = 1u << 5, B_SHA = 1u << 29, C_SSE3 = 1u;
static const CpuCfg cfgs[] = {
    {"full", 0, 0, 0, ~0u, ~0u},
    {"no-avx2", 0, 0, B_AVX2, ~0u, ~0u},
    {"no-sha", 0, 0, B_SHA, ~0u, ~0u},
    {"ssse3-only", C_OSX | C_AVX, 0, B_AVX2 | B_SHA, ~0u, 3},
    {"sse2-only", C_SSE3 | C_SSSE3 | C_SSE41 | C_SSE42 | C_OSX | C_AVX, 0, B_AVX2 | B_SHA, 1, 3},
    {"avx-bits-without-osxsave", C_OSX, 0, 0, ~0u, ~0u},
    {"xcr0-without-ymm", 0, 0, 0, ~0u, 3},
    {"max-leaf-1-junk-leaf-7", 0, 0, 0, 1, ~0u},
    {"max-leaf-0", 0, 0, 0, 0, ~0u},
    {"sha-without-avx", C_AVX, 0, B_AVX2, ~0u, ~0u},
    {"avx2-without-avx-bit", C_AVX, 0, 0, ~0u, ~0u},
    {"sha-without-ssse3", C_SSSE3, 0, 0, ~0u, ~0u},
    {"no-ssse3-no-avx", C_SSSE3 | C_AVX, 0, B_AVX2, ~0u, ~0u},
    {"xcr0-ymm-only", 0, 0, 0, ~0u, 5},
    {"no-sse41", C_SSE41 | C_SSE42, 0, 0, ~0u, ~0u},
    {"sha-no-sse3", C_SSE3, 0, 0, ~0u, ~0u},
    {"max-leaf-6", 0, 0, 0, 6, ~0u},
};
CpuCfg g_cpu = cfgs[0]; int g_cpu_id; bool g_cpu_simulated, g_xgetbv_simulated; u64 g_cpuid_calls, g_xgetbv_calls;
int n_cpu_cfgs() { return sizeof cfgs / sizeof cfgs[0]; }
static u32 real0[4], real1[4], real7[4], rep1c, rep7b, rep_xcr0, rep_max;
static void raw_cpuid(u32 l, u32 s, u32* r) { asm volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(l), "c"(s)); }
static void sim_cpuid(u32 l, u32 s, u32* r) {
    g_cpuid_calls++;
    if (l == 0) { memcpy(r, real0, 16); r[0] = rep_max; return; }
    if (l < 0x40000000 && l > rep_max) { // real processors answer leaves above the maximum with unrelated data
        for (int i = 0; i < 4; i++) r[i] = ~0u; return; }
    if (l == 1) { memcpy(r, real1, 16); r[2] = rep1c; r[3] &= ~g_cpu.clear1d; return; }
    if (l == 7 && s == 0) { memcpy(r, real7, 16); r[1] = rep7b; return; }
    if (g_cpu_simulated) syscall(SYS_arch_prctl, 0x1012, 1);
    raw_cpuid(l, s, r);
    if (g_cpu_simulated) syscall(SYS_arch_prctl, 0x1012, 0);
}
bool cpu_has_avx() { return (rep1c & C_AVX) && (rep1c & C_OSX) && (rep_xcr0 & 6) == 6; }
bool cpu_has_avx2() { return cpu_has_avx() && rep_max >= 7 && (rep7b & B_AVX2); }
bool cpu_has_sha() { return rep_max >= 7 && (rep7b & B_SHA); }
bool cpu_has_ssse3() { return rep1c & C_SSSE3; }

// Breakpoints on every library instruction the simulated processor lacks:
// executing one is the violation (recorded, then the original runs).
static const u32* isa_addr; static size_t isa_n; static u8* isa_orig; u64 g_isa_sites; bool g_isa_patched;
struct Patch { u64 addr; u8 orig; int kind; int len; };
static Patch patches[64]; static int npatches;

// ---- faults -------------------------------------------------------------
static int puthex(char* b, u64 v) { char t[20]; int n = 0; do { t[n++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); b[0] = '0'; b[1] = 'x'; for (int i = 0; i < n; i++) b[2 + i] = t[n - 1 - i]; return n + 2; }
static char* cat(char* p, const char* s) { while (*s) *p++ = *s++; *p = 0; return p; }
static char* cath(char* p, u64 v) { p += puthex(p, v); *p = 0; return p; }
static void tf_off() { asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }
static void tf_on() { asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }

void engine_step_on() { tf_on(); }
[[noreturn]] static void fatal_jump() {
    tf_off();
    asm volatile("cld");
    if (tl.run) { siglongjmp(*tl.run, 1); }
    if (write(2, g_fault, strlen(g_fault))) {}
    _exit(99);
}
static char* where(char* p, u64 a) {
    for (int i = 0; i < R_COUNT; i++) { Region& r = region(i); if (!r.base) continue; u64 b = u64(r.base);
        if (a >= b - 65536 && a < b) { p = cat(p, " ("); p = cat(p, r.name); p = cat(p, ": before the start)"); return p; }
        if (a >= b + r.size && a < b + r.size + 65536) { p = cat(p, " ("); p = cat(p, r.name); p = cat(p, ": past the end)"); return p; }
        if (a >= b && a < b + r.size) { p = cat(p, " ("); p = cat(p, r.name); p = cat(p, ": write to read-only input)"); return p; } }
    return p;
}
static void on_fault(int sig, siginfo_t* si, void* c) {
    auto* u = (ucontext_t*)c; auto* g = u->uc_mcontext.gregs; const u8* ip = (const u8*)g[REG_RIP];
    if (sig == SIGSEGV && g_cpu_simulated && si->si_code == SI_KERNEL && ip[0] == 0x0f && ip[1] == 0xa2) {
        u32 r[4]; sim_cpuid(u32(g[REG_RAX]), u32(g[REG_RCX]), r);
        g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; g[REG_RIP] += 2; return;
    }
    g_fault_kind = sig; g_fault_addr = 0;
    char* p = g_fault;
    if (sig == SIGPROF || sig == SIGVTALRM) { p = cat(p, "no progress: the run did not end within its budget"); }
    else {
        p = cat(p, sig == SIGSEGV ? "SIGSEGV" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "signal");
        if (sig == SIGSEGV || sig == SIGBUS) { u64 a = u64(si->si_addr); bool w = g[REG_ERR] & 2; g_fault_addr = a; p = cat(p, w ? " writing " : " reading "); p = cath(p, a); p = where(p, a); }
    }
    fatal_jump();
}
static void on_terminate() { g_fault_kind = 1000; cat(g_fault, "std::terminate (an exception left a function that promises not to throw, or nothing caught it)"); fatal_jump(); }

// ---- monitors -------------------------------------------------------------
enum { F_SSE3 = 1, F_SSSE3 = 2, F_SSE4 = 4, F_SHA = 8, F_AVX = 16, F_AVX2 = 32, F_BMI = 64, F_FMA = 128, F_AVX512 = 256, F_AES = 512, F_XGETBV = 1024, F_POPCNT = 2048 };
static bool in(u8 o, u8 a, u8 b) { return o >= a && o <= b; }
static int classify(const u8* p) {
    bool p66 = false, pf2 = false, pf3 = false;
    for (;; p++) { u8 b = *p; if (b == 0x66) p66 = true; else if (b == 0xf2) pf2 = true; else if (b == 0xf3) pf3 = true; else if (b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65 || b == 0x67 || b == 0xf0) {} else break; }
    (void)p66;
    if ((*p & 0xf0) == 0x40) p++;
    if (*p == 0x62) return F_AVX512;
    if (*p == 0xc5 || *p == 0xc4) {
        int map, L, pp; u8 o, mod;
        if (*p == 0xc5) { map = 1; L = p[1] >> 2 & 1; pp = p[1] & 3; o = p[2]; mod = p[3] >> 6; }
        else { map = p[1] & 31; L = p[2] >> 2 & 1; pp = p[2] & 3; o = p[3]; mod = p[4] >> 6; }
        if (map == 1) {
            if (L && pp && (in(o, 0x60, 0x6d) || in(o, 0x70, 0x76) || in(o, 0xd1, 0xd5) || in(o, 0xd7, 0xe5) || in(o, 0xe8, 0xef) || in(o, 0xf1, 0xf6) || in(o, 0xf8, 0xfe))) return F_AVX | F_AVX2;
            return F_AVX;
        }
        if (map == 2) {
            if (in(o, 0xf2, 0xf7)) return F_BMI;
            if (in(o, 0x96, 0xbf)) return F_FMA;
            if (in(o, 0x45, 0x47) || o == 0x58 || o == 0x59 || o == 0x78 || o == 0x79 || o == 0x5a || o == 0x8c || o == 0x8e || in(o, 0x90, 0x93) || o == 0x16 || o == 0x36) return F_AVX | F_AVX2;
            if ((o == 0x18 || o == 0x19) && mod == 3) return F_AVX | F_AVX2;
            if (L && (in(o, 0x00, 0x0b) || in(o, 0x1c, 0x1e) || in(o, 0x20, 0x25) || in(o, 0x28, 0x2b) || in(o, 0x30, 0x41))) return F_AVX | F_AVX2;
            return F_AVX;
        }
        if (map == 3) {
            if (o == 0xf0) return F_BMI;
            if (o == 0x00 || o == 0x01 || o == 0x02 || o == 0x38 || o == 0x39 || o == 0x46) return F_AVX | F_AVX2;
            if (L && (o == 0x0e || o == 0x0f || o == 0x42 || o == 0x4c)) return F_AVX | F_AVX2;
            return F_AVX;
        }
        return F_AVX;
    }
    if (*p != 0x0f) return 0;
    u8 o = p[1];
    if (o == 0x38) { u8 q = p[2];
        if (in(q, 0x00, 0x0b) || in(q, 0x1c, 0x1e)) return F_SSSE3;
        if (in(q, 0xc8, 0xcd)) return F_SHA;
        if (in(q, 0xdb, 0xdf)) return F_AES;
        if (in(q, 0x10, 0x41)) return F_SSE4;
        if (q == 0xf0 || q == 0xf1) return F_SSE4; // crc32 / movbe
        return 0; }
    if (o == 0x3a) { u8 q = p[2]; if (q == 0x0f) return F_SSSE3; if (q == 0xcc) return F_SHA; if (q == 0xdf || q == 0x44) return F_AES; return F_SSE4; }
    if (o == 0xb8 && pf3) return F_POPCNT;
    if (o == 0x7c || o == 0x7d || o == 0xd0 || (o == 0xf0 && pf2) || (o == 0x12 && (pf2 || pf3)) || (o == 0x16 && pf3)) return F_SSE3;
    if (o == 0x01 && p[2] == 0xd0) return F_XGETBV;
    return 0;
}
static int allowed() {
    int a = 0;
    if (rep1c & C_SSE3) a |= F_SSE3; if (rep1c & C_SSSE3) a |= F_SSSE3; if (rep1c & C_SSE41) a |= F_SSE4;
    if (cpu_has_sha()) a |= F_SHA; if (cpu_has_avx()) a |= F_AVX; if (cpu_has_avx2()) a |= F_AVX2;
    if (rep1c & C_OSX) a |= F_XGETBV; if (rep1c & (1u << 23)) a |= F_POPCNT; if (rep1c & (1u << 25)) a |= F_AES;
    if (cpu_has_avx() && (rep1c & (1u << 12))) a |= F_FMA;
    if (rep_max >= 7 && (rep7b & 8) && (rep7b & 256)) a |= F_BMI;
    if (cpu_has_avx2() && (rep7b & (1u << 16)) && (rep_xcr0 & 0xe0) == 0xe0) a |= F_AVX512;
    return a;
}
static int g_allowed;
static void isa(u64 rip) {
    int n = classify((const u8*)rip);
    g_isa_insns++;
    if (!n) return;
    if (n & F_AVX) g_avx_insns++; if (n & F_SHA) g_sha_insns++; if (n & F_SSSE3) g_ssse3_insns++;
    if ((n & ~g_allowed) && !g_isa[0]) {
        char* p = cat(g_isa, "instruction"); const u8* b = (const u8*)rip;
        for (int i = 0; i < 8; i++) { *p++ = ' '; *p++ = "0123456789abcdef"[b[i] >> 4]; *p++ = "0123456789abcdef"[b[i] & 15]; }
        int m = n & ~g_allowed;
        p = cat(p, " executed, but the processor/OS does not report ");
        p = cat(p, m & F_AVX512 ? "AVX-512" : m & F_AVX2 ? "AVX2 (usable)" : m & F_AVX ? "AVX (usable)" : m & F_SHA ? "SHA" : m & F_SSSE3 ? "SSSE3" : m & F_SSE4 ? "SSE4" : m & F_XGETBV ? "OSXSAVE" : m & F_SSE3 ? "SSE3" : "the extension");
    }
}
static void abi_step(ucontext_t* u) {
    auto* g = u->uc_mcontext.gregs; const u8* p = (const u8*)g[REG_RIP]; u64 rsp = u64(g[REG_RSP]);
    if (*p == 0xf3 || *p == 0xf2 || *p == 0x3e) p++;
    if ((*p & 0xf0) == 0x40) p++;
    if (*p == 0xe8 || (*p == 0xff && ((p[1] >> 3) & 7) == 2)) {
        while (tl.nsh && tl.sh[tl.nsh - 1].rsp <= rsp - 1) { if (tl.sh[tl.nsh - 1].rsp < rsp) tl.nsh--; else break; }
        if (tl.nsh < 256) tl.sh[tl.nsh++] = {rsp, {u64(g[REG_RBX]), u64(g[REG_RBP]), u64(g[REG_R12]), u64(g[REG_R13]), u64(g[REG_R14]), u64(g[REG_R15])}};
        return;
    }
    if (*p == 0xc3 || *p == 0xc2) {
        while (tl.nsh && tl.sh[tl.nsh - 1].rsp - 8 < rsp) tl.nsh--;
        if (!tl.nsh || tl.sh[tl.nsh - 1].rsp - 8 != rsp) return;
        Shadow& s = tl.sh[--tl.nsh]; g_abi_rets++;
        const u64 now[6] = {u64(g[REG_RBX]), u64(g[REG_RBP]), u64(g[REG_R12]), u64(g[REG_R13]), u64(g[REG_R14]), u64(g[REG_R15])};
        static const char* nm[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
        for (int i = 0; i < 6; i++) if (now[i] != s.r[i] && !g_abi[0]) { char* q = cat(g_abi, "a function returned with the callee-saved register "); q = cat(q, nm[i]); cat(q, " changed"); }
        if ((g[REG_EFL] & 0x400) && !g_abi[0]) cat(g_abi, "a function returned with the direction flag set");
    }
}
// Where the next instruction reads or writes memory (table made from the disassembly by check.py).
struct MemRef { u32 addr; int disp; u8 base, idx, scale, pad; };
static const MemRef* mref; static size_t mref_n;
static void mem_step(ucontext_t* u) {
    auto* g = u->uc_mcontext.gregs; u64 rip = u64(g[REG_RIP]); size_t lo = 0, hi = mref_n; while (lo < hi) { size_t m = (lo + hi) / 2; if (mref[m].addr < rip) lo = m + 1; else hi = m; }
    if (lo >= mref_n || mref[lo].addr != rip) return;
    static const int R[17] = {0, REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    const MemRef& m = mref[lo]; u64 a = u64(i64(m.disp)); if (m.base) a += u64(g[R[m.base]]); if (m.idx) a += u64(g[R[m.idx]]) * m.scale;
    tl.mpath = (tl.mpath ^ a) * 0x100000001b3ULL; tl.mrefs++;
}
static void on_trap(int, siginfo_t* si, void* c) {
    auto* u = (ucontext_t*)c; auto* g = u->uc_mcontext.gregs; u64 rip = u64(g[REG_RIP]);
    if (si->si_code == SI_KERNEL || si->si_code == TRAP_BRKPT) {
        for (int i = 0; i < npatches; i++) if (patches[i].addr == rip - 1) {
            if (patches[i].kind == 1) { // xgetbv
                g_xgetbv_calls++;
                if (!(rep1c & C_OSX)) { if (!g_isa[0]) cat(g_isa, "xgetbv executed, but the operating system does not report OSXSAVE"); }
                g[REG_RAX] = rep_xcr0; g[REG_RDX] = 0;
            } else { u32 r[4]; sim_cpuid(u32(g[REG_RAX]), u32(g[REG_RCX]), r); g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; }
            g[REG_RIP] = i64(patches[i].addr) + patches[i].len; return;
        }
        if (g_isa_patched) {
            size_t lo = 0, hi = isa_n; while (lo < hi) { size_t m = (lo + hi) / 2; if (isa_addr[m] < rip - 1) lo = m + 1; else hi = m; }
            if (lo < isa_n && isa_addr[lo] == rip - 1 && isa_orig[lo]) { *(u8*)(rip - 1) = isa_orig[lo]; isa(rip - 1); g[REG_RIP] = i64(rip - 1); return; }
        }
        g_fault_kind = SIGTRAP; cat(g_fault, "unexpected breakpoint"); fatal_jump();
    }
    if (!(g[REG_EFL] & 0x100)) return;
    if (tl.depth == 0) { g[REG_EFL] &= ~0x100LL; return; }
    if (!in_lib(rip)) return;
    tl.steps++; tl.total_steps++;
    if (tl.mon & M_ISA) isa(rip);
    if (g_wind && in_wind(rip)) memset((void*)(g[REG_RSP] - 128), 0xA5, 128); // no red zone there
    if (tl.mon & M_ABI) abi_step(u);
    if (tl.mon & M_COUNT) { tl.path = (tl.path ^ rip) * 0x100000001b3ULL; mem_step(u); }
    if (tl.maxsteps && tl.steps > tl.maxsteps) { tl.mon = 0; tl.act = 0; g[REG_EFL] &= ~0x100LL; return; }
    if (tl.act && tl.steps >= tl.act_at) {
        int a = tl.act;
        if (a == A_CRASH) {
            if (tl.in_guard) return;
            tl.act = 0; tl.fired = true; tf_off(); siglongjmp(*tl.crash, 1);
        }
        if (a == A_HANDLER) {
            tl.act = 0; tl.fired = true;
            Tl saved = tl; tl.depth = 0; tl.mon = 0; tl.nsh = 0; tl.fail_alloc = 0;
            int e = errno; int uf = g_user_fail_in; g_user_fail_in = 0;
            g_handler();
            errno = e; g_user_fail_in = uf; u64 ts = tl.total_steps; tl = saved; tl.total_steps += ts - saved.total_steps;
            if (g_rearm) g_rearm();
        } else if (a == A_YIELD) {
            tl.act = 0; tl.fired = true;
            g_yield(1);
            if (g_rearm) g_rearm();
        }
        if (!tl.mon && !tl.act) g[REG_EFL] &= ~0x100LL;
    }
}

// ---- windows ----------------------------------------------------------------
void win_begin() {
    if (tl.depth++ == 0) {
        tl.allocs = 0; tl.alloc_failed = false; tl.steps = 0; tl.nsh = 0;
        if (tl.cpu_state_check) { asm volatile("stmxcsr %0" : "=m"(tl.mxcsr)); asm volatile("fnstcw %0" : "=m"(tl.fcw)); }
        if (tl.mon || tl.act) tf_on();
    }
}
void win_end() {
    if (tl.depth == 1) {
        tf_off();
        if (tl.cpu_state_check) {
            u32 m; unsigned short f; u64 fl; asm volatile("stmxcsr %0" : "=m"(m)); asm volatile("fnstcw %0" : "=m"(f)); asm volatile("pushfq\n popq %0" : "=r"(fl));
            struct { unsigned short c, r0, s, r1, t, r2; u32 x[4]; } env; asm volatile("fnstenv %0\n fldenv %0" : "=m"(env));
            if (((m ^ tl.mxcsr) & 0xffc0) && !g_abi[0]) cat(g_abi, "a call returned with the MXCSR control bits changed");
            if (f != tl.fcw && !g_abi[0]) cat(g_abi, "a call returned with the x87 control word changed");
            if ((fl & 0x400) && !g_abi[0]) cat(g_abi, "a call returned with the direction flag set");
            if (env.t != 0xffff && !g_abi[0]) cat(g_abi, "a call returned with the x87/MMX register stack in use");
            asm volatile("cld"); asm volatile("ldmxcsr %0" :: "m"(tl.mxcsr)); 
        }
    }
    tl.depth--;
}

// ---- allocator seam -----------------------------------------------------------
static void* live_[1024]; static int nlive;
static bool track_live = true; // single-threaded worlds only
size_t win_live() { return size_t(nlive); }
void win_live_reset() { nlive = 0; }
size_t g_alloc_limit = 0; u64 g_alloc_refused = 0; // requests above the limit fail (0: no limit)
static void* sim_alloc(size_t n, bool nothrow, size_t al) {
    if (g_alloc_limit && n > g_alloc_limit) { g_alloc_refused++; if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (tl.depth) {
        tl.allocs++;
        if (tl.fail_alloc && --tl.fail_alloc == 0) { tl.alloc_failed = true; if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    int d = tl.depth; tl.depth = 0; // malloc itself is not counted twice
    void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    tl.depth = d;
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (tl.depth && track_live && nlive < 1024) live_[nlive++] = p;
    return p;
}
static void sim_free(void* p) {
    if (nlive) for (int i = nlive - 1; i >= 0; i--) if (live_[i] == p) { live_[i] = live_[--nlive]; break; }
    int d = tl.depth; tl.depth = 0; free(p); tl.depth = d;
}
void* operator new(size_t n) { return sim_alloc(n, false, 0); }
void* operator new[](size_t n) { return sim_alloc(n, false, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true, 0); }
void* operator new(size_t n, std::align_val_t a) { return sim_alloc(n, false, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, false, size_t(a)); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* malloc(size_t n) { if (tl.depth) tl.allocs++; return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { if (tl.depth) tl.allocs++; return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { if (tl.depth) tl.allocs++; return __libc_realloc(p, n); }

// Function-local statics: progress is decided by the simulator, never by a futex.
extern "C" int __cxa_guard_acquire(long long* g) {
    u8* b = (u8*)g;
    while (true) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        u8 e = 0;
        if (__atomic_compare_exchange_n(b + 1, &e, u8(1), false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { b[1] = 0; return 0; }
            tl.in_guard++; return 1;
        }
        if (g_yield) g_yield(2); else { g_fault_kind = 1001; cat(g_fault, "recursive initialisation of a function-local static"); fatal_jump(); }
    }
}
extern "C" void __cxa_guard_release(long long* g) { u8* b = (u8*)g; tl.in_guard--; __atomic_store_n(b + 1, u8(0), __ATOMIC_RELEASE); __atomic_store_n(b, u8(1), __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(long long* g) { u8* b = (u8*)g; tl.in_guard--; __atomic_store_n(b + 1, u8(0), __ATOMIC_RELEASE); }

// ---- guarded memory --------------------------------------------------------------
static Region regs_[R_COUNT];
Region& region(int i) { return regs_[i]; }
void regions_init() {
    static const struct { int r; size_t kb; const char* n; } d[] = {{R_IN, 5120, "input"}, {R_OUT, 5120, "output"}, {R_OUT2, 64, "digest output"}, {R_KEY, 256, "key"}, {R_IV, 256, "iv/salt"}, {R_INFO, 1024, "info/aad"}, {R_TAG, 64, "tag"}, {R_SLOTS, 256, "instance storage"}, {R_SNAP, 256, "saved instances"}, {R_POOL, 4096, "pool"}};
    u64 at = 0x100000000000ULL;
    for (auto& x : d) {
        size_t n = x.kb * 1024; char* p = (char*)mmap((void*)at, n + 131072, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (char*)at) { fprintf(stderr, "mmap failed\n"); _exit(98); }
        mprotect(p + 65536, n, PROT_READ | PROT_WRITE);
        regs_[x.r] = {(u8*)p + 65536, n, x.n}; at += 0x1000000;
    }
}
u8* place(int reg, size_t n, int mode) {
    Region& r = regs_[reg];
    if (n + 256 > r.size) { fprintf(stderr, "region %s too small for %zu\n", r.name, n); _exit(97); }
    if (mode == 1) return r.base;
    if (mode == 0) return r.base + r.size - n;
    return r.base + r.size - n - size_t(mode - 2) % 192;
}
bool region_protect(int reg, bool ro) { Region& r = regs_[reg]; return mprotect(r.base, r.size, ro ? PROT_READ : PROT_READ | PROT_WRITE) == 0; }

// ---- start-up ----------------------------------------------------------------------
void hang_arm(int s) { itimerval t{{0, 0}, {s, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }
bool guarded(void (*f)(void*), void* arg) {
    sigjmp_buf jb; sigjmp_buf* old = tl.run;
    if (sigsetjmp(jb, 0) == 0) { tl.run = &jb; f(arg); tl.run = old; return false; }
    tl.run = old; tl.depth = 0; tl.act = 0; tl.mon = 0; tl.in_guard = 0; tl.fail_alloc = 0; g_user_fail_in = 0;
    return true;
}
static void add_sig(int s, void (*h)(int, siginfo_t*, void*), int fl) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = h; a.sa_flags = SA_SIGINFO | SA_NODEFER | fl; sigaction(s, &a, nullptr); }
static const char* env_of(char** e, const char* k) { size_t n = strlen(k); for (; e && *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1; return nullptr; }
static void parse_patches(const char* s, int kind, int len) {
    while (s && *s && npatches < 64) { char* q; u64 a = strtoull(s, &q, 16); if (q == s) break; if (a) patches[npatches++] = {a, 0, kind, len}; s = *q == ',' ? q + 1 : q; }
}
static void preinit(int, char**, char** envp) {
    const char* c = env_of(envp, "SIM_CPU"); g_cpu_id = c ? atoi(c) : 0;
    if (g_cpu_id >= 0 && g_cpu_id < n_cpu_cfgs()) g_cpu = cfgs[g_cpu_id];
    else { Rng r{u64(g_cpu_id)}; g_cpu = {"random", 0, 0, 0, ~0u, ~0u};
        for (u32 b : {C_SSE3, C_SSSE3, C_SSE41, C_SSE42, C_OSX, C_AVX}) if (r.chance(30)) g_cpu.clear1c |= b;
        for (u32 b : {B_AVX2, B_SHA}) if (r.chance(30)) g_cpu.clear7b |= b;
        if (r.chance(10)) g_cpu.max_leaf = u32(r.below(7)); if (r.chance(20)) g_cpu.xcr0 = u32(1 + 2 * r.below(3)); }
    raw_cpuid(0, 0, real0); raw_cpuid(1, 0, real1); if (real0[0] >= 7) raw_cpuid(7, 0, real7);
    u32 xlo = 0, xhi = 0; if (real1[2] & C_OSX) asm volatile("xgetbv" : "=a"(xlo), "=d"(xhi) : "c"(0));
    rep_max = real0[0] < g_cpu.max_leaf ? real0[0] : g_cpu.max_leaf;
    rep1c = rep_max >= 1 ? real1[2] & ~g_cpu.clear1c : 0; rep7b = rep_max >= 7 ? real7[1] & ~g_cpu.clear7b : 0; rep_xcr0 = xlo & g_cpu.xcr0;
    g_allowed = allowed();
    add_sig(SIGSEGV, on_fault, SA_ONSTACK); add_sig(SIGILL, on_fault, 0); add_sig(SIGBUS, on_fault, 0); add_sig(SIGFPE, on_fault, 0); add_sig(SIGABRT, on_fault, 0); add_sig(SIGPROF, on_fault, 0);
    add_sig(SIGTRAP, on_trap, 0);
    if (env_of(envp, "SIM_NOCPU")) return;
    if (syscall(SYS_arch_prctl, 0x1012, 0) == 0) g_cpu_simulated = true;
    parse_patches(env_of(envp, "SIM_XGETBV"), 1, 3); g_xgetbv_simulated = npatches > 0 || env_of(envp, "SIM_NOXGETBV");
    if (!g_cpu_simulated) parse_patches(env_of(envp, "SIM_CPUID"), 2, 2);
    if (const char* f = env_of(envp, "SIM_MEM")) {
        int fd = open(f, O_RDONLY); i64 n = fd < 0 ? 0 : lseek(fd, 0, SEEK_END);
        if (n > 0) { mref = (const MemRef*)mmap(nullptr, size_t(n), PROT_READ, MAP_PRIVATE, fd, 0); if (mref == MAP_FAILED) mref = nullptr; else mref_n = size_t(n) / sizeof(MemRef); }
        if (fd >= 0) close(fd);
    }
    if (const char* f = env_of(envp, "SIM_ISA")) {
        int fd = open(f, O_RDONLY); off_t n = fd < 0 ? 0 : lseek(fd, 0, SEEK_END);
        if (n > 0) {
            isa_n = size_t(n) / 4; isa_addr = (const u32*)mmap(nullptr, size_t(n), PROT_READ, MAP_PRIVATE, fd, 0); isa_orig = (u8*)mmap(nullptr, isa_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            u64 b = u64(&__executable_start) & ~4095ULL, e = (u64(&etext) + 4095) & ~4095ULL; mprotect((void*)b, e - b, PROT_READ | PROT_WRITE | PROT_EXEC);
            for (size_t i = 0; i < isa_n; i++) { u64 a = isa_addr[i]; if (!in_lib(a)) continue; int k = classify((const u8*)a); if (k & ~g_allowed & ~F_XGETBV) { isa_orig[i] = *(u8*)a; g_isa_sites++; } }
            for (size_t i = 0; i < isa_n; i++) if (isa_orig[i]) *(u8*)u64(isa_addr[i]) = 0xcc;
            g_isa_patched = true;
        }
        if (fd >= 0) close(fd);
    }
    for (int i = 0; i < npatches; i++) { u64 pg = patches[i].addr & ~4095ULL; mprotect((void*)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC); *(u8*)patches[i].addr = 0xcc; }
}
__attribute__((section(".preinit_array"), used)) static void (*preinit_p)(int, char**, char**) = preinit;
void engine_init() { std::set_terminate(on_terminate); if (!region(0).base) regions_init(); }
