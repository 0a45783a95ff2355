// The simulator proper: the window around every library call, the
// single-step engine (preemption, crash, nested handlers, instruction-set and
// calling-convention monitors), the simulated CPU, the allocator seam, faults,
// guarded memory.
#pragma once
#include <csetjmp>
#include <ucontext.h>
#include "alg.hpp"

enum Act { A_NONE = 0, A_CRASH = 1, A_HANDLER = 2, A_YIELD = 3 };
enum Mon { M_ISA = 1, M_ABI = 2, M_COUNT = 4 };

struct Shadow { u64 rsp, r[6]; };

struct Tl {                        // per-thread simulator state
    int depth = 0;                 // window nesting
    int mon = 0;                   // instruction monitors wanted in windows
    int act = 0; u64 act_at = 0;   // action at the act_at-th library instruction of the window
    bool fired = false;
    u64 steps = 0;                 // library instructions executed in the window
    u64 total_steps = 0;
    u64 maxsteps = 0;
    u64 path = 0;                  // hash of the executed instruction addresses (when stepping)
    u64 mpath = 0;                 // hash of the memory addresses those instructions use
    u64 mrefs = 0;
    int in_guard = 0;              // inside a function-local static initialiser
    sigjmp_buf* crash = nullptr;   // target of A_CRASH
    sigjmp_buf* run = nullptr;     // target of faults
    u64 allocs = 0; int fail_alloc = 0; bool alloc_failed = false;
    bool cpu_state_check = false;
    u32 mxcsr = 0; unsigned short fcw = 0;
    int nsh = 0; Shadow sh[256];
};
extern thread_local Tl tl;
extern void (*g_handler)();        // A_HANDLER body
extern void (*g_yield)(int why);   // A_YIELD body
extern char g_fault[512];          // description of the last fault
extern volatile int g_fault_kind; extern u64 g_fault_addr;
extern bool g_wind; extern u64 g_wind_calls; void wind_cpuid_check() __attribute__((weak)); // see wind.cpp
extern char g_isa[512], g_abi[512];// first violation seen by the monitors
extern u64 g_isa_sites; extern bool g_isa_patched;
extern u64 g_isa_insns, g_avx_insns, g_sha_insns, g_ssse3_insns, g_abi_rets;

// Run f; returns true if it ended by a fault (signal, terminate, hang) described in g_fault.
bool guarded(void (*f)(void*), void* arg);

// Live memory handed out inside windows and not yet returned.
size_t win_live(); void win_live_reset();

struct CpuCfg { const char* name; u32 clear1c, clear1d, clear7b; u32 max_leaf; u32 xcr0; };
extern CpuCfg g_cpu; extern int g_cpu_id; extern bool g_cpu_simulated, g_xgetbv_simulated;
extern u64 g_cpuid_calls, g_xgetbv_calls;
int n_cpu_cfgs();
bool cpu_has_avx(); bool cpu_has_avx2(); bool cpu_has_sha(); bool cpu_has_ssse3();

// Guarded memory: [no access][pages][no access], deterministic addresses.
struct Region { u8* base; size_t size; const char* name; };
enum { R_IN, R_OUT, R_OUT2, R_KEY, R_IV, R_INFO, R_TAG, R_SLOTS, R_SNAP, R_POOL, R_COUNT };
Region& region(int i);
void regions_init();
// mode 0: flush with the end, 1: flush with the start, k >= 2: k-2 bytes before the end
u8* place(int reg, size_t n, int mode);
bool region_protect(int reg, bool ro);

void engine_init();
void hang_arm(int seconds);
