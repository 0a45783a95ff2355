// The assembly library as built for the Windows calling convention, behind the same entry points.
// In a run with g_wind set every entry goes to that variant: arguments in rcx, rdx, r8, r9 and on the stack above
// 32 bytes of shadow space, rbx rbp rdi rsi r12-r15 xmm6-xmm15 preserved, nothing below the stack pointer is safe.
#include "engine.hpp"
#include <cstring>
extern "C" { alignas(16) u64 wind_junk[28]; u64 wind_call(void* fn, const u64* args, u64* save); }
asm(R"(
.text
.globl wind_call
wind_call:
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    sub $72, %rsp
    mov %rdx, 56(%rsp)
    mov %rdi, %rax
    mov %rsi, %r10
    mov 32(%r10), %r11
    mov %r11, 32(%rsp)
    lea wind_junk(%rip), %r11
    mov 0(%r11), %rbx
    mov %rbx, 0(%rsp)
    mov %rbx, 8(%rsp)
    mov %rbx, 16(%rsp)
    mov %rbx, 24(%rsp)
    mov 0(%r10), %rcx
    mov 8(%r10), %rdx
    mov 16(%r10), %r8
    mov 24(%r10), %r9
    mov 8(%r11), %rbp
    mov 16(%r11), %rdi
    mov 24(%r11), %rsi
    mov 32(%r11), %r12
    mov 40(%r11), %r13
    mov 48(%r11), %r14
    mov 56(%r11), %r15
    movdqa 64(%r11), %xmm6
    movdqa 80(%r11), %xmm7
    movdqa 96(%r11), %xmm8
    movdqa 112(%r11), %xmm9
    movdqa 128(%r11), %xmm10
    movdqa 144(%r11), %xmm11
    movdqa 160(%r11), %xmm12
    movdqa 176(%r11), %xmm13
    movdqa 192(%r11), %xmm14
    movdqa 208(%r11), %xmm15
    movdqa %xmm6, %xmm0
    movdqa %xmm7, %xmm1
    movdqa %xmm8, %xmm2
    movdqa %xmm9, %xmm3
    movdqa %xmm6, %xmm4
    movdqa %xmm7, %xmm5
    mov %rbx, %r10
    mov %rbx, %r11
    call *%rax
    mov 56(%rsp), %r11
    mov %rbx, 0(%r11)
    mov %rbp, 8(%r11)
    mov %rdi, 16(%r11)
    mov %rsi, 24(%r11)
    mov %r12, 32(%r11)
    mov %r13, 40(%r11)
    mov %r14, 48(%r11)
    mov %r15, 56(%r11)
    movdqu %xmm6, 64(%r11)
    movdqu %xmm7, 80(%r11)
    movdqu %xmm8, 96(%r11)
    movdqu %xmm9, 112(%r11)
    movdqu %xmm10, 128(%r11)
    movdqu %xmm11, 144(%r11)
    movdqu %xmm12, 160(%r11)
    movdqu %xmm13, 176(%r11)
    movdqu %xmm14, 192(%r11)
    movdqu %xmm15, 208(%r11)
    add $72, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbx
    pop %rbp
    ret
)");
static u64 wind(const char* name, void* fn, u64 a, u64 b, u64 c, u64 d, u64 e) {
    if (!wind_junk[0]) for (u64 i = 0; i < 28; i++) wind_junk[i] = (i + 3) * 0x9E3779B97F4A7C15ULL;
    u64 args[5] = {a, b, c, d, e}, save[28]; g_wind_calls++;
    u64 r = wind_call(fn, args, save);
    static const char* nm[18] = {"rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15"};
    if (!g_abi[0]) for (int i = 0; i < 28; i++) if (save[i] != wind_junk[i]) { strcpy(g_abi, name); strcat(g_abi, " (Windows convention) returned with "); strcat(g_abi, nm[i < 8 ? i : 8 + (i - 8) / 2]); strcat(g_abi, " changed"); break; }
    return r;
}
#define WIND(n) extern "C" u64 simreal_##n(u64, u64, u64, u64, u64); extern "C" char simwin_##n[]; extern "C" u64 n(u64 a, u64 b, u64 c, u64 d, u64 e) { if (!g_wind) return simreal_##n(a, b, c, d, e); return wind(#n, (void*)simwin_##n, a, b, c, d, e); }
#include "wind.inc"

// both variants of the processor query give the same answer
extern "C" __attribute__((weak)) char simwin_milo_internal_arch_x86_64_cpuid[]; extern "C" __attribute__((weak)) u64 simreal_milo_internal_arch_x86_64_cpuid(u64, u64, u64, u64, u64);
void wind_cpuid_check() {
    if (!simwin_milo_internal_arch_x86_64_cpuid || !simreal_milo_internal_arch_x86_64_cpuid) return;
    for (u64 leaf : {0, 7}) {
        u32 x[2][4]; memset(x, 0xEE, sizeof x); simreal_milo_internal_arch_x86_64_cpuid(u64(x[0]), leaf, 0, 0, 0); wind("cpuid", simwin_milo_internal_arch_x86_64_cpuid, u64(x[1]), leaf, 0, 0, 0);
        if (memcmp(x[0], x[1], 16) && !g_abi[0]) strcpy(g_abi, "cpuid (Windows convention) gives another answer than the processor");
    }
}
