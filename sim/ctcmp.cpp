// The least careful C library the standard permits: comparisons stop at the
// first difference.  Linked in front of libc's for C21, inside the monitored text.
#include <cstddef>
extern "C" __attribute__((noipa, optimize("no-tree-loop-distribute-patterns"))) int memcmp(const void* a, const void* b, size_t n) { auto *x = (const volatile unsigned char*)a, *y = (const volatile unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
extern "C" __attribute__((noipa)) int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
extern "C" __attribute__((noipa, optimize("no-tree-loop-distribute-patterns"))) int strcmp(const char* a, const char* b) { auto *x = (const volatile unsigned char*)a, *y = (const volatile unsigned char*)b; for (;; x++, y++) if (*x != *y || !*x) return *x - *y; }
