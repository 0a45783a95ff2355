// Fixed traffic of the very long streams: one megabyte that repeats.
#pragma once
#include "core.hpp"
constexpr size_t HP = 1 << 20;
constexpr u64 HMARK[3] = {(1ULL << 29) - HP, (1ULL << 31) - HP, (1ULL << 32) - HP};
inline const bytes& hpat() { static const bytes b = [] { bytes x = gen_bytes(777, 0, HP); for (size_t i = 0; i < 5000; i++) x[70000 + i] = 0xFF; return x; }(); return b; }
inline bytes hkey() { return gen_bytes(5, 0, 40); }
inline bytes akey() { return gen_bytes(41, 0, 32); }
inline bytes aiv() { return gen_bytes(42, 0, 12); }
inline bytes aaad() { return gen_bytes(43, 0, 37); }
struct Mid { int what, hash; u64 pos; u64 v[8]; };   // what: 0 hash, 1 inner hash of HMAC under hkey(), 2 Poly1305 of the sealed pattern
