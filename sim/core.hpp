// Simulation core: seeded PRNG, plans (the replayable schedule + fault trace),
// event-log hash, violations, coverage counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "ref.hpp"

using ref::u8; using ref::u32; using ref::u64; using ref::bytes;
typedef long long i64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + i64(below(u64(b - a + 1))); }
    bool chance(int pct) { return below(100) < u64(pct); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Op { std::string k; std::vector<i64> a; i64 at(size_t i) const { return i < a.size() ? a[i] : 0; } };
typedef std::vector<Op> Plan;

inline std::string plan_text(const Plan& p) {
    std::string s; char b[32];
    for (auto& o : p) { s += o.k; for (auto v : o.a) { snprintf(b, sizeof b, " %lld", v); s += b; } s += '\n'; }
    return s;
}
inline Plan plan_parse(const std::string& t) {
    Plan p; size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(i, e - i); i = e + 1;
        if (l.empty() || l[0] == '#') continue;
        Op o; size_t j = l.find(' '); o.k = l.substr(0, j);
        while (j != std::string::npos && j < l.size()) { char* q; i64 v = strtoll(l.c_str() + j, &q, 10); o.a.push_back(v); j = size_t(q - l.c_str()); if (j >= l.size()) break; }
        p.push_back(o);
    }
    return p;
}

inline u64 fnv(const void* p, size_t n, u64 h = 0xcbf29ce484222325ULL) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; } return h; }

// One simulated run: everything observable goes through here.
struct Run {
    u64 seed = 0, hash = 0xcbf29ce484222325ULL, events = 0;
    bool failed = false; std::string cls, msg;
    std::map<std::string, u64> stat;   // counters (faults injected, ops, ...)
    std::unordered_set<u64> sigs;      // distinct states / interleavings reached
    u64 cfg = 0;                        // CPU configuration of this process
    void log(const void* p, size_t n) { hash = fnv(p, n, hash); events++; }
    void log(const bytes& b) { log(b.data(), b.size()); }
    void log(u64 v) { log(&v, 8); }
    void log(const char* s) { log(s, strlen(s)); }
    void fail(const std::string& c, const std::string& m) { if (failed) return; failed = true; cls = c; msg = m; log(c.c_str()); }
    void count(const char* k, u64 n = 1) { stat[k] += n; }
    void sig(u64 v) { sigs.insert(v); }
};

inline std::string hex(const u8* p, size_t n, size_t max = 48) {
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", p[i]); s += b; }
    if (n > max) s += "..";
    return s;
}
inline std::string hex(const bytes& b) { return hex(b.data(), b.size()); }
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char* f, ...) { char b[2048]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }

// Edge-biased byte strings, a pure function of (seed, mode).
inline bytes gen_bytes(u64 seed, int mode, size_t n) {
    bytes b(n); Rng r(seed ^ 0xD47A);
    switch (mode % 8) {
    case 0: case 1: case 2: { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(&b[i], &v, 8); } u64 v = r.next(); if (n > i) memcpy(&b[i], &v, n - i); break; }
    case 3: memset(b.data(), 0xFF, n); break;
    case 4: break;
    case 5: for (size_t i = 0; i < n;) { size_t l = 1 + r.below(40); u8 c = r.chance(50) ? 0xFF : r.chance(40) ? 0 : u8(r.next()); while (l-- && i < n) b[i++] = c; } break;
    case 6: for (size_t i = 0; i < n; i++) b[i] = u8(i); break;
    default: for (size_t i = 0; i < n; i++) { u64 k = i % 16; b[i] = k == 0 ? u8(0xF8 + r.below(8)) : k == 15 ? u8(r.below(6)) + 0xFA : 0xFF; } break; // near 2^130-5 per block
    }
    return b;
}
