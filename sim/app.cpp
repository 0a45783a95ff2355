// C14: the command-line program.  Every run is one real main() in a forked
// child.  The simulator owns the arguments, every clock (time advances by drawn
// amounts and by the work the assembly back ends do), the output devices (file
// size limit, full disk, closed descriptor, broken or full pipe) and the memory
// limit.  The oracle is a small independent model of the documented command
// line, a strict JSON reader and the arithmetic of the metrics.
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "world.hpp"

int milo_app_main(int, char**);
extern size_t g_alloc_limit; extern u64 g_alloc_refused;

namespace {
constexpr int MAXCLK = 4096;
struct Shm { u64 now, work, unit, seed, mode, nclk, total_refused; u64 mono_calls, real_calls; struct { u64 t, work, w[4], bb; } clk[MAXCLK]; u64 w[4]; u64 bb; int npat; struct { u64 a, b; int who; } pat[64]; u64 found; };   // w: work of SHA-1, SHA-2-256, ChaCha SSSE3, ChaCha AVX2 back ends
Shm* S = nullptr; bool in_app = false;
u64 nclock = 0; // calls of any clock in this process
u64 draw() {
    Rng r(S->seed * 7919 + ++nclock); u64 k = S->mode == 7 ? r.below(7) : S->mode; u64 d = 0;
    switch (k) {
    case 0: d = 0; break;
    case 1: d = 1 + r.below(3); break;
    case 2: d = 1 + r.below(100000); break;
    case 3: d = 1000000 + r.below(5000000000ULL); break;
    case 4: d = 3600000000000ULL + r.below(400000000000000ULL); break; // hours to days
    case 5: d = 30000000000000000ULL + r.below(1000000000000000000ULL); break; // a year to decades
    default: d = r.chance(50) ? 0 : r.below(1 << r.below(40)); break;
    }
    u64 room = 9000000000000000000ULL - std::min<u64>(9000000000000000000ULL, S->now); return std::min(d, room);
}
// which of the results in S->pat (kept there in disguise) stand in the memory of this process: the heap and the stack
constexpr u64 MASK = 0x5a3c96e178d2b40fULL; u8 *g_top = nullptr, *g_heap = nullptr; u64 g_before = 0;
__attribute__((noinline, no_sanitize("all"))) u64 look() {
    u64 f = 0; u8 here; auto scan = [&](const u8* b, const u8* e, int step) { for (const u8* p = b; p + 16 <= e; p += step) { u64 x; memcpy(&x, p, 8); x ^= MASK; for (int i = 0; i < S->npat; i++) if (x == S->pat[i].a) { u64 y; memcpy(&y, p + 8, 8); if ((y ^ MASK) == S->pat[i].b) f |= 1ULL << S->pat[i].who; } } };
    u8* h = (u8*)sbrk(0); if (g_heap && h > g_heap && size_t(h - g_heap) < (64u << 20)) scan(g_heap, h, 4); if (g_top > &here) scan((u8*)(u64(&here - 6000) & ~7ULL), g_top, 1); return f;
}
u64 mono() { S->now += draw(); S->mono_calls++; if (S->nclk < MAXCLK) S->clk[S->nclk] = {S->now, S->work, {S->w[0], S->w[1], S->w[2], S->w[3]}, S->bb}; S->nclk++; if (S->npat && S->nclk == 2) S->found = look() & ~g_before; return S->now; }
u64 real() { S->real_calls++; Rng r(S->seed * 31337 + ++nclock); return 1500000000000000000ULL + r.below(1000000000000000000ULL); } // jumps both ways
u64 sysnow(int c) { timespec t; syscall(SYS_clock_gettime, c, &t); return u64(t.tv_sec) * 1000000000ULL + u64(t.tv_nsec); }
void did(int kind, u64 blocks) { if (!in_app) return; S->work += blocks; S->w[kind] += blocks; u64 d = blocks * S->unit; if (S->now + d < 9100000000000000000ULL) S->now += d; }
}
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(in_app ? mono() : sysnow(CLOCK_MONOTONIC))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(in_app ? real() : sysnow(CLOCK_REALTIME))); }
} }
extern "C" {
int clock_gettime(clockid_t c, timespec* t) noexcept { u64 v = !in_app ? sysnow(int(c)) : c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? real() : c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME ? mono() : S->work * S->unit; t->tv_sec = long(v / 1000000000ULL); t->tv_nsec = long(v % 1000000000ULL); return 0; }
int gettimeofday(timeval* t, void*) noexcept { u64 v = in_app ? real() : sysnow(CLOCK_REALTIME); t->tv_sec = long(v / 1000000000ULL); t->tv_usec = long(v % 1000000000ULL / 1000); return 0; }
time_t time(time_t* t) noexcept { time_t v = time_t((in_app ? real() : sysnow(CLOCK_REALTIME)) / 1000000000ULL); if (t) *t = v; return v; }
clock_t clock() noexcept { return in_app ? clock_t(S->work * S->unit / 1000) : clock_t(sysnow(CLOCK_PROCESS_CPUTIME_ID) / 1000); }
// every basic block of the program passes here (-fsanitize-coverage=trace-pc, the program only): the work of the software back ends
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc() { if (in_app) S->bb++; }
// work meters around the assembly back ends (their real symbols are renamed)
#define METER(k, n, params, args) __attribute__((weak)) u64 simreal_##n params; u64 n params { did(k, METER_BLOCKS); return simreal_##n args; }
#define METER_BLOCKS b
METER(0, milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks, (u64 b, void* s, const void* p), (b, s, p))
METER(1, milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks, (u64 b, void* s, const void* p), (b, s, p))
METER(2, milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_transform, (u64 r, u64 b, const void* s, void* d, const void* p), (r, b, s, d, p))
METER(3, milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_transform, (u64 r, u64 b, const void* s, void* d, const void* p), (r, b, s, d, p))
METER(2, milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_generate, (u64 r, u64 b, const void* s, void* d), (r, b, s, d))
METER(3, milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_generate, (u64 r, u64 b, const void* s, void* d), (r, b, s, d))
}
namespace {
// ---- strict JSON -----------------------------------------------------------
struct J { char t = 0; std::string s; double n = 0; std::vector<J> a; std::vector<std::pair<std::string, J>> o; const J* get(const char* k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; } };
struct Parser {
    const std::string& x; size_t i = 0; std::string err; int depth = 0;
    bool bad(const char* m) { if (err.empty()) err = fmt("%s at byte %zu", m, i); return false; }
    void ws() { while (i < x.size() && (x[i] == ' ' || x[i] == '\n' || x[i] == '\r' || x[i] == '\t')) i++; }
    static bool utf8(const std::string& s) {
        for (size_t k = 0; k < s.size();) { unsigned c = (u8)s[k]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1; if (n < 0 || k + size_t(n) >= s.size()) return false;
            for (int j = 1; j <= n; j++) { unsigned d = (u8)s[k + size_t(j)]; if ((d & 0xC0) != 0x80) return false; if (j == 1 && ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F))) return false; } k += size_t(n) + 1; }
        return true;
    }
    bool str(std::string& r) {
        if (x[i] != '"') return bad("string expected"); i++;
        while (i < x.size() && x[i] != '"') {
            u8 c = u8(x[i]); if (c < 0x20) return bad("control character in a string");
            if (c != '\\') { r += char(c); i++; continue; }
            if (++i >= x.size()) return bad("end in an escape");
            switch (x[i]) { case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
            case 'u': { unsigned v = 0; for (int k = 0; k < 4; k++) { if (++i >= x.size() || !isxdigit(x[i])) return bad("bad \\u escape"); v = v * 16 + unsigned(x[i] <= '9' ? x[i] - '0' : (x[i] | 32) - 'a' + 10); } if (v < 0x80) r += char(v); else if (v < 0x800) { r += char(0xC0 | v >> 6); r += char(0x80 | (v & 63)); } else { r += char(0xE0 | v >> 12); r += char(0x80 | (v >> 6 & 63)); r += char(0x80 | (v & 63)); } break; }
            default: return bad("unknown escape"); }
            i++;
        }
        if (i >= x.size()) return bad("unterminated string"); i++;
        if (!utf8(r)) return bad("string is not UTF-8"); return true;
    }
    bool val(J& v) {
        ws(); if (i >= x.size()) return bad("end of text"); if (++depth > 60) return bad("too deep");
        char c = x[i];
        if (c == '{') { v.t = 'o'; i++; ws(); if (i < x.size() && x[i] == '}') { i++; depth--; return true; } for (;;) { ws(); std::string k; if (i >= x.size() || !str(k)) return bad("key expected"); ws(); if (i >= x.size() || x[i] != ':') return bad("':' expected"); i++; J e; if (!val(e)) return false; if (v.get(k.c_str())) return bad("duplicate key"); v.o.push_back({k, e}); ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == '}') { i++; break; } return bad("',' or '}' expected"); } }
        else if (c == '[') { v.t = 'a'; i++; ws(); if (i < x.size() && x[i] == ']') { i++; depth--; return true; } for (;;) { J e; if (!val(e)) return false; v.a.push_back(e); ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == ']') { i++; break; } return bad("',' or ']' expected"); } }
        else if (c == '"') { v.t = 's'; if (!str(v.s)) return false; }
        else if (!x.compare(i, 4, "true")) { v.t = 'b'; i += 4; } else if (!x.compare(i, 5, "false")) { v.t = 'b'; i += 5; } else if (!x.compare(i, 4, "null")) { v.t = 'z'; i += 4; }
        else { size_t b = i; if (x[i] == '-') i++; if (i >= x.size() || !isdigit(x[i])) return bad("not a JSON value"); if (x[i] == '0') i++; else while (i < x.size() && isdigit(x[i])) i++; if (i < x.size() && x[i] == '.') { i++; if (i >= x.size() || !isdigit(x[i])) return bad("digit expected"); while (i < x.size() && isdigit(x[i])) i++; } if (i < x.size() && (x[i] | 32) == 'e') { i++; if (i < x.size() && (x[i] == '+' || x[i] == '-')) i++; if (i >= x.size() || !isdigit(x[i])) return bad("digit expected"); while (i < x.size() && isdigit(x[i])) i++; } v.t = 'n'; v.s = x.substr(b, i - b); v.n = strtod(v.s.c_str(), nullptr); if (!std::isfinite(v.n)) return bad("number is not finite"); }
        depth--; return true;
    }
};

// ---- the documented command line --------------------------------------------
typedef std::vector<std::string> Args;
const char* GROUPS[] = {"codec", "hash", "mac", "kdf-hkdf", "kdf-pbkdf-2", "cipher", "aead"};
const std::vector<std::string> PARAMS[] = {{"bytes-size"}, {"message-size"}, {"key-size", "message-size"}, {"ikm-size", "salt-size", "info-size", "key-size"}, {"ikm-size", "salt-size", "iterations", "key-size"}, {"bytes-size"}, {"aad-size", "bytes-size"}};
int group_of(const std::string& n) { for (int g = 0; g < 7; g++) { std::string p = std::string(GROUPS[g]) + "-"; if (n.compare(0, p.size(), p) == 0) return g; } return -1; }
std::vector<std::string> names_basic, names_all;
bool has_name(const std::vector<std::string>& v, const std::string& n) { for (auto& x : v) if (x == n) return true; return false; }

struct Opt { bool given = false, loose = false; std::vector<u64> v; };   // values given for one parameter
struct Want {
    enum { FAIL, VERSION, LIST, RESULT, ANY } kind = ANY;
    bool verbose = false, advanced = false, names_known = false, params_loose = false;
    std::vector<std::string> names; Opt warm, time, clock; std::map<std::string, Opt> in; std::string pattern; std::string why;
};
Opt param(const Args& a, size_t b, size_t e, const std::string& n) {
    Opt r; std::string p = "--" + n;
    for (size_t i = b; i < e; i++) {
        if (a[i] == p) { if (!r.given) r.loose = true; r.given = true; continue; }
        if (a[i].compare(0, p.size() + 1, p + "=")) continue;
        std::string v = a[i].substr(p.size() + 1); bool ok = !v.empty() && v.size() < 20; for (char c : v) ok &= isdigit((u8)c) != 0;
        r.given = true; if (!ok) r.loose = true; else r.v.push_back(strtoull(v.c_str(), nullptr, 10));
    }
    return r;
}
bool glob(const char* p, const char* t) { if (!*p) return !*t; if (*p == '*') { while (p[1] == '*') p++; for (;; t++) { if (glob(p + 1, t)) return true; if (!*t) return false; } } return *t == *p && glob(p + 1, t + 1); }
Want model(const Args& a) {
    Want w; size_t i = 0, n = a.size();
    auto seg = [&](size_t b) { size_t e = b; while (e < n && a[e].compare(0, 2, "--") == 0) e++; return e; };
    auto odd = [&](size_t e) { return e < n && !a[e].empty() && a[e][0] == '-'; };   // a token that starts with one '-'
    size_t e = seg(0); for (size_t k = 0; k < e; k++) { w.verbose |= a[k] == "--verbose"; w.advanced |= a[k] == "--advanced"; }
    bool loose = odd(e); auto next = [&](size_t b) { while (b < n && !a[b].empty() && a[b][0] == '-') b++; return b; };
    i = next(e); if (i >= n) { w.kind = Want::FAIL; w.why = "there is no command"; return w; }
    std::string cmd = a[i++];
    if (cmd == "version") { w.kind = Want::VERSION; return w; }
    if (cmd != "benchmark") { w.kind = Want::FAIL; w.why = "the command is unknown"; return w; }
    e = seg(i); loose |= odd(e); w.warm = param(a, i, e, "repeats-warm"); w.time = param(a, i, e, "repeats-time"); w.clock = param(a, i, e, "cpu-clock");
    i = next(e); if (i >= n) { w.kind = Want::FAIL; w.why = "there is no benchmark command"; return w; }
    cmd = a[i++]; if (cmd != "primitive") { w.kind = Want::FAIL; w.why = "the benchmark command is unknown"; return w; }
    size_t pat = next(i); if (pat >= n) { w.kind = Want::FAIL; w.why = "there is no pattern"; return w; }
    i = pat + 1; e = seg(i); loose |= odd(e);
    w.pattern = a[pat]; for (auto& g : PARAMS) for (auto& p : g) w.in[p] = param(a, i, e, p);
    if (loose) { w.kind = Want::ANY; return w; }
    bool opt_loose = w.warm.loose || w.time.loose || w.clock.loose; u64 cv = 0; for (u64 v : w.clock.v) cv = std::max(cv, v); if (cv > 18446744073709ULL) { if (!opt_loose && w.pattern == "list") opt_loose = true; else { w.kind = Want::ANY; return w; } }
    if (opt_loose) { w.kind = Want::ANY; return w; }
    if (w.pattern == "list") { w.kind = Want::LIST; return w; }
    auto& all = w.advanced ? names_all : names_basic; w.names_known = true; for (auto& x : all) if (glob(w.pattern.c_str(), x.c_str())) w.names.push_back(x);
    w.kind = Want::RESULT;
    for (auto& x : w.names) { int g = group_of(x); if (g < 0) { w.kind = Want::ANY; return w; } for (auto& p : PARAMS[g]) { Opt& o = w.in[p]; if (!o.given) { w.kind = Want::FAIL; w.why = "--" + p + " is missing"; return w; } bool emp = o.loose; if (emp) { w.kind = Want::ANY; return w; } for (u64 v : o.v) if (v > (1ULL << 26)) { w.kind = Want::ANY; return w; } } }
    return w;
}

// ---- one process --------------------------------------------------------------
struct Out { int status = -1, sig = 0; bool hang = false; std::string out, err; u64 nclk = 0; };
struct Dev { int kind = 0; u64 n = 0; int err = 0; };
void slurp_fd(int fd, std::string& s) { char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, size_t(n)); }
std::function<void()> g_prepare;   // fills S->pat, in a process of its own
Out spawn(const Args& a, const Dev& d, u64 clkseed, u64 clkmode, u64 unit, u64 memlimit) {
    Out r; memset(S, 0, sizeof *S); if (g_prepare) { fflush(nullptr); pid_t c = fork(); if (c == 0) { g_prepare(); _exit(0); } int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} } S->seed = clkseed; S->mode = clkmode; S->unit = unit; Rng q(clkseed); S->now = clkmode == 5 ? 0 : q.chance(20) ? 0 : q.below(1ULL << q.range(1, 61));
    int of = -1, po[2] = {-1, -1}, pe[2]; if (pipe(pe)) _exit(90); fcntl(pe[1], 1031 /* F_SETPIPE_SZ */, 1 << 18);
    switch (d.kind) { case 2: of = open("/dev/full", O_WRONLY); break; case 3: break; case 4: if (pipe(po)) _exit(90); close(po[0]); po[0] = -1; of = po[1]; break; case 5: if (pipe2(po, O_NONBLOCK)) _exit(90); fcntl(po[1], 1031, 4096); of = po[1]; break; default: of = memfd_create("out", 0); }
    int fullfd = d.err == 1 ? open("/dev/full", O_WRONLY) : -1;
    if (d.kind == 5) { std::string pad(std::min<u64>(d.n, 4096), 'x'); if (write(of, pad.data(), pad.size()) < 0) {} }
    fflush(nullptr); pid_t c = fork();
    if (c == 0) {
        signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN); for (int s : {SIGSEGV, SIGILL, SIGTRAP, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) if (s != SIGSEGV && s != SIGTRAP) signal(s, SIG_DFL);
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); if (of >= 0) dup2(of, 1); else close(1); if (d.err == 0) dup2(pe[1], 2); else if (d.err == 1) dup2(fullfd, 2); else close(2);
        for (int f = 3; f < 64; f++) if (f != 1 && f != 2) close(f);
        if (d.kind == 1) { rlimit l{rlim_t(d.n), rlim_t(d.n)}; setrlimit(RLIMIT_FSIZE, &l); }
        std::vector<std::string> keep = a; std::vector<char*> v; std::string zero = "milo"; v.push_back(zero.data()); for (auto& s : keep) v.push_back(s.data()); v.push_back(nullptr);
        g_top = (u8*)__builtin_frame_address(0); if (S->npat) g_before = look();
        alarm(25); g_alloc_limit = memlimit; in_app = true;
        int rc = milo_app_main(int(v.size()) - 1, v.data());
        S->total_refused = g_alloc_refused; g_alloc_limit = 0; exit(rc);
    }
    close(pe[1]); if (fullfd >= 0) close(fullfd);
    if (po[1] >= 0) { /* keep the read end open until the child ended */ close(po[1]); of = -1; }
    slurp_fd(pe[0], r.err); close(pe[0]);
    int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (po[0] >= 0) { slurp_fd(po[0], r.out); close(po[0]); r.out.erase(0, std::min<size_t>(r.out.size(), size_t(std::min<u64>(d.n, 4096)))); }
    else if (of >= 0) { if (d.kind <= 1) { lseek(of, 0, SEEK_SET); slurp_fd(of, r.out); } close(of); }
    if (WIFEXITED(st)) r.status = WEXITSTATUS(st); else { r.sig = WTERMSIG(st); r.hang = r.sig == SIGALRM; }
    return r;
}
std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) { v.push_back(s.substr(i)); break; } v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }

struct App : World {
    Run* R = nullptr;
    App() { if (FILE* f = fopen("/proc/self/maps", "r")) { char l[512]; while (fgets(l, sizeof l, f)) if (strstr(l, "[heap]")) g_heap = (u8*)strtoull(l, nullptr, 16); fclose(f); } S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Dev d; names_basic = lines(spawn({"benchmark", "primitive", "list"}, d, 1, 2, 0, 0).out); names_all = lines(spawn({"--advanced", "benchmark", "primitive", "list"}, d, 1, 2, 0, 0).out); }
    bool runnable(const std::string& n) { return !(n.find("hw-x86-64-ni") != std::string::npos && !cpu_has_sha()) && !(n.find("avx-2") != std::string::npos && !cpu_has_avx2()) && !(n.find("ssse-3") != std::string::npos && !cpu_has_ssse3()); }

    // ---- plans ----
    static Op arg(const std::string& s) { Op o{"arg", {}}; for (char c : s) o.a.push_back((u8)c); return o; }
    Plan gen(u64 seed) override {
        Rng r(seed); Plan p; int dk = r.chance(55) ? 0 : int(r.range(1, 5)); static const std::vector<u64> cut{0, 1, 2, 4095, 4096}; u64 dn = dk == 5 ? r.chance(50) ? 4096 - r.below(300) : r.below(4097) : r.chance(20) ? r.pick(cut) : r.below(r.chance(50) ? 400 : 6000);
        p.push_back({"dev", {dk, i64(dn), r.chance(85) ? 0 : r.range(1, 2)}});
        p.push_back({"clk", {i64(r.below(1u << 30)), r.range(0, 7), r.chance(60) ? i64(r.below(2000)) : r.chance(50) ? 0 : i64(r.below(1u << 30))}});
        if (r.chance(30)) p.push_back({"alt", {i64(r.below(1u << 20))}});
        if (r.chance(15)) p.push_back({"mem", {i64(100 + r.below(r.chance(50) ? 3000 : 100000))}});
        auto push = [&](const std::string& s) { p.push_back(arg(s)); };
        auto junk = [&]() -> std::string { static const std::vector<std::string> v{"--", "--=", "--=3", "---repeats-time=3", "--verbos", "--verbose=1", "--Advanced", "--repeats", "--repeats-tim=3", "--repeats-time-x=3", "--repeats-timee=3", "--xrepeats-time=3", "--repeats-warm2=9", "--cpu-clocks=77", "--cpu=5", "--bytes-size-x=9", "--bytes=9", "--message-sizes=4", "--key-size2=4", "--salt-siz=4", "--iterations-count=2", "--\"quoted\\=\"", "--tab\there", "--nl\nhere", "--\x01\x1f\x7f", "--\xc3\xa9\xe2\x82\xac=\xf0\x9f\x98\x80", "--repeats-time =4", "--repeats-time:4", "--message-size"}; return r.pick(v); };
        auto num = [&]() -> u64 { static const std::vector<u64> e{0, 1, 2, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 1000, 1024}; return r.chance(70) ? r.pick(e) : r.below(3000); };
        auto noise = [&](int pct) { while (r.chance(pct)) push(junk()); };
        bool adv = r.chance(45), wild = r.chance(15);
        noise(12); if (adv) push("--advanced"); noise(6); if (r.chance(30)) push("--verbose"); if (r.chance(6)) push("--repeats-time=77"); if (r.chance(5)) push("--message-size=9");
        int k = int(r.below(100));
        if (k < 3) { push("version"); noise(20); return p; }
        if (k < 6) { if (r.chance(60)) push(r.chance(50) ? "Benchmark" : r.chance(50) ? "" : "help"); return p; }
        push("benchmark");
        std::vector<std::string> s;
        auto& all = adv ? names_all : names_basic; std::string nm = "none"; std::vector<std::string> ok; for (auto& n : all) if (runnable(n)) ok.push_back(n); if (!ok.empty()) nm = r.pick(ok);
        bool allrun = ok.size() == all.size(); int g = group_of(nm); u64 cost = 1;
        std::string pattern; int pk = int(r.below(100));
        if (pk < 8) pattern = "list"; else if (pk < 60) pattern = nm; else if (pk < 72 && allrun) { pattern = (g >= 0 ? std::string(GROUPS[g]) : std::string()) + "-*"; cost = 20; } else if (pk < 80 && allrun) { pattern = "*"; g = 7; cost = 70; } else if (pk < 86 && allrun) { pattern = nm.substr(0, r.below(nm.size() + 1)) + "*"; g = 7; cost = 70; } else if (pk < 90 && allrun) { pattern = "*" + nm.substr(r.below(nm.size() + 1)); g = 7; cost = 70; } else if (pk < 92 && allrun) { for (char c : nm) if (r.chance(15)) pattern += "*"; else pattern += c; g = 7; cost = 70; } else if (pk < 93) { size_t x = r.below(nm.size()); pattern = nm.substr(x, 1 + r.below(nm.size() - x)); g = 7; } else if (pk < 94) pattern = nm + "x"; else pattern = nm;
        if (r.chance(90)) s.push_back("--repeats-time=" + std::to_string(r.chance(8) ? 0 : 1 + r.below(cost > 1 ? 5 : 12))); if (r.chance(90)) s.push_back("--repeats-warm=" + std::to_string(r.below(6)));
        bool many = cost == 1 && pattern == nm && nm.find("pbkdf") == std::string::npos && r.chance(3); if (many) { u64 big = r.chance(50) ? 250 + r.below(20) : 65530 + r.below(20); bool t = r.chance(50); s.clear(); s.push_back("--repeats-time=" + std::to_string(t ? big : 1 + r.below(3))); s.push_back("--repeats-warm=" + std::to_string(t ? r.below(3) : big)); }
        if (s.size() < 2 && cost > 1) { s.clear(); s.push_back("--repeats-time=3"); s.push_back("--repeats-warm=1"); }
        if (r.chance(55)) s.push_back("--cpu-clock=" + std::to_string(r.chance(10) ? 0 : r.chance(70) ? 500 + r.below(5000) : r.chance(50) ? r.below(4294967400ULL) : r.below(18446744073709ULL)));
        if (r.chance(5) && !s.empty()) { std::string x = s[r.below(s.size())]; s.push_back(x.substr(0, x.find('=') + 1) + std::to_string(1 + r.below(9))); }
        if (wild && r.chance(40)) s.push_back(r.chance(50) ? "--repeats-time=3x" : r.chance(50) ? "--cpu-clock=0x10" : r.chance(50) ? "--cpu-clock=18446744073710" : "--repeats-warm=");
        for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.below(i)]);
        for (auto& x : s) { noise(8); push(x); } noise(8);
        if (r.chance(97)) push(r.chance(98) ? "primitive" : "primitives"); else return p;
        s.clear(); std::set<std::string> need; for (int q = 0; q < 7; q++) if (g == 7 || g == q) for (auto& x : PARAMS[q]) need.insert(x);
        for (auto& x : need) { u64 v = x == "iterations" ? 1 + r.below(6) : num(); if (g == 7 && v > 300) v %= 300; if (many) v %= 70; if (wild && x != "iterations" && r.chance(8)) v = r.chance(50) ? 18446744073709551615ULL : (1ULL << 40) + r.below(99); if (!(wild && r.chance(20))) s.push_back("--" + x + (wild && r.chance(5) ? "=-1" : wild && r.chance(5) ? "=12k" : wild && r.chance(4) ? "" : "=" + std::to_string(v))); }
        for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.below(i)]);
        noise(6); if (r.chance(5)) push("--message-size=5"); if (r.chance(98)) push(pattern);
        for (auto& x : s) { noise(8); push(x); } noise(8); if (r.chance(10)) push("trailing"); if (r.chance(5)) push("--key-size=7");
        return p;
    }

    // ---- oracle ----
    void bad(const char* c, const std::string& m) { R->fail(c, m); }
    static bool near(double a, double b) { return std::fabs(a - b) <= 1.1e-6 + 1e-9 * std::fabs(b); }
    static std::string show(const Args& a) { std::string s = "milo"; for (auto& x : a) { s += " '"; for (u8 c : x) s += c < 32 || c > 126 ? fmt("\\x%02x", c) : std::string(1, char(c)); s += "'"; } return s; }
    bool number(const J* o, const char* k, double& v) { const J* x = o ? o->get(k) : nullptr; if (!x || x->t != 'n') return false; v = x->n; return true; }
    // every algorithm of doc/algorithms.md is listed under its name, and every listed name is made of such names
    bool judge_names(const std::vector<std::string>& l, bool adv) {
        static const std::vector<std::string> H{"sha-1-160", "sha-2-224", "sha-2-256", "sha-2-384", "sha-2-512", "sha-2-512-224", "sha-2-512-256"};
        std::vector<std::string> must; for (const char* b : {"16", "64"}) for (const char* d : {"-encode", "-decode"}) must.push_back(std::string("codec-base-") + b + d);
        for (const char* g : {"hash-", "mac-hmac-", "kdf-hkdf-hmac-", "kdf-pbkdf-2-hmac-"}) for (auto& h : H) must.push_back(g + h);
        must.push_back("mac-poly-1305"); for (const char* d : {"-encrypt", "-decrypt"}) { must.push_back(std::string("cipher-chacha-20") + d); must.push_back(std::string("aead-chacha-20-poly-1305") + d); }
        for (auto& m : must) if (!has_name(l, m)) { bad("listing", "the listing lacks " + m); return false; }
        if (!adv && l.size() > must.size()) R->count("names_not_in_the_documentation", l.size() - must.size());
        return true;
    }
    void judge_result(const Args& a, const Want& w, const std::string& text, u64 unit) {
        std::string at = show(a); Parser ps{text}; J doc; if (!ps.val(doc)) return bad("not-json", at + ": the output is not well-formed JSON: " + ps.err); ps.ws(); if (ps.i != text.size()) return bad("not-json", at + fmt(": more text follows the JSON document at byte %zu", ps.i)); if (doc.t != 'o') return bad("not-json", at + ": the JSON document is not an object");
        R->count("documents_parsed"); const J* res = &doc;
        if (w.verbose) { res = doc.get("result"); if (!res) return bad("verbose", at + ": verbose output without result"); const J* cm = doc.get("command"); const J* ar = cm ? cm->get("args") : nullptr; const J* du = cm ? cm->get("dump") : nullptr; if (du) { std::string all; for (auto& x : a) all += (&x == &a[0] ? "" : " ") + x; if (du->t != 's' || du->s != all) return bad("verbose", at + ": the reported command line is not the given one"); } if (ar) { bool same = ar->t == 'a' && ar->a.size() == a.size(); for (size_t i = 0; same && i < a.size(); i++) same = ar->a[i].t == 's' && ar->a[i].s == a[i]; if (!same) return bad("verbose", at + ": the reported arguments are not the given ones"); } }
        const J* pr = res->get("benchmark"); pr = pr ? pr->get("primitive") : nullptr; static const J none; if (!pr) pr = &none;
        if (w.names_known) { for (auto& n : w.names) if (!pr->get(n.c_str())) return bad("missing-result", at + ": no result for " + n); if (pr->o.size() != w.names.size()) return bad("extra-result", at + fmt(": %zu results instead of %zu", pr->o.size(), w.names.size())); }
        u64 np = S->nclk; bool strict = np == 2 * pr->o.size(); std::vector<bool> used(np / 2 + 1, false);
        if (np < 2 * pr->o.size()) return bad("clock", at + fmt(": %zu results but the clock was read %llu times", pr->o.size(), (unsigned long long)np));
        for (auto& [name, e] : pr->o) {
            std::string an = at + ": " + name; int g = group_of(name); if (!has_name(w.advanced ? names_all : names_basic, name)) return bad("extra-result", an + " is not a listed benchmark");
            const J* cf = e.get("config"); const J* cb = cf ? cf->get("benchmark") : nullptr; const J* ci = cf ? cf->get("input") : nullptr; const J* me = e.get("metrics"); double rw, rt, ck = 0;
            if (!number(cb, "repeats-warm", rw) || !number(cb, "repeats-time", rt)) return bad("config", an + ": repeat counts are not reported"); bool hasck = number(cb, "cpu-clock", ck);
            auto is = [&](const Opt& o, double v, u64 def, double mul, bool time) { if (o.loose) return true; if (o.v.empty()) return v == double(def); for (u64 x : o.v) { double q = double(time && x == 0 ? 1 : x) * mul; if (std::fabs(v - q) <= 1e-12 * q) return true; } return false; };
            if (!is(w.warm, rw, 128, 1, false)) return bad("config", an + fmt(": reported repeats-warm %.0f was not requested", rw)); if (!is(w.time, rt, 1024, 1, true)) return bad("config", an + fmt(": reported repeats-time %.0f was not requested", rt));
            if (!is(w.clock, ck, 0, 1e6, false)) return bad("config", an + fmt(": reported cpu-clock %.0f was not requested", ck)); if (hasck && ck == 0) return bad("config", an + ": cpu-clock 0 is reported");
            if (g < 0) continue; double size = 0; std::map<std::string, double> iv;
            for (auto& q : PARAMS[g]) { double v; if (!number(ci, q.c_str(), v)) return bad("config", an + ": " + q + " is not reported"); iv[q] = v; auto it = w.in.find(q); if (!is(it->second, v, 0, 1, false) || !it->second.given) return bad("config", an + ": reported " + q + fmt(" %.0f was not requested", v)); }
            if (ci->o.size() != PARAMS[g].size()) return bad("config", an + ": parameters of another group are reported");
            size = g == 0 || g == 5 ? iv["bytes-size"] : g <= 2 ? iv["message-size"] : g <= 4 ? iv["key-size"] : iv["aad-size"] + iv["bytes-size"];
            // measured time
            double npc; if (!number(me ? me->get("duration") : nullptr, "nanoseconds_per_call", npc)) return bad("metric", an + ": nanoseconds_per_call is missing"); if (rt < 1) return bad("config", an + ": repeats-time is below one");
            double N = -1; u64 wd = 0, wb = 0;
            if (strict) { size_t best = np; double off = 0; for (size_t k = 0; k < np / 2; k++) if (!used[k]) { u64 dt = S->clk[2 * k + 1].t - S->clk[2 * k].t; double q = double(dt) / rt, d = std::fabs(npc - q); if (near(npc, q) && (best == np || d < off)) { best = k; off = d; } }
                if (best != np) { size_t k = best; used[k] = true; N = double(S->clk[2 * k + 1].t - S->clk[2 * k].t); wd = S->clk[2 * k + 1].work - S->clk[2 * k].work; wb = S->clk[2 * k].work - (k ? S->clk[2 * k - 1].work : 0); }
                if (N < 0) return bad("metric", an + fmt(": nanoseconds_per_call %.6f with repeats-time %.0f was not measured (first interval %llu ns)", npc, rt, (unsigned long long)(S->clk[1].t - S->clk[0].t))); R->count("durations_matched_to_the_clock"); }
            else { N = npc * rt; if (!std::isfinite(N) || N > 1.0e19) return bad("metric", an + ": nanoseconds_per_call is absurd"); R->count("durations_not_matched"); }
            // work really done between the two readings
            if (strict && pr->o.size() == 1 && !S->work && size > 2000 && name.find("-hw-x86-64") != std::string::npos) return bad("other-work", an + ": no back end of the assembly library did any work");
            if (strict && pr->o.size() == 1 && S->work && rw >= 0) {
                R->count("work_checked"); u64 t = u64(rt), wu = u64(rw); if (wd % t) return bad("repeats", an + fmt(": %llu blocks of work in %llu timed repeats", (unsigned long long)wd, (unsigned long long)t)); u64 per = wd / t; if (wb < per * wu) return bad("repeats", an + fmt(": %llu warm repeats requested, only %llu of %llu blocks of work done before timing", (unsigned long long)wu, (unsigned long long)wb, (unsigned long long)(per * wu)));
                // a benchmark measures the algorithm and the back end that it is named after
                u64 kw[4]; for (int k = 0; k < 4; k++) kw[k] = S->clk[1].w[k] - S->clk[0].w[k]; auto has = [&](const char* t) { return name.find(t) != std::string::npos; };
                bool cc = has("chacha-20"); bool may[4] = {has("sha-1-160"), has("sha-2-224") || has("sha-2-256"), cc && !has("avx-2"), cc && !has("ssse-3")}; if (cc && !has("ssse-3") && !has("avx-2")) kw[2] += kw[3], kw[3] = kw[2]; bool sw = name.size() > 3 && (name.find("-sw-") != std::string::npos || name.compare(name.size() - 3, 3, "-sw") == 0); bool hw = has("-hw-x86-64"); static const char* KN[] = {"SHA-1", "SHA-256", "SSSE3 ChaCha20", "AVX2 ChaCha20"};
                for (int k = 0; k < 4; k++) { if (kw[k] && (sw || !may[k])) return bad("other-work", an + fmt(": the %s back end of the assembly library did %llu blocks of work in the measured time", KN[k], (unsigned long long)kw[k])); if (hw && may[k] && !kw[k] && size > 2000) return bad("other-work", an + fmt(": the %s back end did no work in the measured time", KN[k])); }
                bool sha1 = name.compare(0, 14, "hash-sha-1-160") == 0, sha2 = name.compare(0, 14, "hash-sha-2-256") == 0 || name.compare(0, 14, "hash-sha-2-224") == 0;
                if (sha1 || sha2) { u64 need = (u64(size) + 8) / 64 + 1; if (wd != need * t || wb != need * wu) return bad("repeats", an + fmt(": %llu warm and %llu timed repeats of %llu blocks requested, %llu and %llu blocks of work done", (unsigned long long)wu, (unsigned long long)t, (unsigned long long)need, (unsigned long long)wb, (unsigned long long)wd)); R->count("work_checked_exactly"); }
                else if (per == 0 && size > 2000) return bad("repeats", an + ": no work was done while timing");
            }
            double P = size * rt; const J* th = me->get("throughput"); const J* cp = me->get("cpu"); double v1, v2; u64 cu = 0; (void)cu;
            if (th) { if (!number(th, "gigabytes_per_second", v1) || !number(th, "megabytes_per_second", v2)) return bad("metric", an + ": throughput is incomplete"); if (N == 0 || P == 0) { if (strict || P == 0) return bad("metric", an + fmt(": throughput is reported for %.0f bytes in %.0f ns", P, N)); } else if (strict && (!near(v1, P / N) || !near(v2, P * 1000 / N))) return bad("metric", an + fmt(": throughput %.6f GB/s, %.6f MB/s for %.0f bytes in %.0f ns", v1, v2, P, N)); }
            else if (P != 0 && N != 0) return bad("metric", an + fmt(": throughput of %.0f bytes in %.0f ns is missing", P, N));
            if (cp) { if (!number(cp, "cycles_per_call", v1) || !number(cp, "cycles_per_byte", v2)) return bad("metric", an + ": cycles are incomplete"); if (ck == 0 || P == 0) return bad("metric", an + ": cycles are reported without a clock speed or bytes"); double cy = ck * N / 1e9; if (strict && (!near(v1, cy / rt) || !near(v2, cy / P))) return bad("metric", an + fmt(": %.6f cycles per call, %.6f per byte for %.0f ns at %.0f Hz", v1, v2, N, ck)); }
            else if (ck != 0 && P != 0) return bad("metric", an + ": cycles are missing");
            u64 h = fnv(name.data(), name.size()); for (u64 v : {u64(size) % 64, u64(size > 64), u64(rt), u64(N == 0), u64(ck != 0), u64(w.verbose), S->mode, u64(unit != 0)}) h = fnv(&v, 8, h); R->sig(h); R->count("results_judged");
        }
    }
    void judge(const Args& a, const Want& w, const Out& o, u64 unit, u64 mem) {
        std::string at = show(a);
        if (o.hang) return bad("hang", at + ": the program does not end"); if (o.sig) return bad("killed", at + fmt(": the program is killed by signal %d", o.sig) + (o.err.empty() ? "" : " (" + o.err.substr(0, 100) + ")"));
        R->count(o.status ? "ended_with_failure" : "ended_with_success");
        if (o.status) {
            if (o.err.empty()) return bad("silent", at + fmt(": exit status %d without a message", o.status)); if (!o.out.empty()) return bad("partial", at + fmt(": exit status %d although output was written: %s", o.status, o.out.substr(0, 80).c_str()));
            if (w.kind != Want::FAIL && w.kind != Want::ANY && !mem) bad("refused", at + fmt(": exit status %d (%s)", o.status, o.err.substr(0, 120).c_str()));
            return;
        }
        if (w.kind == Want::FAIL) return bad("accepted", at + ": exit status 0 although " + w.why);
        if (o.out.empty() || o.out.back() != '\n') return bad("incomplete", at + ": the output does not end with a line end");
        bool lst = w.kind == Want::LIST || (w.kind == Want::ANY && w.pattern == "list");
        if (w.kind == Want::VERSION) { int x, y, z, n = 0; if (sscanf(o.out.c_str(), "milo %d.%d.%d%n", &x, &y, &z, &n) != 3 || o.out.substr(size_t(n)) != "\n") bad("version", at + ": " + o.out); R->count("versions"); }
        else if (lst) { R->count("listings"); auto& all = w.advanced ? names_all : names_basic; auto l = lines(o.out); if (l != all) return bad("listing", at + ": the listing differs from the plain one"); if (!judge_names(l, w.advanced)) return; std::set<std::string> u; for (auto& n : l) { if (n.empty() || group_of(n) < 0 || !u.insert(n).second) return bad("listing", at + ": odd listing entry '" + n + "'"); } }
        else judge_result(a, w, o.out, unit);
    }
    // the results of every algorithm of the group for the zero bytes a benchmark works on, for spawn to look for
    std::vector<std::string> results(const Want& w) {
        g_prepare = nullptr; std::vector<std::string> who; if (!w.names_known || w.names.size() != 1) return who; int g = group_of(w.names[0]); if (g < 1 || g > 4) return who;
        u64 v[4]; int k = 0; for (auto& x : PARAMS[g]) { auto it = w.in.find(x); if (it == w.in.end() || it->second.loose || it->second.v.size() != 1 || it->second.v[0] > 4000) return who; v[k++] = it->second.v[0]; }
        if (g >= 3 && (v[3] < 16 || (g == 4 && v[2] * v[3] > 3000) || (g == 3 && v[3] > 5000))) return who;
        who = {"sha-1-160", "sha-2-224", "sha-2-256", "sha-2-384", "sha-2-512", "sha-2-512-224", "sha-2-512-256"}; if (g == 2) who.push_back("poly-1305");
        std::vector<u64> in(v, v + k); size_t nw = who.size();
        g_prepare = [g, in, nw] {
            for (size_t i = 0; i < nw; i++) {
                bytes z0(in[0]), z1(in.size() > 1 ? in[1] : 0), o; int h = int(i); if (i == 7) { z0.resize(32); if (in[0] != 32) continue; o = ref::poly1305(z0, z1); bool any = false; for (u8 c : o) any |= c != 0; if (!any) continue; } else o = g == 1 ? ref::hash(h, z0) : g == 2 ? ref::hmac(h, z0, z1) : g == 3 ? ref::hkdf(h, z0, z1, bytes(in[2]), 32) : ref::pbkdf2(h, z0, z1, u32(in[2]), 16);
                for (int f = 0; f < 3; f++) { u64 x[2]; u8 b[16]; for (int j = 0; j < 16; j++) b[f == 0 ? j : f == 1 ? j ^ 3 : j ^ 7] = o[size_t(j)]; memcpy(x, b, 16); int n = S->npat; S->pat[n].a = x[0] ^ MASK; S->pat[n].b = x[1] ^ MASK; S->pat[n].who = int(i); S->npat = n + 1; }
            }
        };
        return who;
    }
    // the work of the program itself, in basic blocks: each timed repeat costs one call, each warm repeat too, and a call works on all of its input
    void repeats(const Args& a, const Want& w, u64 cs, u64 cm, u64 unit, u64 before, u64 timed, bool hw, u64 alt) {
        auto one = [&](const Opt& o, u64 max, u64 min) { return o.v.size() == 1 && !o.loose && o.v[0] >= min && o.v[0] <= max; }; auto arg = [&](const std::string& pre) { int k = -1; for (size_t i = 0; i < a.size(); i++) if (a[i].compare(0, pre.size(), pre) == 0) { if (k >= 0) return -1; k = int(i); } return k; };
        std::string at = show(a) + ": " + w.names[0]; int g = group_of(w.names[0]); if (!one(w.time, 64, 1) || !one(w.warm, 64, 0) || g < 0) return; u64 t = w.time.v[0], wu = w.warm.v[0], dt = 1 + alt % 7 + t / 2, dw = 1 + (alt >> 3) % 7 + wu / 2;
        auto run = [&](const std::string& pre, u64 v, u64& b, u64& m) { int k = arg(pre); if (k < 0) return false; Args x = a; x[size_t(k)] = pre + std::to_string(v); Out o = spawn(x, Dev(), cs, cm, unit, 0); R->count("library_calls"); b = S->clk[0].bb; m = S->clk[1].bb - S->clk[0].bb; return o.status == 0 && !o.sig && S->nclk == 2; };
        u64 b2, m2; if (!run("--repeats-time=", t + dt, b2, m2)) return; double p = (double(m2) - double(timed)) / double(dt); if (p < 0 || (p < 200 && timed > 1000 * t)) return bad("repeats", at + fmt(": %llu timed repeats cost %llu basic blocks, %llu cost %llu", (unsigned long long)t, (unsigned long long)timed, (unsigned long long)(t + dt), (unsigned long long)m2)); if (p < 200) return; R->count("software_work_checked");
        if (std::fabs(double(timed) - double(t) * p) > p / 2 + 300) return bad("repeats", at + fmt(": %llu timed repeats cost %llu basic blocks, but one repeat costs %.0f", (unsigned long long)t, (unsigned long long)timed, p));
        if (run("--repeats-warm=", wu + dw, b2, m2)) { double q = (double(b2) - double(before)) / double(dw); if (std::fabs(q - p) > p / 4 + 300) return bad("repeats", at + fmt(": a warm repeat costs %.0f basic blocks, a timed one %.0f", q, p)); R->count("warm_work_checked"); }
        if (hw) return;   // the assembly does the work by size
        auto in = [&](const char* k) { auto& o = w.in.find(k)->second; return o.v.size() == 1 && !o.loose ? o.v[0] : ~0ULL; }; std::string vary; u64 from = 0, to = 0; double need = 16000 / 512;
        if (g <= 2 || g == 5) { vary = g == 0 || g == 5 ? "bytes-size" : "message-size"; from = in(vary.c_str()); if (from < 1000 || from > 5000 || (g == 2 && in("key-size") > 200)) return; to = from + 16000; }
        else if (g == 6) { vary = alt >> 6 & 1 ? "aad-size" : "bytes-size"; from = in(vary.c_str()); if (from < 1000 || from > 5000 || in(alt >> 6 & 1 ? "bytes-size" : "aad-size") > from / 8) return; to = from + 16000; }
        else if (g == 3 || (g == 4 && alt >> 6 & 1)) { vary = "key-size"; from = in("key-size"); if (from < 600 || from > 1250 || in("ikm-size") > 200 || in("salt-size") > 200 || (g == 3 && in("info-size") > 200)) return; to = 4 * from; need = double(to - from) / 64; }
        else { vary = "iterations"; from = in("iterations"); if (from < 3 || from > 50 || in("ikm-size") > 200 || in("salt-size") > 200 || in("key-size") < 32 || in("key-size") > 2000) return; to = from + 40; need = 40; }
        if (run("--" + vary + "=", to, b2, m2)) { if (double(m2) < (p + need) * double(t)) return bad("other-work", at + fmt(": %s %llu costs %.0f basic blocks in a repeat, %llu only %.0f", vary.c_str(), (unsigned long long)from, p, (unsigned long long)to, double(m2) / double(t))); R->count("work_by_size_checked"); }
    }
    void exec(const Plan& p, Run& run) override {
        R = &run; Args a; Dev d; u64 cs = 1, cm = 2, unit = 0, mem = 0, alt = 0; bool isalt = false;
        for (auto& o : p) { R->count("operations"); if (o.k == "arg") { std::string s; for (auto v : o.a) if (v & 255) s += char(v & 255); a.push_back(s); } else if (o.k == "dev") { d.kind = int(u64(o.at(0)) % 6); d.n = u64(o.at(1)) % 100000; d.err = int(u64(o.at(2)) % 3); } else if (o.k == "clk") { cs = u64(o.at(0)); cm = u64(o.at(1)) % 8; unit = u64(o.at(2)); } else if (o.k == "alt") { alt = u64(o.at(0)); isalt = true; } else if (o.k == "mem") mem = std::max<u64>(64, u64(o.at(0))); }
        std::string txt; for (auto& s : a) { if (!Parser::utf8(s)) return; txt += s; if ((s.compare(0, 13, "--iterations=") == 0 || s.compare(0, 10, "--repeats-") == 0) && s.size() > 22) return; } if (txt.size() > 3000) return; // the JSON of such arguments is not claimed
        Want w = model(a); if (mem) mem = std::max<u64>(mem, 4096); bool light = w.names_known && w.names.size() == 1 && w.names[0].find("pbkdf") == std::string::npos; for (auto& o : w.in) for (u64 v : o.second.v) if (v > 300) light = false; for (auto& o : {w.time, w.warm}) for (u64 v : o.v) if (v > (light ? 66000u : 5000u)) return; for (auto& o : w.in) for (u64 v : o.second.v) if (v > 20000 && v < (1ULL << 39)) return; for (u64 v : w.in["iterations"].v) if (v > 5000) return;
        std::vector<std::string> who = results(w); Out h = spawn(a, Dev(), cs, cm, unit, mem); g_prepare = nullptr; R->count("library_calls"); R->count("simulated_clock_ns", S->now); R->count("clock_reads", S->nclk); if (S->nclk && cm == 0) R->count("fault_clock_stalled"); if (cm >= 4 && S->nclk) R->count("fault_clock_leap"); if (S->total_refused) R->count("fault_allocation_refused", S->total_refused);
        R->log(u64(h.status)); R->log(bytes(h.out.begin(), h.out.end())); R->log(bytes(h.err.begin(), h.err.end())); R->log(S->now);
        u64 e = u64(w.kind) * 16 + u64(h.status); u64 sg = fnv(&e, 8); for (u64 v : {u64(w.pattern == "list"), u64(a.size()), cm}) sg = fnv(&v, 8, sg); R->sig(sg);
        u64 nclk = S->nclk, before = S->clk[0].bb, timed = S->clk[1].bb - S->clk[0].bb, found = S->found; bool hw = S->work != 0;
        judge(a, w, h, unit, mem); if (run.failed) return;
        if (!who.empty() && h.status == 0 && nclk == 2) { for (size_t k = 0; k < who.size(); k++) if (found >> k & 1) { bool same = false; const std::string& n = w.names[0]; std::string t = n.substr(n.find("sha-") == std::string::npos ? 0 : n.find("sha-")); same = n.find("poly-1305") != std::string::npos ? who[k] == "poly-1305" : t == who[k] || t.compare(0, who[k].size() + 2, who[k] + "-s") == 0 || t.compare(0, who[k].size() + 2, who[k] + "-h") == 0; if (!same) return bad("other-work", show(a) + ": " + n + ": the measured work computed the result of " + who[k]); R->count("measured_results_recognised"); } R->count("measured_results_looked_for"); }
        if (isalt && !mem && h.status == 0 && nclk == 2 && w.names_known && w.names.size() == 1) { repeats(a, w, cs, cm, unit, before, timed, hw, alt); if (run.failed) return; }
        if (run.failed || (d.kind == 0 && d.err == 0)) return;
        // the same history with failing devices
        Out f = spawn(a, d, cs, cm, unit, mem); R->count("library_calls"); std::string at = show(a); static const char* KN[] = {"healthy", "file size limit", "full device", "closed descriptor", "pipe without a reader", "full pipe"}; static const char* FN[] = {"fault_none", "fault_file_size_limit", "fault_device_full", "fault_stdout_closed", "fault_pipe_broken", "fault_pipe_full"};
        if (d.kind) R->count(FN[d.kind]); if (d.err) R->count(d.err == 1 ? "fault_stderr_full" : "fault_stderr_closed"); std::string dv = fmt(" (standard output: %s, limit %llu)", KN[d.kind], (unsigned long long)d.n);
        R->log(u64(f.status)); R->log(bytes(f.out.begin(), f.out.end())); R->log(bytes(f.err.begin(), f.err.end()));
        if (f.hang) return bad("hang", at + dv + ": the program does not end"); if (f.sig) return bad("killed", at + dv + fmt(": the program is killed by signal %d", f.sig));
        u64 room = d.kind == 0 ? ~0ULL : d.kind == 1 ? d.n : d.kind == 5 ? 4096 - std::min<u64>(4096, d.n) : 0; bool fits = h.out.size() <= room; bool visible = d.kind == 0 || d.kind == 1 || d.kind == 5;
        if (!fits) R->count("output_cut_by_the_device"); u64 fh = u64(d.kind) * 64 + u64(d.err) * 8 + u64(fits) * 4 + u64(w.kind); R->sig(fnv(&fh, 8));
        if (f.status == 0) { if (h.status != 0) return bad("device", at + dv + ": fails with a healthy device, succeeds with this one"); if (!fits) return bad("lost-output", at + dv + fmt(": exit status 0 although only %zu of %zu bytes could be written", f.out.size(), h.out.size())); if (visible && f.out != h.out) return bad("lost-output", at + dv + ": exit status 0 with different output"); }
        else { if (h.status == 0 && fits) return bad("device", at + dv + fmt(": exit status %d although all output could be written", f.status)); if (f.err.empty() && d.err == 0) return bad("silent", at + dv + fmt(": exit status %d without a message", f.status)); if (visible && h.out.compare(0, f.out.size(), f.out)) return bad("device", at + dv + ": other output than with a healthy device"); }
    }
};
}
World* make_app(const std::string&) { return new App(); }
