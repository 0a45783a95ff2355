// Entry point of every simulation binary.
//   run  <prop> <first seed> <count> <status file> <out file>   simulate seeds
//   exec <prop> <plan file> <out file>                          replay a plan
//   gen  <prop> <seed>                                          print the plan of a seed
#include <cerrno>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include "world.hpp"

void reg_hash(); void reg_mac(); void reg_kdf1(); void reg_kdf2(); void reg_cipher(); void reg_aead(); void reg_codec();
void register_algs() {
#ifdef FAM_HASH
    reg_hash();
#endif
#ifdef FAM_MAC
    reg_mac();
#endif
#ifdef FAM_KDF
    reg_kdf1(); reg_kdf2();
#endif
#ifdef FAM_CIPHER
    reg_cipher();
#endif
#ifdef FAM_AEAD
    reg_aead();
#endif
#ifdef FAM_CODEC
    reg_codec();
#endif
}
World* make_stream(const std::string&); World* make_chan(const std::string&); World* make_threads(const std::string&); World* make_app(const std::string&); World* make_huge(const std::string&);
#ifndef WORLD
#define WORLD make_stream
#endif
// A property may have a second world: its plans begin with "base" or "gia", its seeds belong to jobs 70 and up.
struct Both : World {
    World *a, *b; bool second = false;
    Both(World* x, World* y) : a(x), b(y) {}
    Plan gen(u64 s) override { return s / 100000 % 100 >= 70 ? b->gen(s) : a->gen(s); }
    void exec(const Plan& p, Run& r) override { (!p.empty() && (p[0].k == "base" || p[0].k == "gia") ? b : a)->exec(p, r); }
    bool fork_per_seed() override { return a->fork_per_seed(); }
};

static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += char(c); } return r; }
static std::string json(const Run& r, const Plan& p) {
    std::string s = fmt("{\"seed\":%llu,\"hash\":\"%016llx\",\"events\":%llu,\"failed\":%s", (unsigned long long)r.seed, (unsigned long long)r.hash, (unsigned long long)r.events, r.failed ? "true" : "false");
    s += ",\"class\":\"" + esc(r.cls) + "\",\"message\":\"" + esc(r.msg) + "\",\"plan\":\"" + esc(plan_text(p)) + "\"}";
    return s;
}
static std::string slurp(const char* f) { std::string s; FILE* h = fopen(f, "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void spit(const char* f, const std::string& s) { FILE* h = fopen(f, "wb"); if (!h) { fprintf(stderr, "cannot write %s\n", f); _exit(96); } fwrite(s.data(), 1, s.size(), h); fclose(h); }

// One run in a forked child: fresh library state (first uses) for every seed.
extern int g_attempt; // 1: repeat of a run that did not end, with preemption everywhere
static void run_forked(World* w, const Plan& p, Run& r, int attempt = 0) {
    int fd[2]; if (pipe(fd)) _exit(95);
    fflush(nullptr);
    pid_t c = fork();
    if (c == 0) {
        close(fd[0]); g_attempt = attempt; Run x; x.seed = r.seed;
        w->exec(p, x);
        std::string s = fmt("%llu %llu %d\n", (unsigned long long)x.hash, (unsigned long long)x.events, int(x.failed)); s += x.cls + "\n"; std::string m = x.msg; for (auto& ch : m) if (ch == '\n') ch = ' '; s += m + "\n";
        for (auto& k : x.stat) s += "S " + k.first + fmt(" %llu\n", (unsigned long long)k.second);
        for (auto v : x.sigs) s += fmt("G %llu\n", (unsigned long long)v);
        size_t o = 0; while (o < s.size()) { ssize_t n = write(fd[1], s.data() + o, s.size() - o); if (n <= 0) break; o += size_t(n); }
        _exit(0);
    }
    close(fd[1]); std::string s; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, size_t(n)); close(fd[0]);
    int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && !attempt) return run_forked(w, p, r, 1);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { r.fail("hang", "the threads did not finish although every one of them was given time"); return; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) || s.empty()) { r.fail("crash", fmt("the simulated process ended with status 0x%x", st)); return; }
    std::vector<std::string> l; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); l.push_back(s.substr(i, e - i)); i = e + 1; }
    unsigned long long h = 0, ev = 0; int f = 0; sscanf(l[0].c_str(), "%llu %llu %d", &h, &ev, &f); r.hash = h; r.events = ev; r.failed = f; r.cls = l[1]; r.msg = l[2];
    for (size_t k = 3; k < l.size(); k++) { if (l[k][0] == 'S') { size_t sp = l[k].rfind(' '); r.stat[l[k].substr(2, sp - 2)] += strtoull(l[k].c_str() + sp, nullptr, 10); } else r.sigs.insert(strtoull(l[k].c_str() + 2, nullptr, 10)); }
}
static void one(World* w, const Plan& p, Run& r) { if (w->fork_per_seed()) run_forked(w, p, r); else w->exec(p, r); }

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    if (argc < 4) { fprintf(stderr, "usage\n"); return 94; }
    std::string mode = argv[1], prop = argv[2];
    register_algs(); engine_init();
#ifdef WORLD2
    World* w = new Both(WORLD(prop), WORLD2(prop));
#else
    World* w = WORLD(prop);
#endif
    if (mode == "gen") { fputs(plan_text(w->gen(strtoull(argv[3], nullptr, 10))).c_str(), stdout); return 0; }
    if (mode == "algs") { for (size_t i = 0; i < algs().size(); i++) printf("%zu %s\n", i, algs()[i]->name.c_str()); return 0; }
    if (mode == "exec") {
        Plan p = plan_parse(slurp(argv[3])); Run r; one(w, p, r); std::string s = json(r, p) + "\n"; if (argc > 4) spit(argv[4], s); else fputs(s.c_str(), stdout); return r.failed ? 1 : 0;
    }
    u64 s0 = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
    int sf = open(argv[5], O_CREAT | O_RDWR | O_TRUNC, 0644); if (sf < 0 || ftruncate(sf, 64)) return 93;
    u64* st = (u64*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, sf, 0);
    auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, u64> stat; std::unordered_set<u64> sigs; std::string fails, samples; int nf = 0; u64 all = 0, done = 0, events = 0, nontrivial = 0;
    std::unordered_set<u64> hashes;
    double budget = argc > 7 ? atof(argv[7]) : 0;
    for (u64 i = 0; i < n; i++) {
        st[0] = s0 + i; st[1] = 1;
        Plan p = w->gen(s0 + i); Run r; r.seed = s0 + i;
        one(w, p, r);
        done++; events += r.events; all = (all ^ r.hash) * 0x100000001b3ULL; if (r.events > 1 && hashes.insert(r.hash).second) nontrivial++;
        for (auto& k : r.stat) stat[k.first] += k.second;
        sigs.insert(r.sigs.begin(), r.sigs.end());
        if (r.failed) { fails += (nf ? "," : "") + json(r, p); if (++nf >= 3) break; }
        else if (i % (n / 3 + 1) == n / 7) { samples += (samples.empty() ? "" : ",") + json(r, p); }
        if (budget > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
    }
    st[1] = 2;
    std::string o = fmt("{\"runs\":%llu,\"first_seed\":%llu,\"cpu\":%d,\"cpu_name\":\"%s\",\"cpu_simulated\":%s,\"xgetbv_simulated\":%s,\"cpuid_calls\":%llu,\"xgetbv_calls\":%llu,\"isa_sites\":%llu,\"isa_insns\":%llu,\"avx_insns\":%llu,\"sha_insns\":%llu,\"ssse3_insns\":%llu,\"returns_checked\":%llu,\"all\":\"%016llx\",\"events\":%llu,\"nontrivial\":%llu",
        (unsigned long long)done, (unsigned long long)s0, g_cpu_id, g_cpu.name, g_cpu_simulated ? "true" : "false", g_xgetbv_simulated ? "true" : "false", (unsigned long long)g_cpuid_calls, (unsigned long long)g_xgetbv_calls, (unsigned long long)g_isa_sites, (unsigned long long)g_isa_insns, (unsigned long long)g_avx_insns, (unsigned long long)g_sha_insns, (unsigned long long)g_ssse3_insns, (unsigned long long)g_abi_rets, (unsigned long long)all, (unsigned long long)events, (unsigned long long)nontrivial);
    o += ",\"stat\":{"; bool first = true; for (auto& k : stat) { o += fmt("%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    o += "},\"failures\":[" + fails + "],\"samples\":[" + samples + "]}\n";
    std::string g; for (auto v : sigs) g.append((const char*)&v, 8);
    spit((std::string(argv[6]) + ".sigs").c_str(), g); spit(argv[6], o);
    return nf ? 1 : 0;
}
