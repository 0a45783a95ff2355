// Very long streams (C15).  Gigabytes of simulated traffic are one megabyte of
// real memory mapped over and over; the reference model starts from saved
// states shortly before 2^29, 2^31 and 2^32 bytes (huge_mid.inc) or jumps there
// in closed form.  A worker is brought to the brink once (in one huge call or
// many), saved, and every seed restarts it from the saved copy and drives a
// different schedule of calls, copies and restarts across the brink.
#include <algorithm>
#include <optional>
#include <sys/mman.h>
#include <unistd.h>
#include "huge.hpp"
#include "world.hpp"
namespace {
const Mid MID[] = {
#include "huge_mid.inc"
};
const Mid& mid(int what, int hash, u64 pos, u64* at) { const Mid* b = nullptr; for (auto& m : MID) if (m.what == what && m.hash == hash && m.pos <= pos && (!b || m.pos > b->pos)) b = &m; if (b) *at = b->pos; static Mid none{}; return b ? *b : none; }

constexpr size_t VIN = (1ULL << 32) + (64 << 20), VOUT = (1ULL << 33) + (64 << 20), TAIL = 65536;
u8 *IN = nullptr, *OUT = nullptr, *TXT = nullptr, *DEC = nullptr;   // mirrored: period 1 MiB (read only), 4 MiB, 4 MiB with a private end, 1 MiB
u8* mirror(u64 at, size_t n, size_t period, int prot, const u8* init) {
    int fd = memfd_create("sim", 0); if (fd < 0 || ftruncate(fd, i64(period))) { fprintf(stderr, "no memfd\n"); _exit(98); }
    u8* p = (u8*)mmap((void*)at, n + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (u8*)at) { fprintf(stderr, "no address space\n"); _exit(98); }
    for (size_t o = 0; o < n; o += period) if (mmap(p + o, std::min(period, n - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "no mapping\n"); _exit(98); }
    if (init) memcpy(p, init, period);
    if (!(prot & PROT_WRITE)) mprotect(p, n, PROT_READ);
    close(fd); return p;
}
u8* in() { if (!IN) IN = mirror(0x200000000000, VIN, HP, PROT_READ, hpat().data()); return IN; }
u8* out() { if (!OUT) OUT = mirror(0x210000000000, VOUT, 4 * HP, PROT_READ | PROT_WRITE, nullptr); return OUT; }
u8* real_out() { static u8* p = nullptr; if (!p) { p = (u8*)mmap((void*)0x240000000000, VOUT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) _exit(98); } return p; }   // a seal may read back what it wrote: no mirror
u8* dec() { if (!DEC) DEC = mirror(0x220000000000, VIN, HP, PROT_READ | PROT_WRITE, nullptr); return DEC; }

struct Cfg { const char* alg; char style; };
// style: C chunks up to 2^32, S one call past 2^32, K huge key / salt / input key material, D/E opening (chunks / one call), A/B associated data (chunks / one call), X codec
const Cfg CFG[] = {
    {"hash-apie/sha224_sw", 'C'}, {"hash-apie/sha256_sw", 'S'}, {"mac-apie/hmac_sha256_sw", 'S'}, {"hash-apie/sha512", 'C'}, {"hash-apie/sha384", 'S'}, {"hash-apie/sha512_224", 'S'}, {"hash-apie/sha512_256", 'C'},
    {"hash-apie/sha1_sw", 'C'}, {"mac-apie/hmac_sha384", 'C'}, {"mac-apie/hmac_sha512", 'S'}, {"mac-apie/hmac_sha512", 'K'}, {"codec/base16", 'X'}, {"codec/base64", 'X'}, {"cipher-apie/chacha20_sw", 'S'}, {"cipher-apie/chacha20_sw", 'C'},
    {"aead-apie/chacha20poly1305_sw", 'C'}, {"aead-apie/chacha20poly1305_sw", 'E'}, {"aead-apie/chacha20poly1305", 'S'}, {"aead-apie/chacha20poly1305", 'D'}, {"aead-apie/chacha20poly1305_ssse3", 'C'}, {"aead-apie/chacha20poly1305_ssse3", 'E'},
    {"hash-apie/sha1", 'C'}, {"hash-apie/sha1", 'S'}, {"hash-apie/sha224", 'S'}, {"hash-apie/sha256", 'C'}, {"hash-apie/sha256_ni", 'S'}, {"hash-apie/sha1_ni", 'S'}, {"hash-apie/sha512", 'S'},
    {"mac-apie/hmac_sha1", 'S'}, {"mac-apie/hmac_sha224", 'C'}, {"mac-apie/hmac_sha256", 'C'}, {"mac-apie/hmac_sha256", 'K'}, {"mac-apie/hmac_sha1", 'K'}, {"kdf-apie/hkdf_sha256", 'K'}, {"kdf-apie/pbkdf2_sha1", 'K'}, {"kdf-apie/hkdf_sha512", 'K'},
    {"mac-apie/poly1305", 'C'}, {"mac-apie/poly1305", 'S'}, {"mac-apie/poly1305_sw", 'S'}, {"aead-apie/chacha20poly1305", 'A'}, {"aead-apie/chacha20poly1305", 'B'}, {"aead-apie/chacha20poly1305_sw", 'B'},
    {"cipher-apie/chacha20", 'C'}, {"cipher-apie/chacha20", 'S'}, {"cipher-apie/chacha20_ssse3", 'S'}, {"cipher-apie/chacha20_ssse3", 'C'}, {"cipher-apie/chacha20_avx2", 'S'},
};
constexpr int NCFG = int(sizeof CFG / sizeof *CFG);

struct RS { std::optional<ref::Hash> h; std::optional<ref::Hmac> m; std::optional<ref::Poly> p; u64 pos = 0, aad = 0; bool text = false; };
struct Base { bool ok = false; int alg = -1; RS r; u8* mem = nullptr; std::vector<bytes> log; std::string cls, msg; };
struct Work { int st = S_RAW; RS r; u8* mem = nullptr; };

struct Huge : World {
    Run* R = nullptr; Base b; std::string bkey; Params par; Work w[3]; char style = 0; bool decr = false; u64 bytes_in = 0;
    explicit Huge(const std::string& p) { prop = p; }
    static int find(const char* n) { for (size_t i = 0; i < algs().size(); i++) if (algs()[i]->name == n) return int(i); return -1; }
    void bad(const char* c, const std::string& m) { R->fail(c, m); }
    u8* slot(int i) { return region(R_SLOTS).base + 4096 + i * 8192; }
    static bool kdf(const Alg& a) { return a.kind == K_HKDF || a.kind == K_PBKDF2; }

    void call(Alg& a, Call& c) { R->count("library_calls"); tl.mon = 0; a.exec(c); if (c.threw != T_NONE) bad("exception", fmt("%s: op %d threw", a.name.c_str(), c.op)); }
    // the reference at a position of the periodic stream
    RS ref_at(const Alg& a, char st, u64 pos) {
        RS r; u64 at = 0; r.pos = pos; const u8* p = in();
        switch (a.kind) {
        case K_HASH: { r.h.emplace(a.hash); auto& m = mid(0, a.hash, pos, &at); if (at) r.h->load(m.v, at); for (u64 i = at; i < pos; i += HP) r.h->update(p, size_t(std::min<u64>(HP, pos - i))); break; }
        case K_HMAC: { bytes k = hkey(); r.m.emplace(a.hash, k.data(), k.size()); auto& m = mid(1, a.hash, pos, &at); if (at) r.m->inner().load(m.v, at + ref::hash_block(a.hash)); for (u64 i = at; i < pos; i += HP) r.m->update(p, size_t(std::min<u64>(HP, pos - i))); break; }
        case K_POLY: r.p.emplace(par.key.data()); r.p->periods(p, HP, pos / HP); r.p->update(p, pos % HP); break;
        case K_AEAD: { auto k = ref::aead_keys(par.key.data(), par.iv.data()); r.p.emplace(k.otk);
            if (st == 'A' || st == 'B') { r.p->periods(p, HP, pos / HP); r.p->update(p, pos % HP); r.aad = pos; r.pos = 0; break; }
            bytes ad = aaad(), z(16); r.p->update(ad.data(), ad.size()); r.p->update(z.data(), (16 - ad.size() % 16) % 16); r.aad = ad.size(); r.text = true;
            if (decr) { r.p->periods(p, HP, pos / HP); r.p->update(p, pos % HP); }
            else { auto& m = mid(2, 0, pos, &at); if (at) r.p->load(m.v); ref::Chacha s(par.key.data(), k.iv1); s.seek(at); bytes c(HP); for (u64 i = at; i < pos; i += HP) { size_t n = size_t(std::min<u64>(HP, pos - i)); s.xor_(p, c.data(), n); r.p->update(c.data(), n); } }
            break; }
        default: break;
        }
        return r;
    }
    bytes tag(const Alg& a, const RS& q) {
        RS r = q; if (r.h) return r.h->finish(); if (r.m) return r.m->finish(); if (a.kind == K_POLY) return r.p->finish();
        bytes z(16), len(16); u64 n = r.text ? r.pos : 0; if (!r.text) r.p->update(z.data(), (16 - r.aad % 16) % 16);
        r.p->update(z.data(), (16 - n % 16) % 16); for (int i = 0; i < 8; i++) { len[size_t(i)] = u8(r.aad >> 8 * i); len[size_t(8 + i)] = u8(n >> 8 * i); } r.p->update(len.data(), 16); return r.p->finish();
    }
    void same(const Alg& a, const u8* g, const bytes& e, const char* what, u64 pos) {
        R->count("outputs_judged"); for (size_t i = 0; i < e.size(); i++) if (g[i] != e[i]) { bad("wrong-output", fmt("%s: %s after %llu bytes: byte %zu of %zu differs: got %s expected %s", a.name.c_str(), what, (unsigned long long)pos, i, e.size(), hex(g + i / 16 * 16, e.size() - i / 16 * 16, 16).c_str(), hex(e.data() + i / 16 * 16, e.size() - i / 16 * 16, 16).c_str())); return; }
    }
    void check_tag(Alg& a, Work& x, int io, bool dup) { // digest (of a copy when dup)
        u8* m = x.mem; if (dup) { m = slot(7); Call c; c.op = O_COPY; c.self = m; c.other = x.mem; call(a, c); }
        Call c; c.op = O_DIGEST; c.self = m; c.io = io & 1; c.req = a.digest; c.out.p = place(R_OUT2, a.digest, 0); call(a, c); if (R->failed) return;
        bytes e = tag(a, x.r); if (c.ret != e.size()) { bad("size", a.name + ": digest size"); return; }
        R->log(c.out.p, c.ret); same(a, c.out.p, e, "digest", std::max(x.r.pos, x.r.aad));
        if (dup) { Call d; d.op = O_DTOR; d.self = m; call(a, d); }
    }
    static bool is_aad(char s) { return s == 'A' || s == 'B'; }
    // one call on the worker with the next n bytes of the stream; bookkeeping of the reference only when track is set
    void feed(Alg& a, Work& x, u64 n, int io, bool track) {
        Call c; c.self = x.mem; bool text = a.kind == K_CIPHER || (a.kind == K_AEAD && !(is_aad(style) && !x.r.text)); u64 pos = a.kind == K_AEAD && is_aad(style) && !text ? x.r.aad : x.r.pos; bytes_in += n;
        c.in = {in() + pos % HP, size_t(n)};
        if (!text) { c.op = O_ABSORB; c.ii = io & 1; call(a, c); if (a.kind == K_AEAD) x.r.aad += n; else x.r.pos += n; if (track) { if (x.r.h) x.r.h->update(c.in.p, n); else if (x.r.m) x.r.m->update(c.in.p, n); else x.r.p->update(c.in.p, n); } return; }
        c.op = O_CRYPT; c.io = io & 1; c.dec = decr; u8* o = (a.kind == K_AEAD && !decr ? real_out() : out()) + pos % (4 * HP); c.out = {o, size_t(n)}; call(a, c); if (R->failed) return;
        if (c.ret != n) { bad("size", fmt("%s: reports %zu bytes of %llu", a.name.c_str(), c.ret, (unsigned long long)n)); return; }
        // what is visible of the output: its end
        size_t v = size_t(std::min<u64>(n, n > HP ? 65536 : HP)); u64 from = pos + n - v; ref::Chacha s = stream(a); s.seek(from); bytes e(v); s.xor_(in() + from % HP, e.data(), v); R->log(o + n - v, v); same(a, o + n - v, e, decr ? "decryption" : "encryption", from);
        if (n > 4 * HP && !R->failed) { // and one random window of what the mirrored memory still holds
            u64 back = 65536 + (n * 0x9E3779B97F4A7C15ULL >> 40) % (4 * HP - 140000); from = pos + n - back; s = stream(a); s.seek(from); e.resize(4096); s.xor_(in() + from % HP, e.data(), 4096); same(a, o + n - back, e, decr ? "decryption" : "encryption", from); }
        if (track && x.r.p) x.r.p->update(decr ? c.in.p : o, size_t(n));
        x.r.pos += n;
    }
    ref::Chacha stream(const Alg& a) { if (a.kind == K_AEAD) { auto k = ref::aead_keys(par.key.data(), par.iv.data()); return ref::Chacha(par.key.data(), k.iv1); } return ref::Chacha(par.key.data(), par.iv.data()); }
    void log(const bytes& v) { R->log(v); }

    void base(const Op& o) { // base cfg total first chunk
        const Cfg& cf = CFG[u64(o.at(0)) % NCFG]; int ai = find(cf.alg); if (ai < 0) { bad("harness", "no such algorithm"); return; } Alg& a = *algs()[size_t(ai)]; style = cf.style; decr = style == 'D' || style == 'E';
        u64 total = u64(o.at(1)), first = u64(o.at(2)), chunk = u64(o.at(3)); par = Params();
        if (a.kind == K_POLY) par.key = gen_bytes(91, 0, 32); if (a.kind == K_CIPHER) { par.key = gen_bytes(92, 0, 32); par.iv = gen_bytes(93, 0, 16); } if (a.kind == K_AEAD) { par.key = akey(); par.iv = aiv(); } if (a.kind == K_HMAC) par.key = hkey();
        std::string key = fmt("%d %llu %llu %llu", ai, (unsigned long long)total, (unsigned long long)first, (unsigned long long)chunk) + style;
        if (bkey != key) { bkey = key; b = Base(); b.alg = ai; Run* R0 = R; Run t; R = &t; prepare(a, total, first, chunk); R = R0; b.cls = t.cls; b.msg = t.msg; b.ok = !t.failed; for (auto& k : t.stat) R->count(k.first.c_str(), k.second); u64 hv = t.hash; b.log.push_back(bytes((u8*)&hv, (u8*)&hv + 8)); R->count("streams_brought_to_the_brink"); R->count("simulated_bytes", bytes_in); bytes_in = 0; }
        for (auto& x : b.log) log(x);
        if (!b.ok) { bad(b.cls.c_str(), b.msg); return; }
        for (auto& x : w) x.st = S_RAW;
        if (a.kind != K_CODEC && !kdf(a)) { w[0].mem = slot(1); Call c; c.op = O_COPY; c.self = w[0].mem; c.other = b.mem; call(a, c); w[0].r = b.r; w[0].st = S_OPEN; R->count("restarts_from_saved_copy"); }
    }
    void prepare(Alg& a, u64 total, u64 first, u64 chunk) {
        Work x; x.mem = b.mem = slot(0); Call c; c.op = O_CTOR_INIT; c.self = x.mem;
        auto put = [&](int reg, const bytes& v) { u8* p = place(reg, v.size(), 0); memcpy(p, v.data(), v.size()); return In{p, v.size()}; };
        if (a.kind == K_CODEC) return;
        if (style == 'K') { huge_key(a, total); return; }
        c.key = put(R_KEY, par.key); c.iv = put(R_IV, par.iv); call(a, c);
        if (a.kind == K_AEAD && !is_aad(style)) { Call d; d.op = O_ABSORB; d.self = x.mem; d.in = put(R_INFO, aaad()); call(a, d); x.r.text = true; x.r.aad = d.in.n; }
        if (a.kind == K_CIPHER) x.r.text = true;
        u64 done = 0; if (first) { x.r.p.reset(); feed(a, x, first, 0, false); done = first; }
        bool tags = a.kind != K_CIPHER;
        for (int k = 0; k < 3 && !R->failed; k++) {
            u64 stop = k < 2 ? HMARK[k] + HP + (total * 2654435761u >> (7 * k)) % 3000 - 1500 : total;
            if (k < 2 && (style == 'S' || style == 'E' || style == 'B')) continue;
            while (done < stop && !R->failed) { u64 n = k == 2 && (style == 'S' || style == 'E' || style == 'B') ? stop - done : std::min(chunk, stop - done); feed(a, x, n, int(done >> 5), false); done += n; }
            if (R->failed) return;
            if (tags) { Work y = x; y.r = ref_at(a, style, done); check_tag(a, y, k, true); }
        }
        if (a.kind == K_AEAD && !decr) madvise(real_out(), VOUT, MADV_DONTNEED);
        b.r = a.kind == K_CIPHER ? x.r : ref_at(a, style, total); b.r.text = x.r.text; if (a.kind == K_CIPHER) b.r.pos = total;
    }
    void huge_key(Alg& a, u64 total) { // the message digest of 4 GiB is the key / the salt / the input key material
        bytes small = gen_bytes(61, 0, 33); bytes_in += total; Call c; c.op = O_CTOR_INIT; c.self = b.mem; bytes e, k = hkey();
        auto put = [&](int reg, const bytes& v) { u8* p = place(reg, v.size(), 0); memcpy(p, v.data(), v.size()); return In{p, v.size()}; };
        if (a.kind == K_HMAC) {
            RS r; r.h.emplace(a.hash); u64 at = 0; auto& m = mid(0, a.hash, total, &at); if (at) r.h->load(m.v, at); for (u64 i = at; i < total; i += HP) r.h->update(in(), size_t(std::min<u64>(HP, total - i)));
            bytes hk = r.h->finish(); c.key = {in(), size_t(total)}; call(a, c); b.r = RS(); b.r.m.emplace(a.hash, hk.data(), hk.size()); return;
        }
        RS r; r.m.emplace(a.hash, k.data(), k.size()); u64 at = 0; auto& m = mid(1, a.hash, total, &at); if (at) r.m->inner().load(m.v, at + ref::hash_block(a.hash)); for (u64 i = at; i < total; i += HP) r.m->update(in(), size_t(std::min<u64>(HP, total - i)));
        if (a.kind == K_HKDF) { bytes prk = r.m->finish(); ref::Hmac h(a.hash, prk.data(), prk.size()); h.update(small.data(), small.size()); u8 one = 1; h.update(&one, 1); e = h.finish(); c.key = {in(), size_t(total)}; c.iv = put(R_IV, k); c.info = put(R_INFO, small); }
        else { u8 be[4] = {0, 0, 0, 1}; r.m->update(be, 4); bytes u = r.m->finish(); e = u; bytes u2 = ref::hmac(a.hash, k, u); for (size_t i = 0; i < e.size(); i++) e[i] ^= u2[i]; c.key = put(R_KEY, k); c.iv = {in(), size_t(total)}; c.iters = 2; }
        call(a, c); Call d; d.op = O_DERIVE; d.self = b.mem; d.req = e.size(); d.out.p = place(R_OUT2, e.size(), 0); call(a, d); if (R->failed) return; R->log(d.out.p, e.size());
        if (d.ret != e.size()) bad("size", a.name + ": derived size"); else same(a, d.out.p, e, "derived key", total);
    }
    // codec: one call over n bytes
    void codec(const Op& o) { // cod n what(0 encode, 1 decode, 2 decode damaged) io at
        const Alg& a0 = *algs()[size_t(b.alg)]; Alg& a = const_cast<Alg&>(a0); bool b64 = a.hash == 64; u64 n = u64(o.at(0)); int what = int(o.at(1)); if (b64 && what) n = n / 3 * 3; bytes_in += n;
        auto text = [&](u64 from, size_t len) { // reference text [from, from+len)
            u64 g = b64 ? from / 4 : from / 2, i = g * (b64 ? 3 : 1); size_t want = b64 ? (len / 4 + 2) * 3 : len / 2 + 2; bytes m; for (size_t k = 0; k < want && i + k < n; k++) m.push_back(hpat()[size_t((i + k) % HP)]);
            std::string t = b64 ? ref::b64enc(m) : ref::b16enc(m); t = t.substr(size_t(from - g * (b64 ? 4 : 2))); t.resize(std::min(t.size(), len)); return bytes(t.begin(), t.end()); };
        u64 tn = b64 ? (n + 2) / 3 * 4 : n * 2; Call c; { static const int ev[5] = {0, 1, 3, 7, 9}, dv[8] = {0, 1, 7, 3, 9, 10, 11, 13}; c.io = what ? dv[o.at(2) & 7] : ev[o.at(2) % 5]; } tl.mon = 0;
        if (what == 0) {
            out(); c.op = O_ENC; c.in = {in(), size_t(n)}; c.out = {out(), size_t(tn)}; call(a, c); if (R->failed) return;
            if (c.ret != tn || c.sized != tn) { bad("size", fmt("%s: encoding %llu bytes reports %zu (encode_size %zu), %llu expected", a.name.c_str(), (unsigned long long)n, c.ret, c.sized, (unsigned long long)tn)); return; }
            u64 at = u64(o.at(3)) % (4 * HP - 20000); for (u64 from : {tn - 9000, tn - 4 * HP + at}) { bytes e = text(from, 9000); R->log(out() + from, e.size()); same(a, out() + from, e, "encoded text", from); if (R->failed) return; }
            return;
        }
        // mirrored text with a private end
        size_t per = 4 * HP; if (!TXT) { TXT = mirror(0x230000000000, VOUT, per, PROT_READ | PROT_WRITE, nullptr); }
        { u64 keep = n; n = ~0ULL >> 4; bytes t = text(0, per); n = keep; memcpy(TXT, t.data(), per); }
        u64 e0 = (tn - 1) / 4096 * 4096; u8* pg = TXT + e0; bytes endp(pg, pg + 4096); // the last page becomes private
        if (mmap(pg, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { bad("harness", "mmap"); return; }
        bytes le = text(e0, size_t(tn - e0)); memcpy(pg, le.data(), le.size()); u64 hit = 0; if (what == 2) { hit = tn - 1 - u64(o.at(3)) % le.size(); TXT[hit] = '!'; R->count("fault_byte_replaced_beyond_4_gib"); }
        c.op = O_DEC; c.in = {TXT, size_t(tn)}; c.out = {dec(), size_t(n)}; call(a, c);
        u64 good = what == 2 ? (b64 ? hit / 4 * 3 : hit / 2) : n; bool ok = c.has_err ? !c.err : c.threw == T_NONE;
        // give the page back to the mirror: simplest is to unmap the whole text
        munmap(TXT, VOUT + 65536); TXT = nullptr; if (R->failed) return; R->log(u64(ok)); R->log(u64(c.ret));
        if (ok != (what == 1)) { bad("verdict", fmt("%s: decoding %llu bytes %s", a.name.c_str(), (unsigned long long)tn, ok ? "accepts damage beyond 4 GiB" : "fails")); return; }
        if (ok ? c.ret != n || c.sized != n : c.ret > good) { bad("size", fmt("%s: decoding %llu bytes reports %zu (decode_size %zu), %llu expected", a.name.c_str(), (unsigned long long)tn, c.ret, c.sized, (unsigned long long)good)); return; }
        if (!ok && !c.has_err) return; u64 from = (ok ? n : c.ret) - 9000; bytes e; for (u64 i = 0; i < 9000; i++) e.push_back(hpat()[size_t((from + i) % HP)]); same(a, dec() + from, e, "decoded bytes", from);
    }
    // One call over up to a terabyte of which only the first w bytes exist: the rest cannot be accessed, so a correct
    // call meets the edge (the simulated crash) - and a call that lost the upper half of a size ends early instead.
    static constexpr size_t GW = 1 << 16; static constexpr u64 GN = 1ULL << 41;
    static u8* area(int i) { // [64 KiB of memory][2 TiB of nothing]
        static u8* a[4]; if (!a[i]) { u64 at = 0x300000000000ULL + u64(i) * 0x40000000000ULL; a[i] = (u8*)mmap((void*)at, GN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (a[i] == MAP_FAILED || mprotect(a[i], GW, PROT_READ | PROT_WRITE)) _exit(98); }
        return a[i];
    }
    struct GArg { Alg* a; Call* c; };
    // a key or nonce of 4 GiB or more that is cut: nothing after the part that counts can be accessed
    void giant_key(Alg& a, Params p, u64 n, bool one, int io, u64 pre, Rng& r) {
        p.kodd = p.iodd = false; bool gk = a.kind == K_POLY || r.chance(65), gi = a.kind != K_POLY && (!gk || r.chance(40)); n = (n >> 32 << 32) + r.below(r.chance(80) ? 34 : 400);
        auto put = [&](int reg, const bytes& v) { u8* q = place(reg, v.size(), 0); if (!v.empty()) memcpy(q, v.data(), v.size()); return In{q, v.size()}; };
        auto give = [&](const bytes& v, int i) { size_t w = v.size() + r.below(3) * r.below(40); u8* q = area(i) + GW - w; bytes j = gen_bytes(n, 0, w); memcpy(q, j.data(), w); memcpy(q, v.data(), v.size()); return In{q, size_t(n)}; };
        Call c; c.self = slot(6); c.key = gk ? give(p.key, 0) : put(R_KEY, p.key); c.iv = gi ? give(p.iv, 1) : put(R_IV, p.iv); c.ii = io & 1; c.io = io >> 1 & 1;
        Model m; m.fresh(p); bytes d = gen_bytes(3, 0, size_t(pre)), ad = gen_bytes(9, 0, 19), t; const char* name = gk ? gi ? "a key and a nonce" : "a key" : "a nonce"; u8 *o = place(R_OUT, d.size(), 0), *o2 = place(R_OUT2, 16, 0); size_t got = 0; In din = put(R_IN, d); bool dec = false, tag = a.kind != K_CIPHER, text = a.kind != K_POLY;
        auto go = [&](Call& x) { tl.mon = 0; if (run_giant(a, x)) { bad("crash", fmt("%s: %s of %llu bytes: %s", a.name.c_str(), name, (unsigned long long)n, g_fault)); return false; } if (x.threw != T_NONE) { bad("exception", fmt("%s: %s of %llu bytes: operation %d throws", a.name.c_str(), name, (unsigned long long)n, x.op)); return false; } return true; };
        if (a.kind == K_POLY) m.data = d; if (a.kind == K_AEAD) m.aad = ad;
        bytes e = text ? model_crypt(a, p, 0, d) : bytes(); if (a.kind == K_AEAD) m.data = e;
        if (tag) t = model_digest(a, m);
        if (one && a.apie) {
            c.ii = 0; c.in = din; c.req = t.size(); if (a.kind == K_POLY) c.out = {o2, t.size()}; else { c.out = {o, d.size()}; c.out2 = {o2, 16}; } if (a.kind == K_AEAD) c.info = put(R_INFO, ad);
            c.op = O_ONESHOT; if (!go(c)) return; got = a.kind == K_POLY ? c.ret : t.size();
        } else {
            c.op = O_CTOR_INIT; if (!go(c)) return; if (r.chance(30)) { Call i = c; i.op = O_INIT; if (!go(i)) return; }
            if (!text || a.kind == K_AEAD) { Call u = c; u.op = O_ABSORB; u.in = text ? put(R_INFO, ad) : din; if (!go(u)) return; if (text && !a.apie) { Call v = c; v.op = O_AADOVER; if (!go(v)) return; } }
            if (text) { Call u = c; u.op = O_CRYPT; u.in = din; u.out = {o, d.size()}; u.dec = dec; if (!go(u)) return; }
            if (tag) { if (!a.apie) { Call f = c; f.op = O_FINALIZE; if (!go(f)) return; } Call u = c; u.op = O_DIGEST; u.req = t.size(); u.out = {o2, t.size()}; if (!go(u)) return; got = u.ret; }
        }
        R->count("giant_calls_that_returned"); R->count("giant_keys_and_nonces"); R->log(o, e.size()); R->log(o2, t.size()); { u64 v[4] = {fnv(a.name.data(), a.name.size()), u64(gk * 2 + gi), std::min<u64>(n & 0xFFFFFFFF, 40), u64(one * 4 + io % 4)}; R->sig(fnv(v, sizeof v)); }
        if (got != t.size()) { bad("size", fmt("%s: %s of %llu bytes: %zu bytes reported, %zu expected", a.name.c_str(), name, (unsigned long long)n, got, t.size())); return; }
        if (text) same(a, o, e, gk ? "encryption under a giant key" : "encryption under a giant nonce", 0);
        if (tag && !R->failed) same(a, o2, t, gk ? "digest under a giant key" : "digest under a giant nonce", 0);
    }
    // gia alg what n win io pre seed
    void giant(const Op& o) {
        Alg& a = *algs()[u64(o.at(0)) % algs().size()]; int what = int(o.at(1)); u64 n = u64(o.at(2)) % (GN / 4), win = u64(o.at(3)) % (GW - 4096), pre = u64(o.at(5)) % 200; if (n < 1ULL << 32) return; int io = int(o.at(4)); Rng r(u64(o.at(6)));
        auto put = [&](int reg, const bytes& v) { u8* p = place(reg, v.size(), 0); if (!v.empty()) memcpy(p, v.data(), v.size()); return In{p, v.size()}; };
        auto big = [&](int i, u64 w) { u8* p = area(i) + GW - w; bytes d = gen_bytes(u64(o.at(6)) + u64(i), 0, size_t(w)); memcpy(p, d.data(), w); return p; };
        Params p = gen_params(a, u64(o.at(6)), 0, 32 + r.below(40), r.below(40), r.below(40), 1 + u32(r.below(3)), 0); if (a.kind == K_CODEC) p = Params();
        Call c; c.self = slot(6); c.key = put(R_KEY, p.kin()); c.iv = put(R_IV, p.iin()); c.info = put(R_INFO, p.info); c.iters = p.iters;
        std::vector<std::pair<u8*, u64>> ranges; u8 *ob = nullptr; u64 ow = 0; bytes exp; bool ends = false; const char* name = ""; int ret_rule = 0;   // ret_rule 1: digest, 2: at least the 255 blocks
        bool one = io >= 8; io &= 7;
        auto init = [&] { Call i = c; i.op = O_CTOR_INIT; call(a, i); };
        auto give = [&](In& x, int ai) { x = {big(ai, win), size_t(n)}; ranges.push_back({(u8*)x.p, n}); };
        auto target = [&](u64 w) { ob = area(3) + GW - w; ow = w; bytes j = gen_bytes(99, 0, size_t(w)); memcpy(ob, j.data(), w); };
        if (what == 3 && (a.kind == K_POLY || a.kind == K_CIPHER || a.kind == K_AEAD)) { giant_key(a, p, n, one, io, pre, r); return; }
        Model m; m.fresh(p);
        switch (a.kind) {
        case K_HASH: case K_HMAC: case K_POLY:
            c.req = a.digest; c.out = {place(R_OUT2, a.digest, 0), a.digest};
            if (what == 1) { init(); bytes d = gen_bytes(3, 0, size_t(pre)); Call u = c; u.op = O_ABSORB; u.in = put(R_IN, d); call(a, u); m.data = d; if (!a.apie) { Call f; f.self = c.self; f.op = O_FINALIZE; call(a, f); } c.op = O_DIGEST; c.io = io & 1; c.req = size_t(n); exp = model_digest(a, m); ends = true; ret_rule = 1; name = "a request for a digest"; break; }
            if (what == 2 && a.kind == K_HMAC) { give(c.key, 0); c.op = one ? O_ONESHOT : O_CTOR_INIT; c.ii = a.apie && !one ? (io & 1 ? 2 : 0) : io & 1; c.io = io & 1; if (one) c.in = put(R_IN, gen_bytes(4, 0, 33)); if (one && !a.apie) return; name = "a key"; break; }
            if (one && a.apie) { give(c.in, 0); c.op = O_ONESHOT; c.io = io & 1; name = "a one-call message"; break; }
            init(); if (pre) { Call u = c; u.op = O_ABSORB; u.in = put(R_IN, gen_bytes(3, 0, size_t(pre))); call(a, u); }
            give(c.in, 0); c.op = O_ABSORB; c.ii = a.apie ? io % 4 : io & 1; name = "an update"; break;
        case K_CIPHER: case K_AEAD: {
            if (a.kind == K_AEAD && what == 1) { if (one && a.apie) { give(c.info, 0); c.in = put(R_IN, gen_bytes(4, 0, 33)); c.out = {place(R_OUT, 33, 0), 33}; c.out2 = {place(R_OUT2, 16, 0), 16}; c.op = r.chance(50) ? O_ONESHOT : O_OPEN; c.tag = put(R_TAG, bytes(16)); c.io = io & 1; if (c.op == O_OPEN) ends = false; name = "one-call associated data"; break; }
                init(); if (pre) { Call u = c; u.op = O_ABSORB; u.in = put(R_IN, gen_bytes(3, 0, size_t(pre))); call(a, u); } give(c.in, 0); c.op = O_ABSORB; c.ii = a.apie ? io % 4 : io & 1; name = "associated data"; break; }
            if (a.kind == K_AEAD && what == 2) { if (!a.apie) return; // a tag of 4 GiB that begins like the right one
                init(); bytes d = gen_bytes(3, 0, size_t(pre)); Call u = c; u.op = O_ABSORB; u.in = put(R_IN, d); call(a, u); m.aad = d; bytes t = model_digest(a, m); c.tag = {area(0) + GW - t.size(), size_t((n >> 32 << 32) + 16)}; memcpy((u8*)c.tag.p, t.data(), 16); ranges.push_back({(u8*)c.tag.p, c.tag.n}); c.op = O_VERIFY; c.io = io % 3; ends = true; ret_rule = 3; name = "a tag"; break; }
            bool dec = r.chance(50); c.dec = dec; u64 skip = 0;
            give(c.in, 0); bytes d(c.in.p, c.in.p + win); target(win + r.below(300)); c.out = {ob, size_t(n)}; ranges.push_back({ob, n});
            if (one && a.apie) { if (a.kind == K_AEAD) { c.info = put(R_INFO, gen_bytes(9, 0, size_t(pre))); c.out2 = {place(R_OUT2, 16, 0), 16}; c.op = dec ? O_OPEN : O_ONESHOT; c.tag = put(R_TAG, bytes(16)); } else c.op = O_ONESHOT; c.io = io & 1; name = "a one-call message"; }
            else { init(); if (pre) { bytes x = gen_bytes(3, 0, size_t(pre)); Call u = c; u.op = O_CRYPT; u.in = put(R_IN, x); u.out = {place(R_OUT, x.size(), 0), x.size()}; u.io = 0; call(a, u); skip = pre; } c.op = O_CRYPT; c.io = a.apie && io % 4 == 3 ? 3 : io & 1; name = "a message"; }
            exp = model_crypt(a, p, skip, d); break; }
        case K_HKDF: case K_PBKDF2:
            if (what == 0) { u64 L = a.digest; target(a.kind == K_HKDF ? 255 * L + 200 : win % 3000); c.out = {ob, size_t(n)}; c.req = size_t(n); ranges.push_back({ob, n});
                exp = model_kdf(a, m, 0, a.kind == K_HKDF ? size_t(255 * L) : size_t(ow)); if (a.kind == K_HKDF) ret_rule = 2; name = "a request for a key"; if (one && a.apie) { c.op = O_ONESHOT; c.io = io & 1; } else { init(); c.op = O_DERIVE; c.io = a.apie && io % 4 == 3 ? 3 : io & 1; } break; }
            if (what == 1) { give(c.key, 0); name = "input key material"; } else if (what == 2) { give(c.iv, 0); name = "a salt"; } else { if (a.kind != K_HKDF) return; give(c.info, 0); name = "an info string"; }
            { u8* q = place(R_OUT2, 32, 0); c.out = {q, 32}; c.req = 32; if (one && a.apie) { c.op = O_ONESHOT; c.io = io & 1; } else { Call i = c; i.op = O_CTOR_INIT; i.ii = io & 1; c.op = O_DERIVE; c.io = 0; if (!run_giant(a, i)) break; if (!hit(a, ranges, name)) return; R->count("calls_that_met_the_edge"); return; } }
            break;
        case K_CODEC: { // the text or the bytes end where nothing is mapped
            bool b64 = a.hash == 64, dec = what & 1; if (dec) { n = b64 ? n / 4 * 4 : n / 2 * 2; bytes mm = gen_bytes(u64(o.at(6)), 0, GW); std::string t = b64 ? ref::b64enc(bytes(mm.begin(), mm.begin() + GW / 4 * 3 / 3 * 3 - 3)) : ref::b16enc(mm); c.in = {area(0) + GW - win, size_t(n)}; memcpy((u8*)c.in.p, t.data(), win); ranges.push_back({(u8*)c.in.p, n}); bytes full(mm); size_t k = size_t(b64 ? win / 4 * 3 : win / 2); exp.assign(full.begin(), full.begin() + i64(k)); target(k + 64 + r.below(300)); c.op = O_DEC; name = "a text"; }
            else { give(c.in, 0); bytes d(c.in.p, c.in.p + win); std::string t; if (b64) { d.resize(d.size() / 3 * 3); t = ref::b64enc(d); } else t = ref::b16enc(d); exp.assign(t.begin(), t.end()); target(exp.size() + 8 + r.below(300)); c.op = O_ENC; name = "bytes to encode"; }
            c.out = {ob, size_t(dec ? n : n * 2)}; ranges.push_back({ob, n * 2}); { static const int ev[5] = {0, 1, 3, 7, 9}, dv[6] = {0, 1, 7, 9, 10, 13}; c.io = dec ? dv[io % 6] : ev[io % 5]; } break; }
        }
        if (R->failed) return;
        bool crashed = run_giant(a, c);
        if (crashed && !hit(a, ranges, name)) return;
        R->count(crashed ? "calls_that_met_the_edge" : "giant_calls_that_returned"); R->log(u64(crashed)); { u64 v[5] = {u64(o.at(0)), u64(what), u64(63 - __builtin_clzll(n | 1)), u64(o.at(4)), n % 4}; R->sig(fnv(v, sizeof v)); }
        if (!crashed) {
            if (ret_rule == 1) { if (c.ret != exp.size()) bad("size", fmt("%s: %s of %llu bytes yields %zu bytes, %zu expected", a.name.c_str(), name, (unsigned long long)n, c.ret, exp.size())); else same(a, c.out.p, exp, "digest", pre); return; }
            if (ret_rule == 2) { if (c.ret < exp.size()) bad("size", fmt("%s: %s of %llu bytes yields only %zu", a.name.c_str(), name, (unsigned long long)n, c.ret)); else same(a, ob, exp, "derived key", 0); return; }
            if (ret_rule == 3) { bool ok = c.has_err ? c.err == 0 : c.threw == T_NONE; R->count("verdicts_judged"); if (ok) bad("verdict", fmt("%s: accepts a tag of %zu bytes", a.name.c_str(), c.tag.n)); return; }
            bad("early-end", fmt("%s: %s of %llu bytes was done without reaching byte %llu (op %d, interface %d)", a.name.c_str(), name, (unsigned long long)n, (unsigned long long)win, c.op, c.io)); return;
        }
        if (ends && ret_rule == 1) { bad("crash", fmt("%s: %s of %llu bytes: %s", a.name.c_str(), name, (unsigned long long)n, g_fault)); return; }
        if (ob && !exp.empty()) { // what has been written so far is right
            bytes j = gen_bytes(99, 0, size_t(ow)); size_t good = 0; R->count("outputs_judged");
            for (size_t i = 0; i < ow; i++) { if (i < exp.size() ? ob[i] == exp[i] : a.kind == K_HKDF) { good++; continue; } if (ob[i] != j[i]) { bad("wrong-output", fmt("%s: %s of %llu bytes: byte %zu written before the edge is %02x, expected %02x", a.name.c_str(), name, (unsigned long long)n, i, ob[i], i < exp.size() ? exp[i] : j[i])); return; } }
            R->log(ob, ow);
        }
    }
    bool run_giant(Alg& a, Call& c) { GArg g{&a, &c}; R->count("library_calls"); R->count("fault_memory_ends_inside_the_call"); tl.mon = 0; return guarded([](void* v) { auto* x = (GArg*)v; x->a->exec(*x->c); }, &g); }
    bool hit(Alg& a, const std::vector<std::pair<u8*, u64>>& rs, const char* name) {
        for (auto& q : rs) if (g_fault_addr >= u64(q.first) && g_fault_addr < u64(q.first) + q.second) return true;
        bad("crash", fmt("%s: %s of gigantic size: %s", a.name.c_str(), name, g_fault)); return false;
    }
    void step(const Op& o) {
        if (o.k == "gia") { giant(o); return; }
        if (o.k == "base") { base(o); return; }
        if (b.alg < 0 || !b.ok) return; Alg& a = *algs()[size_t(b.alg)];
        if (o.k == "cod") { if (a.kind == K_CODEC) codec(o); return; }
        if (a.kind == K_CODEC || kdf(a)) return;
        Work& x = w[u64(o.at(0)) % 2];
        auto cls = [](u64 p) { return p < (1ULL << 32) - 64 ? 0 : p < (1ULL << 32) ? 1 : p < (1ULL << 32) + 64 ? 2 : 3; };
        if (o.k == "fed" || o.k == "txt") {
            if (x.st != S_OPEN) return; u64 n = u64(o.at(1)) & 0xFFFFFF; u64 p0 = x.r.pos + (is_aad(style) ? x.r.aad : 0);
            if (o.k == "txt") { if (!is_aad(style) || a.kind != K_AEAD) return; if (!x.r.text) { bytes z(16); x.r.p->update(z.data(), (16 - x.r.aad % 16) % 16); x.r.text = true; x.r.pos = 0; } }
            else if (is_aad(style) && x.r.text) return;
            feed(a, x, n, int(o.at(2)), true); u64 p1 = x.r.pos + (is_aad(style) ? x.r.aad : 0);
            u64 v[4] = {u64(b.alg) * 256 + u64(style), u64(cls(p0) * 4 + cls(p1)), p0 % 64, n < 300 ? n : 300 + n % 64}; R->sig(fnv(v, sizeof v)); if (cls(p0) < 2 && cls(p1) >= 2) R->count("calls_across_the_brink"); return;
        }
        if (o.k == "snp" || o.k == "rst") { // save a copy, crash and restart from it
            Work &f = o.k == "snp" ? x : w[2], &t = o.k == "snp" ? w[2] : x; if (f.st != S_OPEN || x.st == S_RAW && o.k == "snp") return; if (!t.mem) t.mem = slot(1 + int(&t - w));
            if (t.st != S_RAW && o.at(1)) { Call d; d.op = O_DTOR; d.self = t.mem; call(a, d); }
            Call c; c.op = O_COPY; c.self = t.mem; c.other = f.mem; call(a, c); t.r = f.r; t.st = f.st; R->count(o.k == "snp" ? "snapshots" : "restarts_from_saved_copy"); return;
        }
        if (o.k == "cpy") { Work &f = w[0], &t = w[1]; if (f.st != S_OPEN) return; if (!t.mem) t.mem = slot(2); Call c; c.op = O_COPY; c.self = t.mem; c.other = f.mem; call(a, c); t.r = f.r; t.st = S_OPEN; R->count("copies_and_moves"); return; }
        if (o.k == "dig") { if (x.st != S_OPEN || a.kind == K_CIPHER) return; check_tag(a, x, int(o.at(1)), o.at(2) & 1); if (!(o.at(2) & 1)) x.st = S_FINAL; return; }
    }
    struct Arg { Huge* w; const Plan* p; u64 n; };
    void exec(const Plan& p, Run& r) override {
        R = &r; Arg arg{this, &p, 0}; hang_arm(400); w[0].mem = w[1].mem = w[2].mem = nullptr; for (auto& x : w) { x.st = S_RAW; x.r = RS(); }
        if (guarded([](void* v) { auto* x = (Arg*)v; for (auto& o : *x->p) { x->n++; x->w->step(o); if (x->w->R->failed) return; } }, &arg)) { r.fail("crash", fmt("operation %llu: %s", (unsigned long long)arg.n, g_fault)); bkey.clear(); TXT = nullptr; }
        hang_arm(0); r.count("operations", arg.n); r.count("simulated_bytes", bytes_in); bytes_in = 0;
    }
    // C15 goes through the whole list; as the second world of another property the jobs 70, 71, ... are its own entries
    const char* group() const { return prop == "C01" ? "hash" : prop == "C02" ? "mac" : prop == "C03" ? "cipher" : prop == "C04" ? "aead" : prop == "C06" ? "kdf" : prop == "C07" ? "codec" : nullptr; }
    u64 pick(u64 job) {
        const char* want = group();
        if (!want) return job % 100 % u64(NCFG);
        std::vector<u64> v; for (int i = 0; i < NCFG; i++) if (!strncmp(CFG[i].alg, want, strlen(want))) v.push_back(u64(i));
        return v[(job % 100 - 70) % v.size()];
    }
    Plan gen(u64 seed) override {
        u64 job = seed / 100000, ci = pick(job), idx = seed % 100000; Rng j(job * 77 + 5); Plan p; auto add = [&](const char* k, std::vector<i64> a) { p.push_back({k, std::move(a)}); };
        char st = CFG[ci].style; bool single = st == 'S' || st == 'E' || st == 'B'; i64 B = 1LL << 32;
        i64 total = st == 'K' ? B + j.range(-300, 300) : single ? B + (j.chance(50) ? j.range(-200, 200) : j.range(0, 900000)) : B - (j.chance(70) ? j.range(0, 300) : j.range(0, 9000));
        i64 first = j.chance(60) ? j.range(1, 130) : 0; if (single && j.chance(50)) total = std::max(total, B + first + j.range(0, 64)); bool seal = st == 'C' && std::string(CFG[ci].alg).find("aead") == 0; i64 chunk = seal || j.chance(50) ? (1 << 26) + j.range(0, 1000) : (1 << 29) + j.range(-1000, 1000);
        Rng r(seed);
        if (idx % 3 == 2) { // giant calls of any algorithm of the group
            const char* g = group(); std::vector<i64> al; for (size_t i = 0; i < algs().size(); i++) if (!g || algs()[i]->name.find(g) == 0) al.push_back(i64(i));
            for (int k = 0; k < 6; k++) { i64 e = r.chance(30) ? 32 : r.range(32, 38), res = r.chance(20) ? 0 : i64(r.below(r.chance(60) ? 200 : 9000)), n = (1LL << e) * (r.chance(80) ? 1 : i64(1 + r.below(5))) + res; bool whole = r.chance(60); if (whole) { n = n / 256 * 256; e = r.range(35, 38); if (r.chance(60)) n = (1LL << e) + res / 256 * 256; }
                add("gia", {r.pick(al), i64(r.below(4)), n % (1LL << 39), res + i64(r.below(r.chance(50) ? 70 : 4000)), i64(r.below(16)), whole || r.chance(40) ? 0 : i64(r.below(200)), i64(r.below(1 << 20))}); }
            return p;
        }
        add("base", {i64(ci), total, first, chunk});
        if (st == 'X') { if (idx >= 4) return {}; add("cod", {B + r.range(-20, 5000), i64(idx % 3), i64(r.chance(40) ? 2 : r.below(40)), i64(r.below(1u << 20))}); return p; }
        if (idx >= 1 && std::string(CFG[ci].alg).find("kdf") == 0) return {};
        int n = int(r.range(2, 14)); bool cpy = false;
        for (int i = 0; i < n; i++) {
            i64 s = cpy ? i64(r.below(2)) : 0; auto sz = [&]() -> i64 { switch (r.below(6)) { case 0: return i64(r.below(4)); case 1: return 64 * i64(r.below(8)) + r.range(-1, 1) & 0xFFFFFF; case 2: return i64(r.below(70)); case 3: return i64(r.below(500)); case 4: return 128 * i64(r.below(12)); default: return i64(r.below(6000)); } };
            switch (r.below(12)) {
            case 0: add("snp", {s, i64(r.below(2))}); break;
            case 1: add("rst", {s, i64(r.below(2))}); break;
            case 2: add("cpy", {0}); cpy = true; break;
            case 3: add("dig", {s, i64(r.below(2)), 1}); break;
            case 4: add("txt", {s, sz(), i64(r.below(2))}); break;
            default: { i64 z = sz(); if (z < 0) z = 0; add("fed", {s, z, i64(r.below(2))}); }
            }
        }
        add("dig", {0, i64(r.below(2)), 0}); if (cpy) add("dig", {1, i64(r.below(2)), 0});
        return p;
    }
};
}
World* make_huge(const std::string& p) { return new Huge(p); }
