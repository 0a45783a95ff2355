// Channel worlds.  A sender seals (C05) or encodes (C07) messages with the real
// library, a simulated channel damages what is in transit, and a receiver opens
// or decodes it through every interface the library has.  The oracle computes
// the verdict from the damaged bytes alone.
#include <algorithm>
#include "world.hpp"
namespace {
constexpr int NREC = 4;
struct Rec { bool used = false; Params p; bytes aad; std::vector<bytes> ct; bytes tag; };
static bytes join(const std::vector<bytes>& f) { bytes r; for (auto& x : f) r.insert(r.end(), x.begin(), x.end()); return r; }

struct Chan : World {
    bool codec; std::vector<int> pool; Run* R = nullptr; Rec orig[NREC], wire[NREC]; bytes text[NREC], sent[NREC], msg[NREC]; int kind[NREC];
    u64 ops = 0;
    explicit Chan(const std::string& p) { prop = p; codec = p == "C07"; for (size_t i = 0; i < algs().size(); i++) if (codec ? algs()[i]->kind == K_CODEC : (algs()[i]->kind == K_AEAD && algs()[i]->apie)) pool.push_back(int(i)); }
    Alg& A(u64 i) { return *algs()[size_t(pool[i % pool.size()])]; }
    void bad(const char* c, const std::string& m) { R->fail(c, m); }
    In put(int reg, const bytes& b, int mode) { u8* p = place(reg, b.size(), mode); if (!b.empty()) memcpy(p, b.data(), b.size()); return {p, b.size()}; }
    static constexpr size_t CAN = 64;
    Buf outbuf(int reg, size_t n, int mode) { u8* p = place(reg, n, mode); Region& r = region(reg); u8* lo = p - CAN < r.base ? r.base : p - CAN; u8* hi = p + n + CAN > r.base + r.size ? r.base + r.size : p + n + CAN; for (u8* q = lo; q < hi; q++) *q = u8(0xC3 ^ (u64(q) * 7)); return {p, n}; }
    bool intact(int reg, const Buf& b, size_t n) { Region& r = region(reg); u8* lo = b.p - CAN < r.base ? r.base : b.p - CAN; u8* hi = b.p + b.n + CAN > r.base + r.size ? r.base + r.size : b.p + b.n + CAN; for (u8* q = lo; q < hi; q++) { if (q >= b.p && q < b.p + n) continue; if (*q != u8(0xC3 ^ (u64(q) * 7))) return false; } return true; }
    void sig(const Alg& a, u64 x, u64 y, u64 z, u64 w = 0) { u64 h = fnv(a.name.data(), a.name.size()); for (u64 v : {x, y, z, w, u64(g_cpu_id)}) h = fnv(&v, 8, h); R->sig(h); }
    void call(Alg& a, Call& c) { R->count("library_calls"); c.pre = stale_size(ops * 7919 + u64(c.io) * 131 + c.in.n, c.op == O_ENC ? (a.hash == 16 ? c.in.n * 2 : (c.in.n + 2) / 3 * 4) : c.op == O_DEC ? c.out.n : c.in.n); a.exec(c); if (c.threw == T_BADALLOC || c.threw == T_USER || c.threw == T_OTHER) bad("exception", fmt("%s: op %d interface %d threw something that is not a library error", a.name.c_str(), c.op, c.io)); }

    // ---- C05 -----------------------------------------------------------------
    // cut b into fragments, a pure function of seed
    static std::vector<bytes> cut(const bytes& b, u64 seed) { Rng r(seed); std::vector<bytes> v; size_t i = 0; int style = int(r.below(4)); while (i < b.size()) { size_t n = style == 0 ? b.size() : style == 1 ? 16 * (1 + r.below(8)) : style == 2 ? 1 + r.below(70) : r.below(200); n = std::min(n, b.size() - i); v.push_back(bytes(b.begin() + i64(i), b.begin() + i64(i + n))); i += n; } return v; }
    u8* inst(u64 j) { return region(R_SLOTS).base + 4096 + (j % 4) * 64; }
    bool init(Alg& a, u8* m, const Params& p, int ii) { Call c; c.op = O_CTOR_INIT; c.self = m; c.ii = ii; c.key = put(R_KEY, p.key, 0); c.iv = put(R_IV, p.iv, 0); call(a, c); return !R->failed; }
    void seal(const Op& o) { // msg i alg kseed nseed aseed an dseed dmode n way frag ii io
        int i = int(u64(o.at(0)) % NREC); Alg& a = A(u64(o.at(1))); Rec& q = orig[i]; q = Rec(); q.used = true;
        q.p.key = gen_bytes(u64(o.at(2)), 0, 32); q.p.iv = gen_bytes(u64(o.at(3)), 0, 12); q.aad = gen_bytes(u64(o.at(4)), 0, size_t(o.at(5))); bytes pt = gen_bytes(u64(o.at(6)), int(o.at(7)), size_t(o.at(8)));
        bytes ct = model_crypt(a, q.p, 0, pt); Model m; m.fresh(q.p); m.aad = q.aad; m.data = ct; bytes tag = model_digest(a, m);
        q.ct = cut(ct, u64(o.at(10))); q.tag = tag; bytes got, gtag; sig(a, 1, u64(o.at(9)), pt.size() % 16, q.aad.size() % 16);
        if (o.at(9) == 0) {
            Call c; c.op = O_ONESHOT; c.ii = int(o.at(11)); c.io = int(o.at(12)) % 7; c.key = put(R_KEY, q.p.key, 0); c.iv = put(R_IV, q.p.iv, 0); c.info = put(R_INFO, q.aad, 0); c.in = put(R_IN, pt, 0); Buf b = outbuf(R_OUT, pt.size(), 0), g = outbuf(R_OUT2, 16, 0); c.out = b; c.out2 = g; call(a, c);
            got = c.used_got ? c.got : bytes(b.p, b.p + b.n); gtag = c.used_got2 ? c.got2 : bytes(g.p, g.p + 16);
        } else {
            u8* t = inst(u64(o.at(10))); if (!init(a, t, q.p, int(o.at(11)))) return;
            for (auto& f : cut(q.aad, u64(o.at(10)) + 1)) { Call c; c.op = O_ABSORB; c.self = t; c.ii = int(o.at(11)); c.in = put(R_IN, f, 0); call(a, c); }
            size_t at = 0; for (auto& f : q.ct) { Call c; c.op = O_CRYPT; c.self = t; c.out = outbuf(R_OUT, f.size(), 0); if (u64(o.at(10)) % 3 == 0 && !f.empty()) { memcpy(c.out.p, &pt[at], f.size()); c.in = {c.out.p, f.size()}; R->count("in_place_calls"); } else c.in = put(R_IN, bytes(pt.begin() + i64(at), pt.begin() + i64(at + f.size())), 0); call(a, c); got.insert(got.end(), c.out.p, c.out.p + f.size()); at += f.size(); }
            Call d; d.op = O_DIGEST; d.self = t; d.io = 0; d.req = 16; d.out = outbuf(R_OUT2, 16, 0); call(a, d); gtag.assign(d.out.p, d.out.p + 16);
            Call e; e.op = O_DTOR; e.self = t; call(a, e);
        }
        R->log(got); R->log(gtag); R->count("messages_sealed");
        if (got != ct || gtag != tag) bad("seal", fmt("%s: sealing a message of %zu bytes with %zu bytes of associated data gives a wrong %s", a.name.c_str(), pt.size(), q.aad.size(), got != ct ? "ciphertext" : "tag"));
        wire[i] = orig[i];
    }
    static void flip(bytes& b, u64 bit) { if (!b.empty()) b[bit / 8 % b.size()] ^= u8(1 << bit % 8); }
    void net(const Op& o) { // net i kind a b
        int i = int(u64(o.at(0)) % NREC), j = int(u64(o.at(3)) % NREC); Rec& q = wire[i]; if (!q.used) return; u64 x = u64(o.at(2)), y = u64(o.at(3)); const char* n = "fault_none";
        auto fr = [&](u64 k) { return size_t(k % q.ct.size()); };
        switch (o.at(1)) {
        case 0: flip(q.aad, x); n = "fault_bit_flip_aad"; break;
        case 1: { bytes c = join(q.ct); flip(c, x); size_t at = 0; for (auto& f : q.ct) { std::copy(c.begin() + i64(at), c.begin() + i64(at + f.size()), f.begin()); at += f.size(); } n = "fault_bit_flip_ciphertext"; break; }
        case 2: flip(q.tag, x); n = "fault_bit_flip_tag"; break;
        case 3: flip(q.p.key, x); n = "fault_bit_flip_key"; break;
        case 4: flip(q.p.iv, x); n = "fault_bit_flip_nonce"; break;
        case 5: if (q.ct.empty()) return; q.ct.erase(q.ct.begin() + i64(fr(x))); n = "fault_fragment_lost"; break;
        case 6: if (q.ct.empty()) return; { bytes f = q.ct[fr(x)]; q.ct.insert(q.ct.begin() + i64(y % (q.ct.size() + 1)), f); } n = "fault_fragment_duplicated"; break;
        case 7: if (q.ct.size() < 2) return; std::swap(q.ct[fr(x)], q.ct[fr(y)]); n = "fault_fragments_reordered"; break;
        case 8: if (q.ct.empty()) return; { bytes& f = q.ct.back(); f.resize(f.size() - std::min(f.size(), size_t(1 + x % 20))); } n = "fault_truncated"; break;
        case 9: q.ct.push_back(gen_bytes(x, int(y % 8), 1 + y % 33)); n = "fault_extended"; break;
        case 10: if (!wire[j].used) return; q.tag = wire[j].tag; n = "fault_tag_of_other_message"; break;
        case 11: if (!wire[j].used || wire[j].ct.empty()) return; { bytes f = wire[j].ct[x % wire[j].ct.size()]; if (q.ct.empty()) q.ct.push_back(f); else q.ct[fr(x / 16)] = f; } n = "fault_fragment_of_other_message"; break;
        case 12: q.tag.resize(q.tag.size() - std::min(q.tag.size(), size_t(1 + x % 16))); n = "fault_tag_truncated"; break;
        case 13: { bytes e = gen_bytes(x, int(y % 8), 1 + y % 20); if (x % 3 == 0) e = q.tag; q.tag.insert(q.tag.end(), e.begin(), e.end()); n = "fault_tag_extended"; break; }
        case 14: q.tag.clear(); n = "fault_tag_empty"; break;
        case 15: if (q.aad.empty()) return; { bytes f(1, q.aad.back()); q.aad.pop_back(); q.ct.insert(q.ct.begin(), f); } n = "fault_boundary_moved"; break;
        case 16: if (!wire[j].used) return; q.aad = wire[j].aad; n = "fault_aad_of_other_message"; break;
        case 17: if (!wire[j].used) return; q.p.iv = wire[j].p.iv; n = "fault_nonce_of_other_message"; break;
        case 18: q.aad.push_back(u8(x)); n = "fault_aad_extended"; break;
        case 19: if (q.aad.empty()) return; q.aad.pop_back(); n = "fault_aad_truncated"; break;
        case 20: q.aad.resize((q.aad.size() + 15) / 16 * 16); n = "fault_aad_zero_padded"; break;
        case 21: { bytes c = join(q.ct); c.resize((c.size() + 15) / 16 * 16); q.ct = {c}; n = "fault_ciphertext_zero_padded"; break; }
        case 22: { // two flips that cancel in a folded comparison
            if (q.tag.size() != 16) return; u64 bit = x % 8; u64 p0 = x / 8 % 16, p1 = y % 16; if (p0 == p1) p1 = (p1 + 4) % 16; q.tag[p0] ^= u8(1 << bit); q.tag[p1] ^= u8(1 << bit); n = "fault_tag_two_bits"; break; }
        default: q = orig[i]; n = "heal_redelivered"; break;
        }
        R->count(n); R->log(n);
    }
    void open(const Op& o) { // opn i alg way io ii stale frag place
        int i = int(u64(o.at(0)) % NREC); Rec& q = wire[i]; if (!q.used) return; Alg& a = A(u64(o.at(1))); bytes ct = join(q.ct); int pl = int(o.at(7));
        Model m; m.fresh(q.p); m.aad = q.aad; m.data = ct; bool genuine = q.tag == model_digest(a, m); bytes pt = model_crypt(a, q.p, 0, ct), got;
        const Rec& s = orig[i]; if (!genuine && q.tag == s.tag && q.aad == s.aad && ct == join(s.ct) && q.p.key == s.p.key && q.p.iv == s.p.iv) bad("harness", "unchanged message is not genuine");
        Call v; int way = int(o.at(2)); bool inpl = u64(o.at(6)) / 8 % 3 == 0; sig(a, 2, u64(way) * 100 + u64(o.at(3)) + u64(o.at(5)) * 10000, ct.size() % 16 * 16 + q.aad.size() % 16, u64(genuine) * 100 + q.tag.size());
        if (way == 0) {
            v.op = O_OPEN; v.io = int(o.at(3)) % 10; if (ct.size() > 4096 && (v.io == 5 || v.io == 8)) v.io = 1; v.ii = int(o.at(4)); v.stale = int(o.at(5)) % 3;
            v.key = put(R_KEY, q.p.key, pl); v.iv = put(R_IV, q.p.iv, pl); v.info = put(R_INFO, q.aad, pl); v.in = put(R_IN, ct, pl); v.tag = put(R_TAG, q.tag, pl); Buf b = outbuf(R_OUT, ct.size(), pl); v.out = b; if (inpl) { if (!ct.empty()) memcpy(b.p, ct.data(), ct.size()); v.in = {b.p, ct.size()}; R->count("in_place_calls"); } call(a, v);
            if (v.used_got) got = v.got; else got.assign(b.p, b.p + b.n);
        } else {
            u8* t = inst(u64(o.at(6))); Params q0 = q.p; if (way >= 2 && u64(o.at(6)) / 16 % 2) { u64 x = u64(o.at(6)) / 32; if (x % 3) q0.key[x / 3 % 32] ^= u8(1 << x % 8); if (x % 3 != 1) q0.iv[x / 5 % 12] ^= u8(1 << x / 8 % 8); } if (!init(a, t, q0, int(o.at(4)))) return;
            if (way >= 2) { // the instance was used for something else before and is initialised again
                Call c; c.op = O_ABSORB; c.self = t; c.in = put(R_IN, gen_bytes(u64(o.at(6)), 0, 5 + u64(o.at(6)) % 40), 0); call(a, c);
                if (way == 3) { Call w; w.op = O_VERIFY; w.self = t; w.io = 0; w.tag = put(R_TAG, q.tag, 0); call(a, w); }
                Call n; n.op = O_INIT; n.self = t; n.ii = int(o.at(4)); n.key = put(R_KEY, q.p.key, 0); n.iv = put(R_IV, q.p.iv, 0); call(a, n);
            }
            for (auto& f : cut(q.aad, u64(o.at(6)) + 5)) { Call c; c.op = O_ABSORB; c.self = t; c.ii = int(o.at(4)); c.in = put(R_IN, f, 0); call(a, c); }
            for (auto& f : q.ct) { Call c; c.op = O_CRYPT; c.dec = true; c.self = t; c.io = int(o.at(6) & 1); c.out = outbuf(R_OUT, f.size(), 0); if (inpl) { if (!f.empty()) memcpy(c.out.p, f.data(), f.size()); c.in = {c.out.p, f.size()}; c.io = 0; R->count("in_place_calls"); } else c.in = put(R_IN, f, 0); call(a, c); got.insert(got.end(), c.out.p, c.out.p + f.size()); }
            v.op = O_VERIFY; v.self = t; v.io = int(o.at(3)) % 6; v.stale = int(o.at(5)) % 3; v.tag = put(R_TAG, q.tag, pl); call(a, v);
            if (!R->failed && o.at(6) % 3 == 0) { Call w; w.op = O_VERIFY; w.self = t; w.io = int(o.at(6)) / 3 % 6; w.stale = 1; w.tag = put(R_TAG, q.tag, pl); call(a, w); bool o1 = v.has_err ? v.err == 0 : v.threw == T_NONE, o2 = w.has_err ? w.err == 0 : w.threw == T_NONE; if (o1 != o2) bad("verdict", fmt("%s: verifying interfaces %d and %d disagree about the same message", a.name.c_str(), v.io, w.io)); }
            Call e; e.op = O_DTOR; e.self = t; call(a, e);
        }
        R->count("verdicts_judged"); R->count(genuine ? "genuine_delivered" : "forged_delivered");
        bool ok = v.has_err ? v.err == 0 : v.threw == T_NONE; R->log(u64(ok));
        const char* how = way == 0 ? "one-call decrypt" : "verify";
        if (v.has_err && v.threw != T_NONE) bad("channel", fmt("%s: %s (interface %d) has an error parameter but throws", a.name.c_str(), how, v.io));
        else if (ok != genuine) bad("verdict", fmt("%s: %s (interface %d, tag of %zu bytes) %s a %s message", a.name.c_str(), how, v.io, q.tag.size(), ok ? "accepts" : "rejects", genuine ? "genuine" : "forged"));
        else if (!ok && v.err != 2) bad("channel", fmt("%s: %s (interface %d) reports error code %d, not the verification error", a.name.c_str(), how, v.io, v.err));
        else if (ok) { if (way == 0 && v.ret != ct.size()) bad("size", fmt("%s: one-call decrypt (interface %d) reports %zu bytes of %zu", a.name.c_str(), v.io, v.ret, ct.size())); else if (got != pt) bad("wrong-output", fmt("%s: %s (interface %d): plaintext of a genuine message differs", a.name.c_str(), how, v.io)); R->log(got); }
    }

    // ---- C07 -------------------------------------------------------------------
    static bytes ref_encode(int h, const bytes& m) {
        bytes t; if (h == 16) { for (u8 b : m) { t.push_back(u8("0123456789abcdef"[b >> 4])); t.push_back(u8("0123456789abcdef"[b & 15])); } return t; }
        const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        for (size_t i = 0; i < m.size(); i += 3) { u32 v = u32(m[i]) << 16 | (i + 1 < m.size() ? u32(m[i + 1]) << 8 : 0) | (i + 2 < m.size() ? m[i + 2] : 0); size_t k = std::min(size_t(3), m.size() - i); for (size_t j = 0; j < 4; j++) t.push_back(j <= k ? u8(al[v >> (18 - 6 * j) & 63]) : u8('=')); }
        return t;
    }
    static int v16(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    static int v64(u8 c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
    // 0 valid, 1 invalid, 2 valid but not canonical (either verdict); out: all bytes decodable in front of the damage
    static int ref_decode(int h, const bytes& t, bytes& out) {
        out.clear();
        if (h == 16) { size_t i = 0; if (t.size() & 1) { int a = v16(t[0]); if (a < 0) return 1; out.push_back(u8(a)); i = 1; } for (; i < t.size(); i += 2) { int a = v16(t[i]), b = v16(t[i + 1]); if (a < 0 || b < 0) return 1; out.push_back(u8(a << 4 | b)); } return 0; }
        bool shape = t.size() % 4 == 0; size_t n = t.size() / 4;
        for (size_t q = 0; q < n; q++) {
            int v[4]; for (int j = 0; j < 4; j++) v[j] = v64(t[q * 4 + size_t(j)]);
            bool last = shape && q + 1 == n; int pad = last && t[q * 4 + 3] == '=' ? (t[q * 4 + 2] == '=' ? 2 : 1) : 0;
            for (int j = 0; j < 4 - pad; j++) if (v[j] < 0) return 1;
            u32 w = u32(v[0]) << 18 | u32(v[1]) << 12 | (pad < 2 ? u32(v[2]) << 6 : 0) | (pad < 1 ? u32(v[3]) : 0);
            for (int j = 0; j < 3 - pad; j++) out.push_back(u8(w >> (16 - 8 * j)));
            if (pad && (w & (pad == 2 ? 0xffff : 0xff))) return 2;
        }
        return shape ? 0 : 1;
    }
    void encode(const Op& o) { // enc i codec dseed dmode n io place
        int i = int(u64(o.at(0)) % NREC); kind[i] = int(u64(o.at(1)) % pool.size()); Alg& a = A(u64(kind[i])); msg[i] = gen_bytes(u64(o.at(2)), int(o.at(3)), size_t(o.at(4))); bytes e = ref_encode(a.hash, msg[i]);
        Call c; c.op = O_ENC; c.io = int(o.at(5)) % NENC; c.in = put(R_IN, msg[i], int(o.at(6))); Buf b = outbuf(R_OUT, e.size(), int(o.at(6))); c.out = b; call(a, c); sig(a, 1, u64(c.io), msg[i].size() % 12, 0); R->count("messages_encoded");
        if (c.sized != e.size()) bad("size", fmt("%s: encode_size of %zu is %zu, not %zu", a.name.c_str(), msg[i].size(), c.sized, e.size()));
        else if (c.ret != e.size() || (c.used_got && c.got.size() != e.size())) bad("size", fmt("%s: encode (interface %d) of %zu bytes reports %zu, container %zu", a.name.c_str(), c.io, msg[i].size(), c.ret, c.got.size()));
        else { bytes g = c.used_got ? c.got : bytes(b.p, b.p + b.n); R->log(g); if (g != e) bad("wrong-output", fmt("%s: encode (interface %d) of %zu bytes is wrong: %s", a.name.c_str(), c.io, msg[i].size(), std::string(g.begin(), g.begin() + i64(std::min(g.size(), size_t(60)))).c_str())); else if (!c.used_got && !intact(R_OUT, b, b.n)) bad("output-overrun", a.name + ": encode wrote outside its output"); }
        sent[i] = text[i] = e;
    }
    void damage(const Op& o) { // net i kind pos val
        int i = int(u64(o.at(0)) % NREC); bytes& t = text[i]; u64 x = u64(o.at(2)), y = u64(o.at(3)); const char* n; size_t at = t.empty() ? 0 : size_t(x % t.size());
        switch (o.at(1)) {
        case 0: if (t.empty()) return; t[at] = u8(y); n = "fault_byte_replaced"; break;
        case 1: if (t.empty()) return; t.erase(t.begin() + i64(at)); n = "fault_byte_lost"; break;
        case 2: if (t.empty()) return; t.insert(t.begin() + i64(at), t[at]); n = "fault_byte_duplicated"; break;
        case 3: t.insert(t.begin() + i64(at), u8(y)); n = "fault_byte_inserted"; break;
        case 4: if (t.size() < 2) return; std::swap(t[at], t[(at + 1) % t.size()]); n = "fault_bytes_swapped"; break;
        case 5: if (t.empty()) return; t.resize(at); n = "fault_truncated"; break;
        case 6: if (t.empty()) return; t[at] = u8("ABCabcFf09+/-_zZgG"[y % 18]); n = "fault_byte_replaced_by_text"; break;
        case 7: t.push_back('='); n = "fault_padding_added"; break;
        case 8: { if (t.empty()) return; size_t z = size_t(y % t.size()); std::rotate(t.begin(), t.begin() + i64(z), t.end()); n = "fault_reordered"; break; }
        case 9: { int j = int(y % NREC); t.insert(t.end(), text[j].begin(), text[j].end()); if (t.size() > 100000) t.resize(100000); n = "fault_mixed_with_other"; break; }
        case 10: if (t.empty()) return; t[at] ^= u8(1 << y % 8); n = "fault_bit_flip"; break;
        case 11: if (t.empty()) return; t[at] = '='; n = "fault_padding_inside"; break;
        case 12: { size_t z = std::min(t.size(), size_t(4)); t.erase(t.end() - i64(z), t.end()); n = "fault_last_group_lost"; break; }
        case 13: if (t.size() < 4) return; t[t.size() - 1 - x % 4] = u8(y); n = "fault_last_group_damaged"; break;
        case 14: { size_t k = std::min(t.size(), size_t(3)); bytes e(t.end() - i64(k), t.end()); for (u8& b : e) if (b == '=') b = u8('A' + y % 26); std::copy(e.begin(), e.end(), t.end() - i64(k)); n = "fault_padding_replaced"; break; }
        case 15: for (auto& b : t) if (y & 1 && b >= 'a' && b <= 'z') b = u8(b - 32); n = "fault_case_changed"; break;
        default: t = sent[i]; n = "heal_redelivered"; break;
        }
        R->count(n); R->log(n);
    }
    void decode(const Op& o) { // dec i io stale place
        int i = int(u64(o.at(0)) % NREC); if (kind[i] < 0) return; Alg& a = A(u64(kind[i])); const bytes& t = text[i]; bytes e; int verdict = ref_decode(a.hash, t, e); int pl = int(o.at(3));
        Call c; c.op = O_DEC; c.io = int(o.at(1)) % NDEC; c.stale = int(o.at(2)) % 3; c.in = put(R_IN, t, pl); size_t cap = a.hash == 16 ? (t.size() + 1) / 2 : t.size() / 4 * 3;
        if (verdict == 0) cap = e.size(); // exactly what is needed
        else { Call z; z.op = O_SIZES; z.in = c.in; a.exec(z); cap = std::min(cap, z.sized); } // what a caller that asks beforehand provides
        Buf b = outbuf(R_OUT, cap, pl); c.out = b; call(a, c); R->count("verdicts_judged"); R->count(verdict == 1 ? "damaged_delivered" : "valid_delivered");
        bool ok = c.has_err ? c.err == 0 : c.threw == T_NONE; R->log(u64(ok)); sig(a, 2, u64(c.io) * 10 + u64(c.stale), u64(verdict) * 100 + t.size() % 12, e.size() > 20 ? 20 : e.size());
        std::string at = fmt("%s: decode (interface %d) of %zu bytes \"%s\"", a.name.c_str(), c.io, t.size(), std::string(t.begin(), t.begin() + i64(std::min(t.size(), size_t(40)))).c_str());
        if (c.has_err && c.threw != T_NONE) { bad("channel", at + " has an error parameter but throws"); return; }
        if (verdict != 2 && ok != (verdict == 0)) { bad("verdict", at + (ok ? " accepts damaged text" : " rejects valid text")); return; }
        if (!ok && c.err != (a.hash == 16 ? 6 : 4)) { bad("channel", at + fmt(" reports error code %d", c.err)); return; }
        bytes g;
        if (ok || c.has_err) {
            if (c.used_got) { g = c.got; if (g.size() != c.ret) { bad("size", at + fmt(" reports %zu bytes but leaves a container of %zu", c.ret, g.size())); return; } }
            else { if (c.ret > cap) { bad("size", at + fmt(" reports %zu bytes, more than the text can hold", c.ret)); return; } if (!intact(R_OUT, b, ok ? c.ret : cap)) { bad("output-overrun", at + " wrote outside the decoded bytes"); return; } g.assign(b.p, b.p + c.ret); }
            R->log(g);
            if (ok && c.ret != e.size()) { bad("size", at + fmt(" gives %zu bytes, %zu expected", c.ret, e.size())); return; }
            if (!ok && c.ret > e.size()) { bad("size", at + fmt(" reports %zu bytes after an error, only %zu precede the damage", c.ret, e.size())); return; }
            if (!std::equal(g.begin(), g.end(), e.begin())) { bad("wrong-output", at + " gives wrong bytes"); return; }
        }
        if (ok && verdict == 0 && c.sized != e.size()) bad("size", at + fmt(": decode_size says %zu, %zu expected", c.sized, e.size()));
        if (ok && t == sent[i] && g != msg[i]) bad("wrong-output", at + " does not give the original message");
    }

    void run_once(const Plan& p) {
        for (int i = 0; i < NREC; i++) { orig[i] = wire[i] = Rec(); text[i].clear(); sent[i].clear(); msg[i].clear(); kind[i] = -1; }
        for (auto& o : p) {
            ops++;
            if (o.k == "msg") seal(o); else if (o.k == "opn") open(o); else if (o.k == "enc") encode(o); else if (o.k == "dec") decode(o); else if (o.k == "net") { if (codec) damage(o); else net(o); }
            if (R->failed) return;
        }
    }
    struct Arg { Chan* w; const Plan* p; };
    void exec(const Plan& p, Run& r) override {
        R = &r; ops = 0; Arg arg{this, &p}; hang_arm(30);
        if (guarded([](void* a) { auto* x = (Arg*)a; x->w->run_once(*x->p); }, &arg)) r.fail("crash", fmt("operation %llu: %s", (unsigned long long)ops, g_fault));
        hang_arm(0); r.count("operations", ops);
    }
    Plan gen(u64 seed) override {
        Rng r(seed); Plan p; auto add = [&](const char* k, std::vector<i64> a) { p.push_back({k, std::move(a)}); }; auto ds = [&]() { return i64(r.below(1u << 30)); };
        auto pl = [&]() -> i64 { return r.chance(60) ? 0 : r.chance(30) ? 1 : i64(2 + r.below(100)); };
        int rounds = int(r.range(1, 8));
        if (codec) {
            for (int q = 0; q < rounds; q++) {
                i64 i = i64(r.below(2)); i64 n = r.below(2000) == 0 ? (r.chance(50) ? 65536 : 196608) + r.range(-4, 4) : r.chance(70) ? i64(r.below(20)) : r.chance(80) ? i64(r.below(200)) : i64(r.below(20000));
                add("enc", {i, i64(r.below(pool.size())), ds(), i64(r.below(8)), n, i64(r.below(9)), pl()});
                int nf = r.chance(20) ? 0 : r.chance(60) ? 1 : int(r.range(2, 4));
                for (int k = 0; k < nf; k++) { i64 y = r.chance(40) ? i64(r.below(256)) : r.chance(50) ? i64(128 + r.below(128)) : i64(std::string("=\n -_:@[`{/+GgZz\x7f")[r.below(16)]); add("net", {i, i64(r.below(17)), r.chance(50) ? ds() : i64(r.below(8)), y}); }
                int nd = int(r.range(1, 3)); for (int k = 0; k < nd; k++) add("dec", {i, i64(r.below(12)), i64(r.below(3)), pl()});
                if (nf && r.chance(30)) { add("net", {i, 99, 0, 0}); add("dec", {i, i64(r.below(12)), i64(r.below(3)), pl()}); }
            }
            return p;
        }
        i64 k0 = ds(); int nm = int(r.range(1, NREC));
        auto mk = [&](i64 i) { i64 n = i64(pick_size(r, r.chance(50) ? 16 : 64, r.chance(10) ? 2 : 0)), an = r.chance(25) ? 0 : i64(pick_size(r, 16, 0)); add("msg", {i, i64(r.below(pool.size())), r.chance(80) ? k0 : ds(), ds(), ds(), an, ds(), i64(r.below(8)), r.chance(10) ? 0 : n, i64(r.below(2)), ds(), i64(r.below(5)), i64(r.below(7))}); };
        auto op = [&](i64 i) { add("opn", {i, i64(r.below(pool.size())), i64(r.below(4)), i64(r.below(10)), i64(r.below(5)), i64(r.below(3)), ds(), pl()}); };
        for (int i = 0; i < nm; i++) mk(i);
        for (int q = 0; q < rounds; q++) {
            i64 i = i64(r.below(u64(nm))); int nf = r.chance(20) ? 0 : r.chance(75) ? 1 : 2;
            for (int k = 0; k < nf; k++) add("net", {i, i64(r.below(23)), r.chance(20) ? i64(r.below(8)) : ds(), ds()});
            int no = int(r.range(1, 3)); for (int k = 0; k < no; k++) op(i);
            if (nf && r.chance(60)) { add("net", {i, 99, 0, 0}); if (r.chance(40)) op(i); }
            if (r.chance(10)) mk(i);
        }
        return p;
    }
};
}
World* make_chan(const std::string& p) { return new Chan(p); }
