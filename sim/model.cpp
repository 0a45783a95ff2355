#include "world.hpp"
bytes model_digest(const Alg& a, const Model& m) {
    switch (a.kind) {
    case K_HASH: return ref::hash(a.hash, m.data);
    case K_HMAC: return ref::hmac(a.hash, m.p.key, m.data);
    case K_POLY: { bytes t = ref::poly1305(m.p.key, m.data); if (a.digest && a.digest < t.size()) t.resize(a.digest); return t; }
    case K_AEAD: return ref::aead_tag(m.p.key, m.p.iv, m.aad, m.data);
    }
    return {};
}
bytes model_kdf(const Alg& a, Model& m, u64 from, size_t n) {
    u64 need = from + n;
    if (!m.kstream) m.kstream = std::make_shared<bytes>();
    if (m.kstream->size() < need) {
        u64 len = need * 2 < 256 ? 256 : need * 2, lim = 255 * ref::mac_size(a.hash);
        if (a.kind == K_HKDF) { if (len > lim) len = lim; if (len < need) len = need; *m.kstream = ref::hkdf(a.hash, m.p.key, m.p.iv, m.p.info, len); }
        else { len = m.p.iters > 1000 ? need : need + 64; *m.kstream = ref::pbkdf2(a.hash, m.p.key, m.p.iv, m.p.iters, len); }
    }
    return bytes(m.kstream->begin() + i64(from), m.kstream->begin() + i64(from + n));
}
bytes model_crypt(const Alg& a, const Params& p, u64 pos, const bytes& in) {
    bytes o(in.size()); if (in.empty()) return o;
    if (a.kind == K_AEAD) { auto k = ref::aead_keys(p.key.data(), p.iv.data()); ref::Chacha c(p.key.data(), k.iv1); c.seek(pos); c.xor_(in.data(), o.data(), in.size()); }
    else { ref::Chacha c(p.key.data(), p.iv.data()); c.seek(pos); c.xor_(in.data(), o.data(), in.size()); }
    return o;
}
Params gen_params(const Alg& a, u64 ps, int pm, size_t ksz, size_t isz, size_t nsz, u32 it, u64 secret) {
    Params p; u64 sx = secret * 0x5bd1e995, K = ps >> 15, V = ps & 32767; // key and nonce / salt are drawn apart so that each can come again alone
    auto sd = [&](u64 x, u64 from) { return secret == 3 ? SAME_SECRET : (from * 32771 + 1 ^ x ^ sx); };
    switch (a.kind) {
    case K_HASH: break;
    case K_HMAC: p.key = gen_bytes(sd(0, K), pm, ksz); break;
    case K_POLY: p.key = gen_bytes(sd(0, K), pm, 32); if (pm & 16) { bytes s = gen_bytes(sd(99, K), 3, 16); memcpy(&p.key[16], s.data(), 16); } break;
    case K_CIPHER: { p.key = gen_bytes(sd(0, K), pm, 32); p.iv = gen_bytes(V * 32771 ^ 7, 0, 16); int cm = (pm / 8) % 4; u32 c = 0;
        if (cm == 1) c = 0xffffffffu - u32(V % 24); else if (cm == 2) c = u32(V % 3); else if (cm == 3) c = (1u << (V % 32)) - u32(V % 12); else break;
        memcpy(&p.iv[0], &c, 4); break; }
    case K_AEAD: p.key = gen_bytes(sd(0, K), pm, 32); p.iv = gen_bytes(V * 32771 ^ 7, 0, 12); break;
    case K_HKDF: p.key = gen_bytes(sd(0, K), pm, ksz); p.iv = gen_bytes(sd(5, V), secret == 3 ? pm : pm + 1, isz); p.info = gen_bytes(sd(11, ps), secret == 3 ? pm : pm + 2, nsz); break;
    case K_PBKDF2: p.key = gen_bytes(sd(0, K), pm, ksz); p.iv = gen_bytes(sd(5, V), secret == 3 ? pm : pm + 1, isz); p.iters = it ? it : 1; break;
    }
    if (a.kind == K_POLY || a.kind == K_CIPHER || a.kind == K_AEAD) {
        u64 h = (K + 1) * 0x9E3779B97F4A7C15ULL >> 33, g = (V + 1) * 0x9E3779B97F4A7C15ULL >> 33;
        auto odd = [&](bytes& v, bytes& raw, size_t n, u64 s) { raw = v; if (n < v.size()) { raw.resize(n); std::fill(v.begin() + i64(n), v.end(), u8(0)); } else { bytes x = gen_bytes(s, 0, n - v.size()); raw.insert(raw.end(), x.begin(), x.end()); } };
        auto len = [](u64 g, size_t z, size_t drawn) -> size_t { switch (g % 4) { case 0: return g / 4 % (z + 1); case 1: return z + 1 + g / 4 % 7; case 2: return z - 1 - g / 4 % 4; default: return drawn; } };
        if (h % 5 == 0) { p.kodd = true; odd(p.key, p.kraw, len(h / 5, 32, ksz), sd(0x1234, K)); }
        if (g % 5 == 0 && a.kind != K_POLY) { p.iodd = true; odd(p.iv, p.iraw, len(g / 5, p.iv.size(), isz), V ^ 0x4321); }
    }
    return p;
}
size_t pick_size(Rng& r, size_t B, int big) {
    switch (r.below(12)) {
    case 0: return r.below(4);
    case 1: case 2: case 3: { i64 v = i64(B) * i64(r.below(r.chance(80) ? 5 : 20)) + r.range(-1, 1); return v < 0 ? 0 : size_t(v); }
    case 4: { i64 v = i64(B) * i64(1 + r.below(3)) - i64(B / 8) + r.range(-2, 2); return v < 0 ? 0 : size_t(v); }
    case 5: case 6: case 7: return r.below(300);
    case 8: return r.below(B + 1);
    case 9: return big ? r.below(5000) : r.below(600);
    case 10: return 16 * r.below(20);
    default:
        if (big >= 2 && r.chance(30)) return r.chance(50) ? size_t(65536 + r.range(-70, 70)) : r.below(200000);
        return r.below(1100);
    }
}
