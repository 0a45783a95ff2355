// Independent executable reference models (oracles).  Nothing here includes or
// derives from /repo: plain textbook code, one-shot or minimally incremental.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
using bytes = std::vector<u8>;

inline u32 rol(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
inline u32 ror(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
inline u64 ror64(u64 x, int n) { return (x >> n) | (x << (64 - n)); }

enum HashId { SHA1 = 0, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256, HASH_COUNT };
// A hash id may carry two truncations (the library's digest_size option): of the hash itself (bits 8..15) and of
// the MAC built on it (bits 16..23).
inline int hash_base(int h) { return h & 255; }
inline size_t hash_size(int h) { static const size_t s[] = {20, 28, 32, 48, 64, 28, 32}; return h >> 8 & 255 ? size_t(h >> 8 & 255) : s[hash_base(h)]; }
inline size_t mac_size(int h) { return h >> 16 ? size_t(h >> 16) : hash_size(h); }
inline size_t hash_block(int h) { return hash_base(h) <= SHA256 ? 64 : 128; }

inline const u64* k512() {
    static const u64 k[80] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
    return k;
}

class Hash {
    int id, full; u32 s[8]; u64 t[8]; u8 buf[128]; size_t nb = 0; u64 total = 0;
    void block(const u8* p) {
        if (id == SHA1) {
            u32 w[80];
            for (int i = 0; i < 16; i++) w[i] = u32(p[4*i]) << 24 | u32(p[4*i+1]) << 16 | u32(p[4*i+2]) << 8 | p[4*i+3];
            for (int i = 16; i < 80; i++) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
            u32 a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
            for (int i = 0; i < 80; i++) {
                u32 f, k;
                if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
                else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
                else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
                else { f = b ^ c ^ d; k = 0xca62c1d6; }
                u32 x = rol(a, 5) + f + e + k + w[i];
                e = d; d = c; c = rol(b, 30); b = a; a = x;
            }
            s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
        } else if (id <= SHA256) {
            u32 w[64]; const u64* k = k512();
            for (int i = 0; i < 16; i++) w[i] = u32(p[4*i]) << 24 | u32(p[4*i+1]) << 16 | u32(p[4*i+2]) << 8 | p[4*i+3];
            for (int i = 16; i < 64; i++) {
                u32 a = ror(w[i-15], 7) ^ ror(w[i-15], 18) ^ (w[i-15] >> 3), b = ror(w[i-2], 17) ^ ror(w[i-2], 19) ^ (w[i-2] >> 10);
                w[i] = w[i-16] + a + w[i-7] + b;
            }
            u32 v[8]; memcpy(v, s, sizeof v);
            for (int i = 0; i < 64; i++) {
                u32 t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + u32(k[i] >> 32) + w[i];
                u32 t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for (int j = 7; j > 0; j--) v[j] = v[j-1];
                v[4] += t1; v[0] = t1 + t2;
            }
            for (int i = 0; i < 8; i++) s[i] += v[i];
        } else {
            u64 w[80]; const u64* k = k512();
            for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j]; }
            for (int i = 16; i < 80; i++) {
                u64 a = ror64(w[i-15], 1) ^ ror64(w[i-15], 8) ^ (w[i-15] >> 7), b = ror64(w[i-2], 19) ^ ror64(w[i-2], 61) ^ (w[i-2] >> 6);
                w[i] = w[i-16] + a + w[i-7] + b;
            }
            u64 v[8]; memcpy(v, t, sizeof v);
            for (int i = 0; i < 80; i++) {
                u64 t1 = v[7] + (ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
                u64 t2 = (ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for (int j = 7; j > 0; j--) v[j] = v[j-1];
                v[4] += t1; v[0] = t1 + t2;
            }
            for (int i = 0; i < 8; i++) t[i] += v[i];
        }
    }
public:
    // chaining state at a block boundary, to save and continue very long messages
    void save(u64 v[8]) const { for (int i = 0; i < 8; i++) v[i] = hash_block(id) == 64 ? s[i] : t[i]; }
    void load(const u64 v[8], u64 n) { for (int i = 0; i < 8; i++) { if (hash_block(id) == 64) s[i] = u32(v[i]); else t[i] = v[i]; } total = n; nb = 0; }
    explicit Hash(int h) : id(hash_base(h)), full(h) {
        static const u32 i1[] = {0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0,0,0,0};
        static const u32 i224[] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
        static const u32 i256[] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
        static const u64 i384[] = {0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
        static const u64 i512[] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
        static const u64 i5224[] = {0x8C3D37C819544DA2ULL,0x73E1996689DCD4D6ULL,0x1DFAB7AE32FF9C82ULL,0x679DD514582F9FCFULL,0x0F6D2B697BD44DA8ULL,0x77E36F7304C48942ULL,0x3F9D85A86A1D36C8ULL,0x1112E6AD91D692A1ULL};
        static const u64 i5256[] = {0x22312194FC2BF72CULL,0x9F555FA3C84C64C2ULL,0x2393B86B6F53B151ULL,0x963877195940EABDULL,0x96283EE2A88EFFE3ULL,0xBE5E1E2553863992ULL,0x2B0199FC2C85B8AAULL,0x0EB72DDC81C52CA2ULL};
        switch (id) {
        case SHA1: memcpy(s, i1, sizeof s); break;
        case SHA224: memcpy(s, i224, sizeof s); break;
        case SHA256: memcpy(s, i256, sizeof s); break;
        case SHA384: memcpy(t, i384, sizeof t); break;
        case SHA512: memcpy(t, i512, sizeof t); break;
        case SHA512_224: memcpy(t, i5224, sizeof t); break;
        default: memcpy(t, i5256, sizeof t); break;
        }
    }
    void update(const u8* p, size_t n) {
        size_t B = hash_block(id); total += n;
        while (n) {
            if (nb == 0 && n >= B) { block(p); p += B; n -= B; continue; }
            size_t c = B - nb < n ? B - nb : n;
            memcpy(buf + nb, p, c); nb += c; p += c; n -= c;
            if (nb == B) { block(buf); nb = 0; }
        }
    }
    bytes finish() {
        size_t B = hash_block(id), L = B == 64 ? 8 : 16; u64 bits = total;
        u8 pad[256] = {0x80}; size_t z = 1;
        while ((nb + z + L) % B) z++;
        u8 len[16] = {0};
        for (int i = 0; i < 8; i++) len[L - 1 - i] = u8((bits << 3) >> (8 * i));
        if (L == 16) len[7] = u8(bits >> 61);
        update(pad, z); update(len, L);
        bytes o(hash_size(full));
        for (size_t i = 0; i < o.size(); i++) o[i] = B == 64 ? u8(s[i / 4] >> (24 - 8 * (i % 4))) : u8(t[i / 8] >> (56 - 8 * (i % 8)));
        return o;
    }
};

inline bytes hash(int id, const u8* p, size_t n) { Hash h(id); h.update(p, n); return h.finish(); }
inline bytes hash(int id, const bytes& m) { return hash(id, m.data(), m.size()); }

class Hmac {
    int id; Hash in; bytes opad;
public:
    Hmac(int h, const u8* k, size_t n) : id(h), in(h) {
        bytes key(k, k + n);
        if (n > hash_block(h)) key = hash(h, key);
        key.resize(hash_block(h));
        bytes ipad(key); opad = key;
        for (auto& b : ipad) b ^= 0x36;
        for (auto& b : opad) b ^= 0x5c;
        in.update(ipad.data(), ipad.size());
    }
    void update(const u8* p, size_t n) { in.update(p, n); }
    Hash& inner() { return in; }
    bytes finish() { bytes d = in.finish(); Hash o(id); o.update(opad.data(), opad.size()); o.update(d.data(), d.size()); d = o.finish(); d.resize(mac_size(id)); return d; }
};
inline bytes hmac(int h, const bytes& k, const bytes& m) { Hmac x(h, k.data(), k.size()); x.update(m.data(), m.size()); return x.finish(); }

inline bytes hkdf(int h, const bytes& ikm, const bytes& salt, const bytes& info, size_t len) { // len capped at 255 blocks by the caller
    bytes prk = hmac(h, salt, ikm), out, t;
    for (unsigned i = 1; out.size() < len; i++) {
        bytes m(t); m.insert(m.end(), info.begin(), info.end()); m.push_back(u8(i));
        t = hmac(h, prk, m); out.insert(out.end(), t.begin(), t.end());
    }
    out.resize(len);
    return out;
}

inline bytes pbkdf2(int h, const bytes& ikm, const bytes& salt, u32 it, size_t len) {
    bytes out;
    for (u32 i = 1; out.size() < len; i++) {
        bytes m(salt); for (int j = 3; j >= 0; j--) m.push_back(u8(i >> (8 * j)));
        bytes u = hmac(h, ikm, m), t = u;
        for (u32 k = 1; k < it; k++) { u = hmac(h, ikm, u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; }
        out.insert(out.end(), t.begin(), t.end());
    }
    out.resize(len);
    return out;
}

// ---- ChaCha20 ------------------------------------------------------------
inline void chacha_block(const u32 st[16], u8 out[64]) {
    u32 x[16]; memcpy(x, st, 64);
    auto qr = [&](int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rol(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 8);  x[c] += x[d]; x[b] = rol(x[b] ^ x[c], 7);
    };
    for (int i = 0; i < 10; i++) {
        qr(0,4,8,12); qr(1,5,9,13); qr(2,6,10,14); qr(3,7,11,15);
        qr(0,5,10,15); qr(1,6,11,12); qr(2,7,8,13); qr(3,4,9,14);
    }
    for (int i = 0; i < 16; i++) { u32 v = x[i] + st[i]; out[4*i] = u8(v); out[4*i+1] = u8(v >> 8); out[4*i+2] = u8(v >> 16); out[4*i+3] = u8(v >> 24); }
}
inline u32 le32(const u8* p) { return u32(p[0]) | u32(p[1]) << 8 | u32(p[2]) << 16 | u32(p[3]) << 24; }

class Chacha { // iv: 16 bytes = counter || nonce
    u32 st[16]; u8 ks[64]; u64 pos = 0; u32 c0; u64 have = ~0ULL;
public:
    Chacha(const u8 key[32], const u8 iv[16]) {
        st[0] = 0x61707865; st[1] = 0x3320646e; st[2] = 0x79622d32; st[3] = 0x6b206574;
        for (int i = 0; i < 8; i++) st[4+i] = le32(key + 4*i);
        for (int i = 0; i < 4; i++) st[12+i] = le32(iv + 4*i);
        c0 = st[12];
    }
    void seek(u64 p) { pos = p; }
    void xor_(const u8* in, u8* out, size_t n) {
        for (size_t i = 0; i < n; i++, pos++) {
            if (have != pos / 64) { have = pos / 64; st[12] = c0 + u32(have); chacha_block(st, ks); }
            out[i] = in[i] ^ ks[pos % 64];
        }
    }
};

// ---- Poly1305 (radix 2^26) -------------------------------------------------
class Poly {
    u32 r[5], h[5] = {0,0,0,0,0}; u32 pad[4]; u8 buf[16]; size_t nb = 0;
    void block(const u8* p, u32 hi) {
        u32 t0 = le32(p), t1 = le32(p+4), t2 = le32(p+8), t3 = le32(p+12);
        h[0] += t0 & 0x3ffffff; h[1] += ((u64(t1) << 32 | t0) >> 26) & 0x3ffffff; h[2] += ((u64(t2) << 32 | t1) >> 20) & 0x3ffffff;
        h[3] += ((u64(t3) << 32 | t2) >> 14) & 0x3ffffff; h[4] += (t3 >> 8) | hi;
        u64 d[5];
        for (int i = 0; i < 5; i++) {
            d[i] = 0;
            for (int j = 0; j < 5; j++) { int k = i - j; d[i] += u64(h[j]) * (k >= 0 ? u64(r[k]) : u64(r[k+5]) * 5); }
        }
        u64 c = 0;
        for (int i = 0; i < 5; i++) { d[i] += c; h[i] = u32(d[i] & 0x3ffffff); c = d[i] >> 26; }
        u64 x = h[0] + c * 5; h[0] = u32(x & 0x3ffffff); h[1] += u32(x >> 26);
    }
    void mul(const u32 m[5]) {
        u64 d[5];
        for (int i = 0; i < 5; i++) { d[i] = 0; for (int j = 0; j < 5; j++) { int k = i - j; d[i] += u64(h[j]) * (k >= 0 ? u64(m[k]) : u64(m[k+5]) * 5); } }
        u64 c = 0;
        for (int i = 0; i < 5; i++) { d[i] += c; h[i] = u32(d[i] & 0x3ffffff); c = d[i] >> 26; }
        u64 x = h[0] + c * 5; h[0] = u32(x & 0x3ffffff); h[1] += u32(x >> 26);
    }
public:
    // n repetitions of a pattern of whole blocks, in closed form: h <- h r^k + c
    void periods(const u8* pat, size_t P, u64 n) {
        Poly c(*this); memset(c.h, 0, sizeof h); c.update(pat, P);
        Poly e(*this); memset(e.h, 0, sizeof h); e.h[0] = 1; Poly b(*this); memcpy(b.h, r, sizeof r);
        for (size_t k = P / 16; k; k >>= 1) { if (k & 1) e.mul(b.h); Poly q(b); b.mul(q.h); }
        for (; n; n--) { mul(e.h); for (int i = 0; i < 5; i++) h[i] += c.h[i]; }
    }
    void save(u64 v[8]) const { for (int i = 0; i < 5; i++) v[i] = h[i]; v[5] = v[6] = v[7] = 0; }
    void load(const u64 v[8]) { for (int i = 0; i < 5; i++) h[i] = u32(v[i]); nb = 0; }
    explicit Poly(const u8 k[32]) {
        u8 c[16]; memcpy(c, k, 16);
        c[3] &= 15; c[7] &= 15; c[11] &= 15; c[15] &= 15; c[4] &= 252; c[8] &= 252; c[12] &= 252;
        u32 t0 = le32(c), t1 = le32(c+4), t2 = le32(c+8), t3 = le32(c+12);
        r[0] = t0 & 0x3ffffff; r[1] = ((u64(t1) << 32 | t0) >> 26) & 0x3ffffff; r[2] = ((u64(t2) << 32 | t1) >> 20) & 0x3ffffff;
        r[3] = ((u64(t3) << 32 | t2) >> 14) & 0x3ffffff; r[4] = t3 >> 8;
        for (int i = 0; i < 4; i++) pad[i] = le32(k + 16 + 4*i);
    }
    void update(const u8* p, size_t n) {
        while (n) {
            if (nb == 0 && n >= 16) { block(p, 1u << 24); p += 16; n -= 16; continue; }
            size_t c = 16 - nb < n ? 16 - nb : n; memcpy(buf + nb, p, c); nb += c; p += c; n -= c;
            if (nb == 16) { block(buf, 1u << 24); nb = 0; }
        }
    }
    bytes finish() {
        if (nb) { buf[nb] = 1; memset(buf + nb + 1, 0, 15 - nb); block(buf, 0); }
        for (int k = 0; k < 2; k++) { u32 c = 0; for (int i = 0; i < 5; i++) { h[i] += c; c = h[i] >> 26; h[i] &= 0x3ffffff; } h[0] += c * 5; }
        { u32 c = h[0] >> 26; h[0] &= 0x3ffffff; h[1] += c; }
        u32 g[5]; u32 c = 5; // g = h + 5 - 2^130
        for (int i = 0; i < 5; i++) { g[i] = h[i] + c; c = g[i] >> 26; g[i] &= 0x3ffffff; }
        const u32* x = c ? g : h;
        u32 w[4] = { x[0] | x[1] << 26, x[1] >> 6 | x[2] << 20, x[2] >> 12 | x[3] << 14, x[3] >> 18 | x[4] << 8 };
        u64 f = 0; bytes o(16);
        for (int i = 0; i < 4; i++) { f += u64(w[i]) + pad[i]; for (int j = 0; j < 4; j++) o[4*i+j] = u8(f >> (8*j)); f >>= 32; }
        return o;
    }
};
inline bytes poly1305(const bytes& k, const bytes& m) { Poly p(k.data()); p.update(m.data(), m.size()); return p.finish(); }

// ---- RFC 8439 AEAD -------------------------------------------------------
struct AeadKeys { u8 iv0[16], iv1[16], otk[32]; };
inline AeadKeys aead_keys(const u8 key[32], const u8 nonce[12]) {
    AeadKeys k; memset(&k, 0, sizeof k); memcpy(k.iv0 + 4, nonce, 12); memcpy(k.iv1 + 4, nonce, 12); k.iv1[0] = 1;
    u8 z[32] = {0}; Chacha(key, k.iv0).xor_(z, k.otk, 32);
    return k;
}
inline bytes aead_tag(const bytes& key, const bytes& nonce, const bytes& aad, const bytes& ct) {
    auto k = aead_keys(key.data(), nonce.data()); Poly p(k.otk); u8 z[16] = {0}, len[16];
    p.update(aad.data(), aad.size()); p.update(z, (16 - aad.size() % 16) % 16);
    p.update(ct.data(), ct.size()); p.update(z, (16 - ct.size() % 16) % 16);
    for (int i = 0; i < 8; i++) { len[i] = u8(u64(aad.size()) >> (8*i)); len[8+i] = u8(u64(ct.size()) >> (8*i)); }
    p.update(len, 16);
    return p.finish();
}
inline bytes aead_crypt(const bytes& key, const bytes& nonce, const bytes& in) {
    auto k = aead_keys(key.data(), nonce.data()); bytes o(in.size()); Chacha(key.data(), k.iv1).xor_(in.data(), o.data(), in.size());
    return o;
}

// ---- RFC 4648 ------------------------------------------------------------
inline std::string b16enc(const bytes& b) { static const char* d = "0123456789abcdef"; std::string s; for (u8 c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
inline std::string b64enc(const bytes& b) {
    static const char* d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; size_t i = 0;
    for (; i + 2 < b.size(); i += 3) { u32 v = b[i] << 16 | b[i+1] << 8 | b[i+2]; s += d[v >> 18]; s += d[v >> 12 & 63]; s += d[v >> 6 & 63]; s += d[v & 63]; }
    if (b.size() - i == 1) { u32 v = b[i] << 16; s += d[v >> 18]; s += d[v >> 12 & 63]; s += "=="; }
    if (b.size() - i == 2) { u32 v = b[i] << 16 | b[i+1] << 8; s += d[v >> 18]; s += d[v >> 12 & 63]; s += d[v >> 6 & 63]; s += '='; }
    return s;
}
inline int b16val(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline int b64val(u8 c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
// Returns true if valid; out = bytes decodable before the first damaged group.
inline bool b16dec(const std::string& s, bytes& out) {
    out.clear(); size_t i = 0;
    if (s.size() & 1) { int v = b16val(u8(s[0])); if (v < 0) return false; out.push_back(u8(v)); i = 1; }
    for (; i < s.size(); i += 2) { int a = b16val(u8(s[i])), b = b16val(u8(s[i+1])); if (a < 0 || b < 0) return false; out.push_back(u8(a << 4 | b)); }
    return true;
}
inline bool b64dec(const std::string& s, bytes& out) {
    out.clear();
    if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4) {
        bool last = i + 4 == s.size(); int a = b64val(u8(s[i])), b = b64val(u8(s[i+1])), c = b64val(u8(s[i+2])), d = b64val(u8(s[i+3]));
        bool p0 = last && s[i+2] == '=', p1 = last && s[i+3] == '=';
        if (a < 0 || b < 0 || (p0 && !p1) || (c < 0 && !p0) || (d < 0 && !p1)) return false;
        out.push_back(u8(a << 2 | b >> 4));
        if (!p0) out.push_back(u8(b << 4 | c >> 2));
        if (!p0 && !p1) out.push_back(u8(c << 6 | d));
    }
    return true;
}
} // namespace ref
