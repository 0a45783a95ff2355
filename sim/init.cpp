// Global objects that use every dispatching algorithm while they are being
// constructed, in a translation unit linked before everything else and with
// early, normal and late construction priorities (C08).
#include <milo/internal.h>
#include <milo/error.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/detail/alias.h>
#include "ref.hpp"
#include <cstring>
namespace mp = milo::primitive;
namespace {
constexpr int NRES = 14; constexpr size_t MSG = 700;
struct Early {
    unsigned char out[NRES][1024]; size_t n[NRES]; int seed;
    explicit Early(int s) : seed(s) {
        unsigned char m[MSG], k[32], v[16]; fillm(m, k, v, s); int i = 0; memset(n, 0, sizeof n);
        n[i] = mp::hash::digest<mp::hash_sha_1_160>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_224>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_256>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_384>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_512>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_512_224>(m, MSG, out[i], 64); i++;
        n[i] = mp::hash::digest<mp::hash_sha_2_512_256>(m, MSG, out[i], 64); i++;
        { mp::cipher::apie<mp::cipher_chacha_20> c; c.initialize(k, 32, v, 16); n[i] = c.encrypt(m, MSG, out[i]); i++; }
        { mp::mac::apie<mp::mac_hmac_sha_2_256> c(k, 32); c.update(m, MSG); n[i] = c.digest(out[i], 32); i++; }
        { mp::mac::apie<mp::mac_poly_1305> c(k, 32); c.update(m, MSG); n[i] = c.digest(out[i], 16); i++; }
        { mp::aead::apie<mp::aead_chacha_20_poly_1305> c(k, 32, v, 12); n[i] = c.encrypt(m, MSG, out[i]); c.digest(out[i] + MSG, 16); n[i] += 16; i++; }
        { mp::kdf::apie<mp::kdf_hkdf_hmac_sha_2_256> c(k, 32, v, 16, m, 10); n[i] = c.derive(out[i], 100); i++; }
        { mp::kdf::apie<mp::kdf_pbkdf_2_hmac_sha_1_160> c(k, 32, v, 16, 3); n[i] = c.derive(out[i], 45); i++; }
        { mp::mac::apie<mp::mac_hmac_sha_2_512> c(k, 32); c.update(m, MSG); n[i] = c.digest(out[i], 64); i++; }
    }
    static void fillm(unsigned char* m, unsigned char* k, unsigned char* v, int s) {
        for (size_t i = 0; i < MSG; i++) m[i] = (unsigned char)(i * 7 + size_t(s)); for (int i = 0; i < 32; i++) k[i] = (unsigned char)(i * 3 + s); for (int i = 0; i < 16; i++) v[i] = (unsigned char)(s ^ i);
    }
};
__attribute__((init_priority(101))) Early e1(1);
__attribute__((init_priority(500))) Early e2(2);
Early e3(3);
__attribute__((init_priority(65535))) Early e4(4);
}
// "" or what is wrong with results computed while global objects were constructed
const char* init_check() {
    using namespace ref; static const char* names[NRES] = {"sha1", "sha224", "sha256", "sha384", "sha512", "sha512/224", "sha512/256", "chacha20", "hmac-sha256", "poly1305", "chacha20poly1305", "hkdf-sha256", "pbkdf2-sha1", "hmac-sha512"};
    for (Early* e : {&e1, &e2, &e3, &e4}) {
        unsigned char m[MSG], k[32], v[16]; Early::fillm(m, k, v, e->seed); bytes M(m, m + MSG), K(k, k + 32), V(v, v + 16), V12(v, v + 12), x[NRES]; int i = 0;
        for (int h : {SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256}) x[i++] = hash(h, M);
        { bytes o(MSG); Chacha c(k, v); c.xor_(m, o.data(), MSG); x[i++] = o; }
        x[i++] = hmac(SHA256, K, M); x[i++] = poly1305(K, M);
        { auto q = aead_keys(k, v); bytes o(MSG); Chacha c(k, q.iv1); c.xor_(m, o.data(), MSG); bytes t = aead_tag(K, V12, bytes(), o); o.insert(o.end(), t.begin(), t.end()); x[i++] = o; }
        x[i++] = hkdf(SHA256, K, V, bytes(m, m + 10), 100); x[i++] = pbkdf2(SHA1, K, V, 3, 45); x[i++] = hmac(SHA512, K, M);
        for (int j = 0; j < NRES; j++) if (e->n[j] != x[j].size() || memcmp(e->out[j], x[j].data(), x[j].size())) return names[j];
    }
    return "";
}
