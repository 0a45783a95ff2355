#include <milo/internal.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class I> struct MacImpl : Alg {
    MacImpl() { fill<I>(this); digest = I::digest_size; }
    static void init(I* t, Call& c) { if (c.ii & 1) LIB(t->initialize(cc(c.key.p), c.key.n)); else LIB(t->initialize(c.key.p, c.key.n)); }
    void exec(Call& c) override {
        I* t = (I*)c.self;
        if (life<I>(c)) return;
        switch (c.op) {
        case O_CTOR_INIT: LIB((void)new (c.self) I); init(t, c); break;
        case O_INIT: init(t, c); break;
        case O_ABSORB: if (c.ii & 1) LIB(t->update(cc(c.in.p), c.in.n)); else LIB(t->update(c.in.p, c.in.n)); break;
        case O_FINALIZE: LIB(t->finalize()); break;
        case O_DIGEST: c.alloc_free_api = true;
            if (c.io & 1) c.ret = LIB(t->digest(cm(c.out.p), c.req)); else c.ret = LIB(t->digest(c.out.p, c.req)); break;
        }
    }
};
template <class I> struct MacApie : Alg {
    using A = mp::mac::apie<I>; static constexpr size_t D = I::digest_size;
    MacApie() { fill<A>(this); digest = D; apie = true; }
    template <class C> static void ref_(Call& c, A* t) { C r; dirty(c, r); c.ret = LIB(t->digest(r, c.req)); take(c, r); }
    void dig(Call& c, A* t) {
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(t->digest(c.out.p, c.req)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(t->digest(cm(c.out.p), c.req)); break;
        case 2: ref_<std::vector<unsigned char>>(c, t); break;
        case 3: { c.alloc_free_api = true; std::span<unsigned char> s(c.out.p, c.out.n); c.ret = LIB(t->digest(s, c.req)); break; }
        case 4: ref_<std::string>(c, t); break;
        case 5: { auto r = LIB(t->digest(c.req)); take(c, r); c.ret = r.size(); break; }
        case 6: { c.alloc_free_api = true; auto r = LIB(t->digest()); take(c, r); c.ret = r.size(); c.req = D; break; }
        case 7: ref_<UC>(c, t); break;
        case 8: { c.alloc_free_api = true; std::array<unsigned char, 13> r; r.fill(0xEE); c.ret = LIB(t->digest(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 13; for (size_t i = c.ret; i < 13; i++) if (r[i] != 0xEE) c.ret2 = i + 1; break; }
        case 9: { c.alloc_free_api = true; std::array<char, 100> r; r.fill('\xEE'); c.ret = LIB(t->digest(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 100; for (size_t i = c.ret; i < 100; i++) if (r[i] != '\xEE') c.ret2 = i + 1; break; }
        case 10: { c.alloc_free_api = true; auto r = LIB(t->template digest<std::array<char, 7>>()); take(c, r); c.ret = 7; c.req = 7; break; }
        default: { auto r = LIB(t->template digest<std::string>(c.req)); take(c, r); c.ret = r.size(); break; }
        }
    }
    void exec(Call& c) override {
        A* t = (A*)c.self;
        if (life<A>(c)) return;
        try { switch (c.op) {
        case O_CTOR_INIT: if (c.ii == 0) LIB((void)new (c.self) A(c.key.p, c.key.n)); else if (c.ii == 1) LIB((void)new (c.self) A(cc(c.key.p), c.key.n));
            else with_in(c.key, c.ii, [&](const auto& k) { LIB((void)new (c.self) A(k)); });
            break;
        case O_INIT: if (c.ii == 0) LIB(t->initialize(c.key.p, c.key.n)); else if (c.ii == 1) LIB(t->initialize(cc(c.key.p), c.key.n));
            else with_in(c.key, c.ii, [&](const auto& k) { LIB(t->initialize(k)); });
            break;
        case O_ABSORB: c.alloc_free_api = true;
            if (c.ii == 0) LIB(t->update(c.in.p, c.in.n)); else if (c.ii == 1) LIB(t->update(cc(c.in.p), c.in.n));
            else with_in(c.in, c.ii, [&](const auto& m) { LIB(t->update(m)); });
            break;
        case O_DIGEST: dig(c, t); break;
        case O_ONESHOT: one(c); break;
        } } MILO_CATCH(c)
    }
    void one(Call& c) {
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(mp::mac::digest<I>(c.key.p, c.key.n, c.in.p, c.in.n, c.out.p, c.req)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(mp::mac::digest<I>(cc(c.key.p), c.key.n, cc(c.in.p), c.in.n, cm(c.out.p), c.req)); break;
        case 2: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { std::vector<char> r; dirty(c, r); c.ret = LIB(mp::mac::digest<I>(k, m, r, c.req)); take(c, r); }); break;
        case 3: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { auto r = LIB(mp::mac::digest<I>(k, m, c.req)); take(c, r); c.ret = r.size(); }); break;
        case 4: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { c.alloc_free_api = true; auto r = LIB(mp::mac::digest<I>(k, m)); take(c, r); c.ret = r.size(); c.req = D; }); break;
        case 5: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { c.alloc_free_api = true; std::span<char> s(cm(c.out.p), c.out.n); c.ret = LIB(mp::mac::digest<I>(k, m, s, c.req)); }); break;
        case 6: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { UC r; dirty(c, r); c.ret = LIB(mp::mac::digest<I>(k, m, r, c.req)); take(c, r); }); break;
        default: with_in2(c.key, c.in, c.ii, [&](const auto& k, const auto& m) { auto r = LIB(mp::mac::digest<I, std::string>(k, m, c.req)); take(c, r); c.ret = r.size(); }); break;
        }
    }
};
template <class I> void reg(const char* n, int h) {
    Alg* a = new MacImpl<I>; a->name = std::string("mac/") + n; a->kind = h < 0 ? K_POLY : K_HMAC; a->hash = h; algs().push_back(a);
    a = new MacApie<I>; a->name = std::string("mac-apie/") + n; a->kind = h < 0 ? K_POLY : K_HMAC; a->hash = h; algs().push_back(a);
}
}
void reg_mac() {
    using namespace mp;
    reg<mac_hmac_sha_1_160>("hmac_sha1", ref::SHA1); reg<mac_hmac_sha_2_224>("hmac_sha224", ref::SHA224); reg<mac_hmac_sha_2_256>("hmac_sha256", ref::SHA256);
    reg<mac_hmac_sha_2_384>("hmac_sha384", ref::SHA384); reg<mac_hmac_sha_2_512>("hmac_sha512", ref::SHA512); reg<mac_hmac_sha_2_512_224>("hmac_sha512_224", ref::SHA512_224); reg<mac_hmac_sha_2_512_256>("hmac_sha512_256", ref::SHA512_256);
    reg<mac_poly_1305>("poly1305", -1);
    reg<mac_hmac_sha_2_256_sw>("hmac_sha256_sw", ref::SHA256); reg<mac_hmac_sha_1_160_hw_x86_64_ni>("hmac_sha1_ni", ref::SHA1); reg<mac_poly_1305_sw>("poly1305_sw", -1);
    using namespace milo::option; // shorter digests chosen by the user's type
    reg<mac::hmac<hash_sha_2_256, digest_size<14>>>("hmac_sha256_14", ref::SHA256 | 14 << 16); reg<mac::hmac<hash::sha_2_512<digest_size<33>>>>("hmac_sha512_33", ref::SHA512 | 33 << 8);
    reg<mac::hmac<hash::sha_1_160<digest_size<15>, impl_runtime<mp::detail::hash_sha_1_160_impl_sw>>, digest_size<13>>>("hmac_sha1_15_13", ref::SHA1 | 15 << 8 | 13 << 16); reg<mac::poly_1305<digest_size<10>>>("poly1305_10", -1);
}
