#include <milo/internal.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/detail/alias.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class I> struct KdfImpl : Alg {
    static constexpr bool H = milo::meta::primitive::kdf_hkdf<I>;
    KdfImpl() { fill<I>(this); digest = 0; }
    static void init(I* t, Call& c) {
        if constexpr (H) {
            if (c.ii & 1) LIB(t->initialize(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.info.p), c.info.n)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n));
        } else {
            if (c.ii & 1) LIB(t->initialize(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, c.iters)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n, c.iters));
        }
    }
    void exec(Call& c) override {
        I* t = (I*)c.self;
        if (life<I>(c)) return;
        switch (c.op) {
        case O_CTOR_INIT: LIB((void)new (c.self) I); init(t, c); break;
        case O_INIT: init(t, c); break;
        case O_DERIVE: c.alloc_free_api = true; if (c.io & 1) c.ret = LIB(t->derive(cm(c.out.p), c.req)); else c.ret = LIB(t->derive(c.out.p, c.req)); break;
        }
    }
};
template <class I> struct KdfApie : Alg {
    static constexpr bool H = milo::meta::primitive::kdf_hkdf<I>;
    using A = mp::kdf::apie<I>;
    KdfApie() { fill<A>(this); apie = true; }
    // The containers passed here are views of simulator-owned memory: the
    // library keeps pointers to ikm/salt/info.
    template <class F> static void views(Call& c, F f) {
        switch (c.ii % 3) {
        case 0: f(std::span<const unsigned char>(c.key.p, c.key.n), std::string_view(cc(c.iv.p), c.iv.n), UV{cc(c.info.p), c.info.n}); break;
        case 1: f(std::string_view(cc(c.key.p), c.key.n), UV{cc(c.iv.p), c.iv.n}, std::span<const unsigned char>(c.info.p, c.info.n)); break;
        default: f(UV{cc(c.key.p), c.key.n}, std::span<const unsigned char>(c.iv.p, c.iv.n), std::string_view(cc(c.info.p), c.info.n)); break;
        }
    }
    static void init(Call& c, bool ctor) {
        A* t = (A*)c.self;
        if constexpr (H) {
            if (c.ii == 0) { if (ctor) LIB((void)new (c.self) A(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n)); }
            else views(c, [&](const auto& k, const auto& s, const auto& i) { if (ctor) LIB((void)new (c.self) A(k, s, i)); else LIB(t->initialize(k, s, i)); });
        } else {
            if (c.ii == 0) { if (ctor) LIB((void)new (c.self) A(c.key.p, c.key.n, c.iv.p, c.iv.n, c.iters)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n, c.iters)); }
            else views(c, [&](const auto& k, const auto& s, const auto&) { if (ctor) LIB((void)new (c.self) A(k, s, c.iters)); else LIB(t->initialize(k, s, c.iters)); });
        }
    }
    template <class C> static void ref_(Call& c, A* t) { C r; dirty(c, r); c.ret = LIB(t->derive(r, c.req)); take(c, r); }
    void exec(Call& c) override {
        A* t = (A*)c.self;
        if (life<A>(c)) return;
        try { switch (c.op) {
        case O_CTOR_INIT: init(c, true); break;
        case O_INIT: init(c, false); break;
        case O_DERIVE: switch (c.io) {
            case 0: c.alloc_free_api = true; c.ret = LIB(t->derive(c.out.p, c.req)); break;
            case 1: c.alloc_free_api = true; c.ret = LIB(t->derive(cm(c.out.p), c.req)); break;
            case 2: ref_<std::vector<unsigned char>>(c, t); break;
            case 3: { c.alloc_free_api = true; std::span<unsigned char> s(c.out.p, c.out.n); c.ret = LIB(t->derive(s, c.req)); break; }
            case 4: ref_<std::string>(c, t); break;
            case 5: { auto r = LIB(t->derive(c.req)); take(c, r); c.ret = r.size(); break; }
            case 6: { c.alloc_free_api = true; auto r = LIB(t->template derive<std::array<unsigned char, 45>>()); take(c, r); c.ret = 45; c.req = 45; break; }
            case 7: ref_<UC>(c, t); break;
            case 8: { c.alloc_free_api = true; std::array<unsigned char, 13> r; r.fill(0xEE); c.ret = LIB(t->derive(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 13; for (size_t i = c.ret; i < 13; i++) if (r[i] != 0xEE) c.ret2 = i + 1; break; }
            default: { auto r = LIB(t->template derive<std::string>(c.req)); take(c, r); c.ret = r.size(); break; }
            } break;
        case O_ONESHOT: one(c); break;
        } } MILO_CATCH(c)
    }
    void one(Call& c) {
        if constexpr (H) {
            if (c.io == 0) { c.alloc_free_api = true; c.ret = LIB(mp::kdf::derive<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n, c.out.p, c.req)); return; }
            if (c.io == 1) { c.alloc_free_api = true; c.ret = LIB(mp::kdf::derive<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.info.p), c.info.n, cm(c.out.p), c.req)); return; }
            views(c, [&](const auto& k, const auto& s, const auto& i) { switch (c.io) {
                case 2: { std::vector<char> r; dirty(c, r); c.ret = LIB(mp::kdf::derive<I>(k, s, i, r, c.req)); take(c, r); break; }
                case 3: { auto r = LIB(mp::kdf::derive<I>(k, s, i, c.req)); take(c, r); c.ret = r.size(); break; }
                case 4: { c.alloc_free_api = true; auto r = LIB(mp::kdf::derive<I, std::array<char, 45>>(k, s, i)); take(c, r); c.ret = 45; c.req = 45; break; }
                case 5: { c.alloc_free_api = true; std::span<char> r(cm(c.out.p), c.out.n); c.ret = LIB(mp::kdf::derive<I>(k, s, i, r, c.req)); break; }
                case 6: { UC r; dirty(c, r); c.ret = LIB(mp::kdf::derive<I>(k, s, i, r, c.req)); take(c, r); break; }
                default: { auto r = LIB(mp::kdf::derive<I, std::string>(k, s, i, c.req)); take(c, r); c.ret = r.size(); break; }
            } });
        } else {
            if (c.io == 0) { c.alloc_free_api = true; c.ret = LIB(mp::kdf::derive<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.iters, c.out.p, c.req)); return; }
            if (c.io == 1) { c.alloc_free_api = true; c.ret = LIB(mp::kdf::derive<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, c.iters, cm(c.out.p), c.req)); return; }
            views(c, [&](const auto& k, const auto& s, const auto&) { switch (c.io) {
                case 2: { std::vector<char> r; dirty(c, r); c.ret = LIB(mp::kdf::derive<I>(k, s, c.iters, r, c.req)); take(c, r); break; }
                case 3: { auto r = LIB(mp::kdf::derive<I>(k, s, c.iters, c.req)); take(c, r); c.ret = r.size(); break; }
                case 4: { c.alloc_free_api = true; auto r = LIB(mp::kdf::derive<I, std::array<char, 45>>(k, s, c.iters)); take(c, r); c.ret = 45; c.req = 45; break; }
                case 5: { c.alloc_free_api = true; std::span<char> r(cm(c.out.p), c.out.n); c.ret = LIB(mp::kdf::derive<I>(k, s, c.iters, r, c.req)); break; }
                case 6: { UC r; dirty(c, r); c.ret = LIB(mp::kdf::derive<I>(k, s, c.iters, r, c.req)); take(c, r); break; }
                default: { auto r = LIB(mp::kdf::derive<I, std::string>(k, s, c.iters, c.req)); take(c, r); c.ret = r.size(); break; }
            } });
        }
    }
};
template <class I> void reg(const char* n, int kind, int h) {
    Alg* a = new KdfImpl<I>; a->name = std::string("kdf/") + n; a->kind = kind; a->hash = h; a->digest = ref::mac_size(h); algs().push_back(a);
    a = new KdfApie<I>; a->name = std::string("kdf-apie/") + n; a->kind = kind; a->hash = h; a->digest = ref::mac_size(h); algs().push_back(a);
}
}
#define BOTH(s, n, h) reg<kdf_hkdf_hmac_##s>("hkdf_" n, K_HKDF, h); reg<kdf_pbkdf_2_hmac_##s>("pbkdf2_" n, K_PBKDF2, h)
#if KDF_PART == 1
void reg_kdf1() { using namespace mp; BOTH(sha_1_160, "sha1", ref::SHA1); BOTH(sha_2_224, "sha224", ref::SHA224); BOTH(sha_2_256, "sha256", ref::SHA256); }
#else
void reg_kdf2() { using namespace mp;
    BOTH(sha_2_384, "sha384", ref::SHA384); BOTH(sha_2_512, "sha512", ref::SHA512); BOTH(sha_2_512_224, "sha512_224", ref::SHA512_224); BOTH(sha_2_512_256, "sha512_256", ref::SHA512_256);
    reg<kdf_hkdf_hmac_sha_2_256_sw>("hkdf_sha256_sw", K_HKDF, ref::SHA256); reg<kdf_pbkdf_2_hmac_sha_1_160_hw_x86_64_ni>("pbkdf2_sha1_ni", K_PBKDF2, ref::SHA1);
    // the digest_size option below
    reg<kdf::hkdf<mac::hmac<hash::sha_2_512<milo::option::digest_size<33>>>>>("hkdf_sha512_33", K_HKDF, ref::SHA512 | 33 << 8); reg<kdf::pbkdf_2<mac::hmac<hash_sha_2_256, milo::option::digest_size<20>>>>("pbkdf2_sha256_20", K_PBKDF2, ref::SHA256 | 20 << 16); }
#endif
