#include <milo/internal.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/detail/alias.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class I> struct HashImpl : Alg {
    HashImpl() { fill<I>(this); digest = I::digest_size; }
    void exec(Call& c) override {
        I* t = (I*)c.self;
        if (life<I>(c)) return;
        switch (c.op) {
        case O_CTOR_INIT: LIB((void)(new (c.self) I)->initialize()); break;
        case O_INIT: LIB(t->initialize()); break;
        case O_ABSORB: if (c.ii & 1) LIB(t->update(cc(c.in.p), c.in.n)); else LIB(t->update(c.in.p, c.in.n)); break;
        case O_FINALIZE: LIB(t->finalize()); break;
        case O_DIGEST: c.alloc_free_api = true;
            if (c.io & 1) c.ret = LIB(t->digest(cm(c.out.p), c.req)); else c.ret = LIB(t->digest(c.out.p, c.req)); break;
        }
    }
};
template <class I> struct HashApie : Alg {
    using A = mp::hash::apie<I>; static constexpr size_t D = I::digest_size;
    HashApie() { fill<A>(this); digest = D; apie = true; }
    template <class C> static void ref_(Call& c, A* t) { C r; dirty(c, r); try { c.ret = LIB(t->digest(r, c.req)); take(c, r); } catch (...) { throw; } }
    void dig(Call& c, A* t) {
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(t->digest(c.out.p, c.req)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(t->digest(cm(c.out.p), c.req)); break;
        case 2: ref_<std::vector<unsigned char>>(c, t); break;
        case 3: { c.alloc_free_api = true; std::span<unsigned char> s(c.out.p, c.out.n); c.ret = LIB(t->digest(s, c.req)); break; }
        case 4: ref_<std::string>(c, t); break;
        case 5: { auto r = LIB(t->digest(c.req)); take(c, r); c.ret = r.size(); break; }
        case 6: { c.alloc_free_api = true; auto r = LIB(t->digest()); take(c, r); c.ret = r.size(); c.req = D; break; }
        case 7: ref_<UC>(c, t); break;
        case 8: { c.alloc_free_api = true; std::array<unsigned char, 13> r; r.fill(0xEE); c.ret = LIB(t->digest(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 13; for (size_t i = c.ret; i < 13; i++) if (r[i] != 0xEE) c.ret2 = i + 1; break; }
        case 9: { c.alloc_free_api = true; std::array<char, 100> r; r.fill('\xEE'); c.ret = LIB(t->digest(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 100; for (size_t i = c.ret; i < 100; i++) if (r[i] != '\xEE') c.ret2 = i + 1; break; }
        case 10: { c.alloc_free_api = true; auto r = LIB(t->template digest<std::array<char, 7>>()); take(c, r); c.ret = 7; c.req = 7; break; }
        default: { auto r = LIB(t->template digest<std::string>(c.req)); take(c, r); c.ret = r.size(); break; }
        }
    }
    void exec(Call& c) override {
        A* t = (A*)c.self;
        if (life<A>(c)) return;
        try { switch (c.op) {
        case O_CTOR_INIT: LIB((void)new (c.self) A); break;
        case O_INIT: LIB(t->initialize()); break;
        case O_ABSORB: c.alloc_free_api = true;
            if (c.ii == 0) LIB(t->update(c.in.p, c.in.n)); else if (c.ii == 1) LIB(t->update(cc(c.in.p), c.in.n));
            else with_in(c.in, c.ii, [&](const auto& m) { LIB(t->update(m)); });
            break;
        case O_FINALIZE: break;
        case O_DIGEST: dig(c, t); break;
        case O_ONESHOT: one(c); break;
        } } MILO_CATCH(c)
    }
    void one(Call& c) {
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(mp::hash::digest<I>(c.in.p, c.in.n, c.out.p, c.req)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(mp::hash::digest<I>(cc(c.in.p), c.in.n, cm(c.out.p), c.req)); break;
        case 2: with_in(c.in, c.ii, [&](const auto& m) { std::vector<char> r; dirty(c, r); c.ret = LIB(mp::hash::digest<I>(m, r, c.req)); take(c, r); }); break;
        case 3: with_in(c.in, c.ii, [&](const auto& m) { auto r = LIB(mp::hash::digest<I>(m, c.req)); take(c, r); c.ret = r.size(); }); break;
        case 4: with_in(c.in, c.ii, [&](const auto& m) { c.alloc_free_api = true; auto r = LIB(mp::hash::digest<I>(m)); take(c, r); c.ret = r.size(); c.req = D; }); break;
        case 5: with_in(c.in, c.ii, [&](const auto& m) { c.alloc_free_api = true; std::span<char> s(cm(c.out.p), c.out.n); c.ret = LIB(mp::hash::digest<I>(m, s, c.req)); }); break;
        case 6: with_in(c.in, c.ii, [&](const auto& m) { UC r; dirty(c, r); c.ret = LIB(mp::hash::digest<I>(m, r, c.req)); take(c, r); }); break;
        default: with_in(c.in, c.ii, [&](const auto& m) { auto r = LIB(mp::hash::digest<I, std::string>(m, c.req)); take(c, r); c.ret = r.size(); }); break;
        }
    }
};
template <class I> void reg(const char* n, int h, int need = 0) {
    Alg* a = new HashImpl<I>; a->name = std::string("hash/") + n; a->kind = K_HASH; a->hash = h; a->need = need; algs().push_back(a);
    a = new HashApie<I>; a->name = std::string("hash-apie/") + n; a->kind = K_HASH; a->hash = h; a->need = need; algs().push_back(a);
}
}
void reg_hash() {
    using namespace mp;
    reg<hash_sha_1_160>("sha1", ref::SHA1); reg<hash_sha_2_224>("sha224", ref::SHA224); reg<hash_sha_2_256>("sha256", ref::SHA256);
    reg<hash_sha_2_384>("sha384", ref::SHA384); reg<hash_sha_2_512>("sha512", ref::SHA512); reg<hash_sha_2_512_224>("sha512_224", ref::SHA512_224); reg<hash_sha_2_512_256>("sha512_256", ref::SHA512_256);
    reg<hash_sha_1_160_sw>("sha1_sw", ref::SHA1); reg<hash_sha_2_224_sw>("sha224_sw", ref::SHA224); reg<hash_sha_2_256_sw>("sha256_sw", ref::SHA256);
    reg<hash_sha_2_512_sw>("sha512_sw", ref::SHA512);
    reg<hash_sha_1_160_hw_x86_64_ni>("sha1_ni", ref::SHA1); reg<hash_sha_2_224_hw_x86_64_ni>("sha224_ni", ref::SHA224); reg<hash_sha_2_256_hw_x86_64_ni>("sha256_ni", ref::SHA256);
    using namespace milo::option; // shorter digests and enforced back ends chosen by the user's type
    reg<hash::sha_2_256<digest_size<21>>>("sha256_21", ref::SHA256 | 21 << 8); reg<hash::sha_2_512<impl_runtime<mp::detail::hash_sha_2_512_impl_sw>, digest_size<33>>>("sha512_33", ref::SHA512 | 33 << 8); reg<hash::sha_1_160<digest_size<7>>>("sha1_7", ref::SHA1 | 7 << 8);
    reg<hash::sha_2_224<impl_enforce<mp::detail::hash_sha_2_256_impl_sw>>>("sha224_enf", ref::SHA224);
}
