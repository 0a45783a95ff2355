#include <milo/internal.h>
#include <milo/error.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/detail/alias.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class T> void init_ptr(T* t, Call& c) { if (c.ii & 1) LIB(t->initialize(cc(c.key.p), c.key.n, cc(c.iv.p), c.iv.n)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n)); }
template <class T> void crypt_ptr(T* t, Call& c) {
    c.alloc_free_api = true;
    if (c.dec) { if (c.io & 1) c.ret = LIB(t->decrypt(cc(c.in.p), c.in.n, cm(c.out.p))); else c.ret = LIB(t->decrypt(c.in.p, c.in.n, c.out.p)); c.sized = t->decrypt_size(c.in.p, c.in.n); }
    else { if (c.io & 1) c.ret = LIB(t->encrypt(cc(c.in.p), c.in.n, cm(c.out.p))); else c.ret = LIB(t->encrypt(c.in.p, c.in.n, c.out.p)); c.sized = t->encrypt_size(c.in.p, c.in.n); }
}
template <class I> struct AeadImpl : Alg {
    AeadImpl() { fill<I>(this); digest = 16; }
    void exec(Call& c) override {
        I* t = (I*)c.self;
        if (life<I>(c)) return;
        switch (c.op) {
        case O_CTOR_INIT: LIB((void)new (c.self) I); init_ptr(t, c); break;
        case O_INIT: init_ptr(t, c); break;
        case O_ABSORB: if (c.ii & 1) LIB(t->aad(cc(c.in.p), c.in.n)); else LIB(t->aad(c.in.p, c.in.n)); break;
        case O_AADOVER: LIB(t->aadover()); break;
        case O_CRYPT: crypt_ptr(t, c); break;
        case O_FINALIZE: LIB(t->finalize()); break;
        case O_DIGEST: c.alloc_free_api = true; if (c.io & 1) c.ret = LIB(t->digest(cm(c.out.p), c.req)); else c.ret = LIB(t->digest(c.out.p, c.req)); break;
        }
    }
};
template <class I> struct AeadApie : Alg {
    using A = mp::aead::apie<I>; static constexpr size_t D = I::digest_size;
    AeadApie() { fill<A>(this); digest = D; apie = true; }
    template <class M, class O> static size_t ed(A* t, bool dec, const M& m, O& o) { if (dec) return LIB(t->decrypt(m, o)); return LIB(t->encrypt(m, o)); }
    template <class O, class M> static O edv(A* t, bool dec, const M& m) { if (dec) return LIB(t->template decrypt<O>(m)); return LIB(t->template encrypt<O>(m)); }
    template <class C> static void ref_(Call& c, A* t) { C r; dirty(c, r); c.ret = LIB(t->digest(r, c.req)); take(c, r); }
    void dig(Call& c, A* t) {
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(t->digest(c.out.p, c.req)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(t->digest(cm(c.out.p), c.req)); break;
        case 2: ref_<std::vector<unsigned char>>(c, t); break;
        case 3: { c.alloc_free_api = true; std::span<unsigned char> s(c.out.p, c.out.n); c.ret = LIB(t->digest(s, c.req)); break; }
        case 4: ref_<std::string>(c, t); break;
        case 5: { auto r = LIB(t->digest(c.req)); take(c, r); c.ret = r.size(); break; }
        case 6: { c.alloc_free_api = true; auto r = LIB(t->digest()); take(c, r); c.ret = r.size(); c.req = D; break; }
        case 7: ref_<UC>(c, t); break;
        case 8: { c.alloc_free_api = true; std::array<unsigned char, 13> r; r.fill(0xEE); c.ret = LIB(t->digest(r, c.req)); c.got.assign(r.begin(), r.end()); c.used_got = true; c.out.n = 13; for (size_t i = c.ret; i < 13; i++) if (r[i] != 0xEE) c.ret2 = i + 1; break; }
        case 10: { c.alloc_free_api = true; auto r = LIB(t->template digest<std::array<char, 7>>()); take(c, r); c.ret = 7; c.req = 7; break; }
        default: { auto r = LIB(t->template digest<std::string>(c.req)); take(c, r); c.ret = r.size(); break; }
        }
    }
    void exec(Call& c) override {
        A* t = (A*)c.self;
        if (life<A>(c)) return;
        try { switch (c.op) {
        case O_CTOR_INIT:
            if (c.ii == 0) LIB((void)new (c.self) A(c.key.p, c.key.n, c.iv.p, c.iv.n));
            else with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) { LIB((void)new (c.self) A(k, v)); });
            break;
        case O_INIT: if (c.ii < 2) init_ptr(t, c); else with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) { LIB(t->initialize(k, v)); }); break;
        case O_ABSORB: c.alloc_free_api = true;
            if (c.ii == 0) LIB(t->aad(c.in.p, c.in.n)); else if (c.ii == 1) LIB(t->aad(cc(c.in.p), c.in.n));
            else with_in(c.in, c.ii, [&](const auto& m) { LIB(t->aad(m)); });
            break;
        case O_CRYPT: switch (c.io) {
            case 0: case 1: crypt_ptr(t, c); break;
            case 2: { std::vector<unsigned char> o; dirty(c, o); std::string_view m(cc(c.in.p), c.in.n); c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            case 3: { c.alloc_free_api = true; std::span<unsigned char> o(c.out.p, c.out.n); std::span<const char> m(cc(c.in.p), c.in.n); c.ret = ed(t, c.dec, m, o); break; }
            case 4: { std::string o("stale"); dirty(c, o); std::vector<unsigned char> m(c.in.p, c.in.p + c.in.n); c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            case 5: { UC o; dirty(c, o); UV m{cc(c.in.p), c.in.n}; c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            case 6: { std::string_view m(cc(c.in.p), c.in.n); if (c.dec) { auto o = LIB(t->decrypt(m)); take(c, o); } else { auto o = LIB(t->encrypt(m)); take(c, o); } c.ret = c.got.size(); break; }
            default: { std::span<const unsigned char> m(c.in.p, c.in.n); auto o = edv<std::string>(t, c.dec, m); take(c, o); c.ret = o.size(); break; }
            } break;
        case O_DIGEST: dig(c, t); break;
        case O_VERIFY: verify(c, t); break;
        case O_ONESHOT: seal(c); break;
        case O_OPEN: open(c); break;
        } } MILO_CATCH(c)
    }
    static void setstale(milo::error& e, int s) { if (s) e = milo::error(s == 1 ? milo::error::aead_verify : milo::error::size); }
    static void geterr(Call& c, const milo::error& e) { c.has_err = true; c.err = int(milo::error::code(e)); }
    void verify(Call& c, A* t) {
        milo::error e; setstale(e, c.stale);
        switch (c.io % 6) {
        case 0: LIB(t->verify(c.tag.p, c.tag.n, e)); geterr(c, e); break;
        case 1: LIB(t->verify(cc(c.tag.p), c.tag.n)); break;
        case 2: { std::span<const unsigned char> g(c.tag.p, c.tag.n); LIB(t->verify(g, e)); geterr(c, e); break; }
        case 3: { std::string g(cc(c.tag.p), c.tag.n); LIB(t->verify(g)); break; }
        case 4: { std::vector<char> g(cc(c.tag.p), cc(c.tag.p) + c.tag.n); LIB(t->verify(g, e)); geterr(c, e); break; }
        default: { UV g{cc(c.tag.p), c.tag.n}; LIB(t->verify(g)); break; }
        }
    }
    // c.info = aad, c.in = plaintext/ciphertext, c.out = text, c.out2 = tag
    void seal(Call& c) {
        if (c.io == 0) { c.alloc_free_api = true; auto r = LIB(mp::aead::encrypt<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n, c.in.p, c.in.n, c.out.p, c.out2.p)); c.ret = r.item_0; c.ret2 = r.item_1; return; }
        if (c.io == 1) { c.alloc_free_api = true; auto r = LIB(mp::aead::encrypt<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.info.p), c.info.n, cc(c.in.p), c.in.n, c.out.p, cm(c.out2.p))); c.ret = r.item_0; c.ret2 = r.item_1; return; }
        with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) {
            std::string_view ad(cc(c.info.p), c.info.n); std::span<const unsigned char> m(c.in.p, c.in.n);
            switch (c.io) {
            case 2: { std::vector<unsigned char> o; dirty(c, o); std::string g; dirty(c, g); auto r = LIB(mp::aead::encrypt<I>(k, v, ad, m, o, g)); take(c, o); take2(c, g); c.ret = r.item_0; c.ret2 = r.item_1; break; }
            case 3: { c.alloc_free_api = true; std::span<char> o(cm(c.out.p), c.out.n); std::array<unsigned char, 16> g; auto r = LIB(mp::aead::encrypt<I>(k, v, ad, m, o, g)); take2(c, g); c.ret = r.item_0; c.ret2 = r.item_1; break; }
            case 4: { UC o; dirty(c, o); std::array<char, 16> g; auto r = LIB(mp::aead::encrypt<I>(k, v, ad, m, o, g)); take(c, o); take2(c, g); c.ret = r.item_0; c.ret2 = r.item_1; break; }
            case 5: { auto [o, g] = LIB(mp::aead::encrypt<I>(k, v, ad, m)); take(c, o); take2(c, g); c.ret = o.size(); c.ret2 = g.size(); break; }
            default: { auto [o, g] = LIB(mp::aead::encrypt<I, std::string>(k, v, ad, m)); take(c, o); take2(c, g); c.ret = o.size(); c.ret2 = g.size(); break; }
            }
        });
    }
    void open(Call& c) {
        milo::error e; setstale(e, c.stale);
        if (c.io == 0) { c.alloc_free_api = true; c.ret = LIB(mp::aead::decrypt<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.info.p, c.info.n, c.in.p, c.in.n, c.tag.p, c.tag.n, c.out.p, e)); geterr(c, e); return; }
        if (c.io == 1) { c.alloc_free_api = true; c.ret = LIB(mp::aead::decrypt<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.info.p), c.info.n, cc(c.in.p), c.in.n, c.tag.p, c.tag.n, cm(c.out.p))); return; }
        with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) {
            std::string_view ad(cc(c.info.p), c.info.n); std::span<const unsigned char> m(c.in.p, c.in.n), g(c.tag.p, c.tag.n); std::string_view gs(cc(c.tag.p), c.tag.n);
            switch (c.io) {
            case 2: { std::vector<unsigned char> o; dirty(c, o); c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, g, o, e)); take(c, o); geterr(c, e); break; }
            case 3: { std::string o; dirty(c, o); c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, gs, o)); take(c, o); break; }
            case 4: { c.alloc_free_api = true; std::span<unsigned char> o(c.out.p, c.out.n); c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, gs, o, e)); geterr(c, e); break; }
            case 5: { c.alloc_free_api = true; std::array<char, 4096> o; if (c.in.n > 4096) return; c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, g, o)); c.got.assign((u8*)o.data(), (u8*)o.data() + c.ret); c.used_got = true; break; }
            case 6: { auto o = LIB(mp::aead::decrypt<I>(k, v, ad, m, g, e)); take(c, o); c.ret = o.size(); geterr(c, e); break; }
            case 7: { auto o = LIB(mp::aead::decrypt<I, std::string>(k, v, ad, m, g)); take(c, o); c.ret = o.size(); break; }
            case 8: { c.alloc_free_api = true; std::array<unsigned char, 4096> o; if (c.in.n > 4096) return; c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, gs, o, e)); c.got.assign(o.data(), o.data() + c.ret); c.used_got = true; geterr(c, e); break; }
            default: { UC o; dirty(c, o); c.ret = LIB(mp::aead::decrypt<I>(k, v, ad, m, g, o, e)); take(c, o); geterr(c, e); break; }
            }
        });
    }
};
template <class I> void reg(const char* n) {
    Alg* a = new AeadImpl<I>; a->name = std::string("aead/") + n; a->kind = K_AEAD; algs().push_back(a);
    a = new AeadApie<I>; a->name = std::string("aead-apie/") + n; a->kind = K_AEAD; algs().push_back(a);
}
}
void reg_aead() {
    using namespace mp;
    reg<aead_chacha_20_poly_1305>("chacha20poly1305"); reg<aead_chacha_20_sw_poly_1305_sw>("chacha20poly1305_sw");
    reg<detail::aead_chacha_20_poly_1305<cipher_chacha_20_hw_x86_64_ssse_3, mac_poly_1305>>("chacha20poly1305_ssse3");
}
