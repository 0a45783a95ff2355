#include <milo/internal.h>
#include <milo/error.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/detail/alias.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class T> void init_ptr(T* t, Call& c) { if (c.ii & 1) LIB(t->initialize(cc(c.key.p), c.key.n, cc(c.iv.p), c.iv.n)); else LIB(t->initialize(c.key.p, c.key.n, c.iv.p, c.iv.n)); }
template <class T> void crypt_ptr(T* t, Call& c) {
    c.alloc_free_api = true;
    if (c.dec) { if (c.io & 1) c.ret = LIB(t->decrypt(cc(c.in.p), c.in.n, cm(c.out.p))); else c.ret = LIB(t->decrypt(c.in.p, c.in.n, c.out.p)); c.sized = t->decrypt_size(c.in.p, c.in.n); }
    else { if (c.io & 1) c.ret = LIB(t->encrypt(cc(c.in.p), c.in.n, cm(c.out.p))); else c.ret = LIB(t->encrypt(c.in.p, c.in.n, c.out.p)); c.sized = t->encrypt_size(c.in.p, c.in.n); }
}
template <class I> struct CipherImpl : Alg {
    CipherImpl() { fill<I>(this); }
    void exec(Call& c) override {
        I* t = (I*)c.self;
        if (life<I>(c)) return;
        switch (c.op) {
        case O_CTOR_INIT: LIB((void)new (c.self) I); init_ptr(t, c); break;
        case O_INIT: init_ptr(t, c); break;
        case O_CRYPT: crypt_ptr(t, c); break;
        }
    }
};
template <class I> struct CipherApie : Alg {
    using A = mp::cipher::apie<I>;
    CipherApie() { fill<A>(this); apie = true; }
    template <class M, class O> static size_t ed(A* t, bool dec, const M& m, O& o) { if (dec) return LIB(t->decrypt(m, o)); return LIB(t->encrypt(m, o)); }
    template <class O, class M> static O edv(A* t, bool dec, const M& m) { if (dec) return LIB(t->template decrypt<O>(m)); return LIB(t->template encrypt<O>(m)); }
    void exec(Call& c) override {
        A* t = (A*)c.self;
        if (life<A>(c)) return;
        try { switch (c.op) {
        case O_CTOR_INIT:
            if (c.ii == 0) { LIB((void)new (c.self) A); init_ptr(t, c); }
            else with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) { LIB((void)new (c.self) A(k, v)); });
            break;
        case O_INIT: if (c.ii < 2) init_ptr(t, c); else with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) { LIB(t->initialize(k, v)); }); break;
        case O_CRYPT: switch (c.io) {
            case 0: case 1: crypt_ptr(t, c); break;
            case 2: { std::vector<unsigned char> o; dirty(c, o); std::string_view m(cc(c.in.p), c.in.n); c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            case 3: { c.alloc_free_api = true; std::span<unsigned char> o(c.out.p, c.out.n); std::span<const char> m(cc(c.in.p), c.in.n); c.ret = ed(t, c.dec, m, o); break; }
            case 4: { std::string o("stale"); dirty(c, o); std::vector<unsigned char> m(c.in.p, c.in.p + c.in.n); c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            case 5: { UC o; dirty(c, o); UV m{cc(c.in.p), c.in.n}; c.ret = ed(t, c.dec, m, o); take(c, o); break; }
            default: { std::span<const unsigned char> m(c.in.p, c.in.n); auto o = edv<std::string>(t, c.dec, m); take(c, o); c.ret = o.size(); break; }
            } break;
        case O_ONESHOT: one(c); break;
        } } MILO_CATCH(c)
    }
    template <class A_> static void ptr_one(Call& c) {
        if constexpr (std::is_constructible_v<A_, const unsigned char*, size_t, const unsigned char*, size_t>) {
            c.alloc_free_api = true;
            if (c.io == 0) c.ret = c.dec ? LIB(mp::cipher::decrypt<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.in.p, c.in.n, c.out.p)) : LIB(mp::cipher::encrypt<I>(c.key.p, c.key.n, c.iv.p, c.iv.n, c.in.p, c.in.n, c.out.p));
            else c.ret = c.dec ? LIB(mp::cipher::decrypt<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.in.p), c.in.n, cm(c.out.p))) : LIB(mp::cipher::encrypt<I>(cc(c.key.p), c.key.n, c.iv.p, c.iv.n, cc(c.in.p), c.in.n, cm(c.out.p)));
        } else { c.threw = T_OTHER; c.err = -1; } // the pointer one-liners of the reference do not exist
    }
    void one(Call& c) {
        if (c.io < 2) { ptr_one<A>(c); return; }
        with_in2(c.key, c.iv, c.ii, [&](const auto& k, const auto& v) {
            std::span<const unsigned char> m(c.in.p, c.in.n);
            switch (c.io) {
            case 2: { std::vector<unsigned char> o; dirty(c, o); c.ret = c.dec ? LIB(mp::cipher::decrypt<I>(k, v, m, o)) : LIB(mp::cipher::encrypt<I>(k, v, m, o)); take(c, o); break; }
            case 3: { c.alloc_free_api = true; std::span<char> o(cm(c.out.p), c.out.n); c.ret = c.dec ? LIB(mp::cipher::decrypt<I>(k, v, m, o)) : LIB(mp::cipher::encrypt<I>(k, v, m, o)); break; }
            case 4: { UC o; dirty(c, o); c.ret = c.dec ? LIB(mp::cipher::decrypt<I>(k, v, m, o)) : LIB(mp::cipher::encrypt<I>(k, v, m, o)); take(c, o); break; }
            case 5: { if (c.dec) { auto o = LIB(mp::cipher::decrypt<I>(k, v, m)); take(c, o); } else { auto o = LIB(mp::cipher::encrypt<I>(k, v, m)); take(c, o); } c.ret = c.got.size(); break; }
            default: { if (c.dec) { auto o = LIB(mp::cipher::decrypt<I, std::string>(k, v, m)); take(c, o); } else { auto o = LIB(mp::cipher::encrypt<I, std::string>(k, v, m)); take(c, o); } c.ret = c.got.size(); break; }
            }
        });
    }
};
template <class I> void reg(const char* n) {
    Alg* a = new CipherImpl<I>; a->name = std::string("cipher/") + n; a->kind = K_CIPHER; algs().push_back(a);
    a = new CipherApie<I>; a->name = std::string("cipher-apie/") + n; a->kind = K_CIPHER; algs().push_back(a);
}
}
void reg_cipher() {
    using namespace mp;
    reg<cipher_chacha_20>("chacha20"); reg<cipher_chacha_20_sw>("chacha20_sw");
    reg<cipher_chacha_20_hw_x86_64_ssse_3>("chacha20_ssse3"); reg<cipher_chacha_20_hw_x86_64_avx_2>("chacha20_avx2");
}
