#include <milo/internal.h>
#include <milo/error.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/detail/alias.h>
#include <milo/literal.h>
#include "alg.hpp"
namespace mp = milo::primitive;
namespace {
template <class I> struct Codec : Alg {
    using A = mp::codec::apie<I>;
    static void setstale(milo::error& e, int s) { if (s) e = milo::error(s == 1 ? milo::error::aead_verify : milo::error::codec_base_16_decode); }
    static void geterr(Call& c, const milo::error& e) { c.has_err = true; c.err = int(milo::error::code(e)); }
    void exec(Call& c) override {
        try { if (c.op == O_ENC) enc(c); else if (c.op == O_DEC) dec(c); else c.sized = A::decode_size(c.in.p, c.in.n); } MILO_CATCH(c)
    }
    bool alg64() const { return hash == 64; }
    void enc(Call& c) {
        c.sized = A::encode_size(c.in.p, c.in.n);
        std::span<const unsigned char> m(c.in.p, c.in.n); std::string_view ms(cc(c.in.p), c.in.n);
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(mp::codec::encode<I>(c.in.p, c.in.n, c.out.p)); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(A::encode(cc(c.in.p), c.in.n, cm(c.out.p))); break;
        case 2: { std::vector<char> o; dirty(c, o); c.ret = LIB(mp::codec::encode<I>(m, o)); take(c, o); break; }
        case 3: { c.alloc_free_api = true; std::span<char> o(cm(c.out.p), c.out.n); c.ret = LIB(A::encode(ms, o)); break; }
        case 4: { auto o = LIB(mp::codec::encode<I>(ms)); take(c, o); c.ret = o.size(); break; }
        case 5: { auto o = LIB(A::template encode<std::string>(m)); take(c, o); c.ret = o.size(); break; }
        case 6: { UC o; dirty(c, o); c.ret = LIB(A::encode(m, o)); take(c, o); break; }
        case 7: c.alloc_free_api = true; c.ret = LIB(I::encode(cc(c.in.p), c.in.n, c.out.p)); break;
        case 9: c.alloc_free_api = true; c.ret = LIB(mp::codec::encode<I>((const signed char*)c.in.p, c.in.n, (signed char*)c.out.p)); break;
        case 10: { std::vector<signed char> o; dirty(c, o); std::span<const signed char> w((const signed char*)c.in.p, c.in.n); c.ret = LIB(mp::codec::encode<I>(w, o)); take(c, o); break; }
        default: { auto o = LIB(mp::codec::encode<I, std::string>(m)); take(c, o); c.ret = o.size(); break; }
        }
    }
    void dec(Call& c) {
        milo::error e; setstale(e, c.stale);
        c.sized = A::decode_size(c.in.p, c.in.n);
        std::span<const unsigned char> m(c.in.p, c.in.n); std::string_view ms(cc(c.in.p), c.in.n);
        switch (c.io) {
        case 0: c.alloc_free_api = true; c.ret = LIB(mp::codec::decode<I>(c.in.p, c.in.n, c.out.p, e)); geterr(c, e); break;
        case 1: c.alloc_free_api = true; c.ret = LIB(mp::codec::decode<I>(cc(c.in.p), c.in.n, cm(c.out.p), e)); geterr(c, e); break;
        case 2: { std::vector<unsigned char> o; dirty(c, o); c.ret = LIB(mp::codec::decode<I>(ms, o, e)); take(c, o); geterr(c, e); break; }
        case 3: c.alloc_free_api = true; c.ret = LIB(A::decode(cc(c.in.p), c.in.n, cm(c.out.p))); break;
        case 4: { auto o = LIB(mp::codec::decode<I>(ms)); take(c, o); c.ret = o.size(); break; }
        case 5: { auto o = LIB(mp::codec::decode<I, std::string>(m)); take(c, o); c.ret = o.size(); break; }
        case 6: { UC o; dirty(c, o); c.ret = LIB(A::decode(m, o, e)); take(c, o); geterr(c, e); break; }
        case 7: { c.alloc_free_api = true; std::span<char> o(cm(c.out.p), c.out.n); c.ret = LIB(A::decode(ms, o, e)); geterr(c, e); break; }
        case 8: { std::string o("stale"); dirty(c, o); c.ret = LIB(A::decode(ms, o)); take(c, o); break; }
        case 9: c.alloc_free_api = true; c.ret = LIB(I::decode(c.in.p, c.in.n, c.out.p, e)); geterr(c, e); break;
        case 10: c.alloc_free_api = true; c.ret = LIB(I::decode(cc(c.in.p), c.in.n, cm(c.out.p), e)); geterr(c, e); break;
        case 11: c.alloc_free_api = true; c.ret = LIB(mp::codec::decode<I>(cc(c.in.p), c.in.n, c.out.p)); break;
        case 12: { std::string o; dirty(c, o); c.ret = LIB(mp::codec::decode<I>(m, o)); take(c, o); break; }
        case 13: c.alloc_free_api = true; c.ret = LIB(mp::codec::decode<I>((const signed char*)c.in.p, c.in.n, (signed char*)c.out.p, e)); geterr(c, e); break;
        case 14: { std::vector<signed char> o; dirty(c, o); std::span<const signed char> w((const signed char*)c.in.p, c.in.n); c.ret = LIB(A::decode(w, o, e)); take(c, o); geterr(c, e); break; }
        case 15: { using namespace milo::literal; std::vector<unsigned char> o = alg64() ? LIB(operator""_base_64(cc(c.in.p), c.in.n)) : LIB(operator""_base_16(cc(c.in.p), c.in.n)); take(c, o); c.ret = o.size(); break; }
        default: { UC o; dirty(c, o); std::vector<char> v(cc(c.in.p), cc(c.in.p) + c.in.n); c.ret = LIB(mp::codec::decode<I>(v, o)); take(c, o); break; }
        }
    }
};
template <class I> void reg(const char* n, int h) { Alg* a = new Codec<I>; a->name = std::string("codec/") + n; a->kind = K_CODEC; a->hash = h; algs().push_back(a); }
}
void reg_codec() { reg<mp::codec_base_16>("base16", 16); reg<mp::codec_base_64>("base64", 64); }
