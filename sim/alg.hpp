// Type-erased adaptors around the real library types.  All calls into the
// library go through LIB(...), which opens the simulator's window (allocation
// accounting / faults, single-step scheduling) for exactly that expression.
#pragma once
#include <array>
#include <memory>
#include <new>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include "core.hpp"

void win_begin();
void win_end();
struct Win { Win() { win_begin(); } ~Win() { win_end(); } };
#define LIB(...) ([&]() -> decltype(auto) { Win w_; return __VA_ARGS__; }())

enum Kind { K_HASH, K_HMAC, K_POLY, K_CIPHER, K_AEAD, K_HKDF, K_PBKDF2, K_CODEC };
enum OpCode { O_CTOR, O_CTOR_INIT, O_COPY, O_MOVE, O_ASSIGN, O_MASSIGN, O_SWAP, O_DTOR, O_INIT, O_ABSORB, O_CRYPT, O_AADOVER, O_FINALIZE, O_DIGEST, O_DERIVE, O_VERIFY, O_ONESHOT, O_OPEN, O_ENC, O_DEC, O_SIZES };
enum Threw { T_NONE, T_MILO, T_BADALLOC, T_USER, T_OTHER };

struct UserFail { int tag; };            // the exception of the user's own container
extern thread_local int g_user_fail_in;   // fail the k-th growth of a user container (0 = never)
extern thread_local u64 g_user_growths;

// A user-defined resizable container, not derived from anything in std.
struct UC {
    using value_type = unsigned char;
    UC() noexcept {}
    UC(const UC& o) { resize(o.n_, 0); if (n_) memcpy(p_, o.p_, n_); }
    UC(UC&& o) noexcept : p_(o.p_), n_(o.n_) { o.p_ = nullptr; o.n_ = 0; }
    ~UC() { ::free(p_); }
    UC& operator=(const UC&) = delete;
    unsigned char* data() noexcept { return p_; }
    const unsigned char* data() const noexcept { return p_; }
    size_t size() const noexcept { return n_; }
    void reserve(int) {}
    void resize(size_t n, unsigned char v) {
        if (n > n_) { g_user_growths++; if (g_user_fail_in && --g_user_fail_in == 0) throw UserFail{77}; }
        unsigned char* q = (unsigned char*)::malloc(n ? n : 1); if (n && n_) memcpy(q, p_, n < n_ ? n : n_);
        if (n > n_) memset(q + n_, v, n - n_);
        ::free(p_); p_ = q; n_ = n;
    }
private:
    unsigned char* p_ = nullptr; size_t n_ = 0;
};
// A user-defined view.
struct UV {
    using value_type = char; const char* p = nullptr; size_t n = 0;
    const char* data() const noexcept { return p; }
    size_t size() const noexcept { return n; }
};
struct Buf { u8* p; size_t n; };
struct In { const u8* p = nullptr; size_t n = 0; };

struct Call {
    int op = 0; void* self = nullptr; void* other = nullptr;
    In in, key, iv, info, tag; u32 iters = 1;
    Buf out{nullptr, 0};          // pointer/view outputs: p = destination, n = capacity
    Buf out2{nullptr, 0};         // digest of one-call interfaces
    size_t req = 0;               // requested output size (digest/derive)
    int ii = 0, io = 0;           // input / output interface selectors
    bool dec = false;
    int stale = 0;                // initial value of an error parameter
    size_t pre = 0;               // stale bytes a growable output container already holds
    // results
    size_t ret = 0, ret2 = 0; bytes got, got2; bool used_got = false, used_got2 = false;
    int threw = T_NONE, err = 0; bool has_err = false;
    u64 allocs = 0; bool alloc_free_api = false; bool grew = false;
    size_t sized = 0;             // encode_size/decode_size/encrypt_size
    size_t cont_size = 0;         // size of the container after the call
};

struct Alg {
    std::string name; int kind = 0, hash = -1; bool apie = false; int need = 0; // need: ISA bits an enforced backend requires
    size_t size = 0, align = 0, digest = 0;
    virtual void exec(Call&) = 0;
    virtual ~Alg() {}
};
std::vector<Alg*>& algs();            // registry, in registration order
const std::vector<std::string>& alg_errors();

enum { NEED_SHA = 1, NEED_SSSE3 = 2, NEED_AVX2 = 4 };

inline const char* cc(const u8* p) { return (const char*)p; }
inline char* cm(u8* p) { return (char*)p; }

// Input as one of many container types.
constexpr int NENC = 12, NDEC = 17; // interfaces of the codecs
constexpr int NIN = 8; // 0/1 pointer interfaces, 2.. containers
template <class F> inline auto with_in(const In& i, int k, F f) {
    switch (k) {
    case 2: return f(std::string_view(cc(i.p), i.n));
    case 3: return f(std::span<const unsigned char>(i.p, i.n));
    case 4: { std::vector<unsigned char> v(i.p, i.p + i.n); return f(v); }
    case 5: { std::string s(cc(i.p), i.n); return f(s); }
    case 6: { UV v{cc(i.p), i.n}; return f(v); }
    default:
        if (i.n == 16) { std::array<unsigned char, 16> a; memcpy(a.data(), i.p, 16); return f(a); }
        if (i.n == 64) { std::array<char, 64> a; memcpy(a.data(), i.p, 64); return f(a); }
        return f(std::span<char>(const_cast<char*>(cc(i.p)), i.n));
    }
}
// Two inputs with different container types (keys, ivs).
template <class F> inline void with_in2(const In& a, const In& b, int k, F f) {
    switch (k % 5) {
    case 2: return f(std::span<const unsigned char>(a.p, a.n), std::string_view(cc(b.p), b.n));
    case 3: { std::vector<unsigned char> v(a.p, a.p + a.n); UV w{cc(b.p), b.n}; return f(v, w); }
    case 4: { std::string v(cc(a.p), a.n); std::vector<char> w(cc(b.p), cc(b.p) + b.n); return f(v, w); }
    default:
        if (a.n == 32 && b.n == 12) { std::array<char, 32> x; memcpy(x.data(), a.p, 32); std::array<unsigned char, 12> y; memcpy(y.data(), b.p, 12); return f(x, y); }
        if (a.n == 32 && b.n == 16) { std::array<unsigned char, 32> x; memcpy(x.data(), a.p, 32); std::array<char, 16> y; memcpy(y.data(), b.p, 16); return f(x, y); }
        return f(UV{cc(a.p), a.n}, std::span<const char>(cc(b.p), b.n));
    }
}
inline size_t stale_size(u64 h, size_t want) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; if (want > 5000) want = 5000; switch (h % 7) { case 0: return 1 + h / 7 % 9; case 1: return want; case 2: return want + 1; case 3: return want ? want - 1 : 0; case 4: return h / 7 % 400; default: return 0; } }
// The caller's container still holds something from before.
template <class C> inline void dirty(const Call& c, C& o) { if (!c.pre) return; u64 g = g_user_growths; int f = g_user_fail_in; g_user_fail_in = 0; o.resize(c.pre, 0x5A); g_user_growths = g; g_user_fail_in = f; }
template <class C> inline void take(Call& c, const C& r) { c.got.assign((const u8*)r.data(), (const u8*)r.data() + r.size()); c.used_got = true; c.cont_size = r.size(); }
template <class C> inline void take2(Call& c, const C& r) { c.got2.assign((const u8*)r.data(), (const u8*)r.data() + r.size()); c.used_got2 = true; }

// Life-cycle operations common to all instance types.
template <class T> inline bool life(Call& c) {
    switch (c.op) {
    case O_CTOR: LIB((void)new (c.self) T); return true;
    case O_COPY: LIB((void)new (c.self) T(*(const T*)c.other)); return true;
    case O_MOVE: LIB((void)new (c.self) T(std::move(*(T*)c.other))); return true;
    case O_ASSIGN: LIB((void)(*(T*)c.self = *(const T*)c.other)); return true;
    case O_MASSIGN: LIB((void)(*(T*)c.self = std::move(*(T*)c.other))); return true;
    case O_SWAP: LIB((void)std::swap(*(T*)c.self, *(T*)c.other)); return true;
    case O_DTOR: LIB((void)((T*)c.self)->~T()); return true;
    }
    return false;
}
template <class T> inline void fill(Alg* a) { a->size = sizeof(T); a->align = alignof(T); }

#define MILO_CATCH(c) \
    catch (const milo::error& e) { c.threw = T_MILO; c.err = int(milo::error::code(e)); } \
    catch (const std::bad_alloc&) { c.threw = T_BADALLOC; } \
    catch (const UserFail& u) { c.threw = u.tag == 77 ? T_USER : T_OTHER; } \
    catch (...) { c.threw = T_OTHER; }
