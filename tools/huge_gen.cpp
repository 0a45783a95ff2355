// Writes sim/huge_mid.inc: states of the reference models inside very long
// streams, so that a check need not run the (slow) reference over gigabytes.
//   g++ -std=c++20 -O3 -I../sim huge_gen.cpp -o /tmp/huge_gen -pthread && /tmp/huge_gen > ../sim/huge_mid.inc
#include <thread>
#include "huge.hpp"
int main() {
    std::vector<std::string> out(15); std::vector<std::thread> t; const bytes& p = hpat();
    auto put = [&](int slot, int what, int h, u64 pos, const u64* v) { std::string s = fmt("{%d,%d,%lluULL,{", what, h, (unsigned long long)pos); for (int i = 0; i < 8; i++) s += fmt("0x%llxULL%s", (unsigned long long)v[i], i < 7 ? "," : "}},\n"); out[size_t(slot)] += s; };
    for (int h = 0; h < 7; h++) {
        t.emplace_back([&, h] { ref::Hash x(h); u64 pos = 0; for (u64 m : HMARK) { for (; pos < m; pos += HP) x.update(p.data(), HP); u64 v[8]; x.save(v); put(h, 0, h, pos, v); } });
        t.emplace_back([&, h] { bytes k = hkey(); ref::Hmac x(h, k.data(), k.size()); u64 pos = 0; for (u64 m : HMARK) { for (; pos < m; pos += HP) x.update(p.data(), HP); u64 v[8]; x.inner().save(v); put(7 + h, 1, h, pos, v); } });
    }
    t.emplace_back([&] { auto k = ref::aead_keys(akey().data(), aiv().data()); ref::Poly x(k.otk); bytes a = aaad(), z(16), c(HP); x.update(a.data(), a.size()); x.update(z.data(), (16 - a.size() % 16) % 16); ref::Chacha s(akey().data(), k.iv1); u64 pos = 0;
        for (u64 m : HMARK) { for (; pos < m; pos += HP) { s.xor_(p.data(), c.data(), HP); x.update(c.data(), HP); } u64 v[8]; x.save(v); put(14, 2, 0, pos, v); } });
    for (auto& x : t) x.join();
    for (auto& s : out) fputs(s.c_str(), stdout);
}
