// Helpers of the natively run (bounded) harnesses.
#pragma once
#ifndef IRV
#include "irv.h"
#include "crypto.h"
#include "exceptions.h"
#include "mystring.h"
#include "streams.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
extern "C" void irv_fail(const char* why);
namespace nat
{
typedef std::vector<unsigned char> Bytes;
inline void check(bool c, const char* what)
{
    if (!c)
        irv_fail(what);
}
inline void check(bool c, const std::string& what)
{
    if (!c)
        irv_fail(what.c_str());
}
inline uint64_t rnd(uint64_t lo, uint64_t hi) { return lo + irv_rand(hi - lo + 1); }
inline Bytes bytes(uint64_t n)
{
    Bytes r(n);
    int style = irv_rand(5);
    for (auto& b : r)
        b = style == 0 ? 0 : style == 1 ? irv_rand(3) : irv_rand(256);
    return r;
}
// a sparse in-memory stream (the stream under the code under test)
struct MemStream : public securefs::StreamBase
{
    std::map<uint64_t, Bytes> pages;
    uint64_t sz = 0;
    bool sparse = true;
    uint64_t nwrites = 0, nflush = 0, nresize = 0;
    static const uint64_t PG = 4096;
    bool fail_writes = false;

    unsigned char get(uint64_t i) const
    {
        auto it = pages.find(i / PG);
        return it == pages.end() ? 0 : it->second[i % PG];
    }
    void put(uint64_t i, unsigned char c)
    {
        auto& p = pages[i / PG];
        if (p.empty())
            p.resize(PG);
        p[i % PG] = c;
    }
    Bytes range(uint64_t a, uint64_t n) const
    {
        Bytes r(n);
        for (uint64_t i = 0; i < n;)
        {
            uint64_t k = std::min(n - i, PG - (a + i) % PG);
            auto it = pages.find((a + i) / PG);
            if (it != pages.end())
                memcpy(r.data() + i, it->second.data() + (a + i) % PG, k);
            i += k;
        }
        return r;
    }
    Bytes all() const { return range(0, sz); }
    securefs::length_type read(void* out, securefs::offset_type off, securefs::length_type len) override
    {
        if (off >= sz)
            return 0;
        uint64_t n = std::min<uint64_t>(len, sz - off);
        for (uint64_t i = 0; i < n;)
        {
            uint64_t k = std::min(n - i, PG - (off + i) % PG);
            auto it = pages.find((off + i) / PG);
            if (it == pages.end())
                memset((unsigned char*)out + i, 0, k);
            else
                memcpy((unsigned char*)out + i, it->second.data() + (off + i) % PG, k);
            i += k;
        }
        return n;
    }
    void write(const void* in, securefs::offset_type off, securefs::length_type len) override
    {
        ++nwrites;
        if (fail_writes)
            securefs::throwVFSException(28);
        for (uint64_t i = 0; i < len; ++i)
            put(off + i, ((const unsigned char*)in)[i]);
        if (len && off + len > sz)
            sz = off + len;
    }
    securefs::length_type size() const override { return sz; }
    void flush() override { ++nflush; }
    void resize(securefs::length_type n) override
    {
        ++nresize;
        if (n < sz)
        {
            auto it = pages.lower_bound(n / PG);
            if (it != pages.end() && it->first == n / PG)
            {
                std::fill(it->second.begin() + n % PG, it->second.end(), 0);
                ++it;
            }
            pages.erase(it, pages.end());
        }
        sz = n;
    }
    bool is_sparse() const noexcept override { return sparse; }
};
// a reference byte array, sparse
struct Model
{
    std::map<uint64_t, unsigned char> d;
    uint64_t sz = 0;
    unsigned char get(uint64_t i) const
    {
        auto it = d.find(i);
        return it == d.end() ? 0 : it->second;
    }
    void write(const Bytes& b, uint64_t off)
    {
        for (uint64_t i = 0; i < b.size(); ++i)
            d[off + i] = b[i];
        if (!b.empty() && off + b.size() > sz)
            sz = off + b.size();
    }
    void resize(uint64_t n)
    {
        d.erase(d.lower_bound(n), d.end());
        sz = n;
    }
};
// reads through the stream and compares with the model
inline void compare(securefs::StreamBase& s, const Model& m, uint64_t off, uint64_t len, const char* what)
{
    Bytes b(len + 8, 0xA5);
    uint64_t n = s.read(b.data(), off, len);
    uint64_t want = off >= m.sz ? 0 : std::min<uint64_t>(len, m.sz - off);
    check(n == want, std::string(what) + ": number of bytes read");
    for (uint64_t i = 0; i < n; ++i)
        check(b[i] == m.get(off + i), std::string(what) + ": bytes read");
    for (int i = 0; i < 8; ++i)
        check(b[len + i] == 0xA5, std::string(what) + ": the buffer was overrun");
}
}    // namespace nat
// Overriding securefs::generate_random: hands out seeded bytes, sometimes zeros, and records what it gave.
namespace nat
{
struct Given
{
    const void* p;
    Bytes b;
};
inline std::deque<Given>& given()
{
    static std::deque<Given> g;
    return g;
}
inline int& zero_draws()
{
    static int z = 0;
    return z;
}
}    // namespace nat
#ifdef NAT_RANDOM
namespace securefs
{
void generate_random(void* p, size_t n)
{
    bool z = nat::zero_draws() > 0 && irv_rand(nat::zero_draws()) == 0;
    for (size_t i = 0; i < n; ++i)
        ((unsigned char*)p)[i] = z ? 0 : (unsigned char)irv_rand(256);
    nat::given().push_back({p, nat::Bytes((unsigned char*)p, (unsigned char*)p + n)});
    if (nat::given().size() > 4000)
        nat::given().pop_front();
}
}    // namespace securefs
#endif
#endif
