// Small helpers of the demonstrations.
#pragma once
#include "crypto.h"
#include "exceptions.h"
#include "myutils.h"
#include "streams.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace securefs;
#define EXPECT(c)                                                          \
    do                                                                     \
    {                                                                      \
        if (!(c))                                                          \
        {                                                                  \
            std::printf("demo.cpp:%d: not true: %s\n", __LINE__, #c);      \
            std::exit(1);                                                  \
        }                                                                  \
    } while (0)
struct Mem : StreamBase
{
    std::map<uint64_t, std::vector<byte>> pages;
    uint64_t sz = 0;
    bool sparse_ = true;
    byte get(uint64_t i) const
    {
        auto it = pages.find(i / 4096);
        return it == pages.end() ? 0 : it->second[i % 4096];
    }
    void put(uint64_t i, byte c)
    {
        auto& p = pages[i / 4096];
        p.resize(4096);
        p[i % 4096] = c;
    }
    length_type read(void* out, offset_type off, length_type len) override
    {
        uint64_t n = off >= sz ? 0 : std::min<uint64_t>(len, sz - off);
        for (uint64_t i = 0; i < n; ++i)
            ((byte*)out)[i] = get(off + i);
        return n;
    }
    void write(const void* in, offset_type off, length_type len) override
    {
        for (uint64_t i = 0; i < len; ++i)
            put(off + i, ((const byte*)in)[i]);
        if (len && off + len > sz)
            sz = off + len;
    }
    length_type size() const override { return sz; }
    void flush() override {}
    void resize(length_type n) override
    {
        for (uint64_t i = n; i < sz && pages.count(i / 4096); ++i)
            put(i, 0);
        pages.erase(pages.upper_bound(n / 4096), pages.end());
        sz = n;
    }
    bool is_sparse() const noexcept override { return sparse_; }
};
