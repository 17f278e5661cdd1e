// The contract of StreamBase over a ghost byte array (natively: a fixed buffer).
#pragma once
#include "irv.h"
#include "streams.h"
namespace spec
{
static const uint64_t STREAM_CAP = IRV_CAP(1ull << 45, 1 << 17);

struct SpecStream : public securefs::StreamBase
{
    uint8_t* d;
    uint64_t sz = 0;
    bool sparse = false;
    uint64_t flushes = 0, resizes = 0, writes = 0;
    uint64_t w_off = 0, w_len = 0, last_rc = 0, last_off = 0, last_len = 0;
    const uint8_t* last_out = nullptr;

    SpecStream() : d((uint8_t*)irv_array("stored", STREAM_CAP)) {}
    securefs::length_type read(void* out, securefs::offset_type off, securefs::length_type len) override
    {
        uint64_t n = off >= sz ? 0 : sz - off < len ? sz - off : len;
#ifdef IRV
        uint64_t rc = irv_var("rc", 0, STREAM_CAP);
        irv_assume(rc == n);
        n = last_rc = rc;
#endif
        memcpy(out, d + off, n);
        last_off = off;
        last_len = len;
        last_out = (const uint8_t*)out;
        return n;
    }
    void write(const void* in, securefs::offset_type off, securefs::length_type len) override
    {
        irv_assume(off < STREAM_CAP / 2 && len < STREAM_CAP / 2);
        if (off > sz)
            memset(d + sz, 0, off - sz);
        memcpy(d + off, in, len);
        if (off + len > sz)
            sz = off + len;
        ++writes;
        w_off = off;
        w_len = len;
    }
    securefs::length_type size() const override { return sz; }
    void flush() override { ++flushes; }
    void resize(securefs::length_type n) override
    {
        irv_assume(n < STREAM_CAP);
        if (n > sz)
            memset(d + sz, 0, n - sz);
        sz = n;
        ++resizes;
    }
    bool is_sparse() const noexcept override { return sparse; }
};
}    // namespace spec
