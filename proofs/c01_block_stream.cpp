// C01: a block based stream behaves as a POSIX byte array.
#include "irv.h"
#include "streams.cpp"
using namespace securefs;

static const uint64_t CAP = IRV_CAP(1ull << 44, 4096);

// The contract of read_multi_blocks / write_multi_blocks / adjust_logical_size over a ghost byte array.
struct SpecBlocks final : public BlockBasedStream
{
    uint8_t* d;
    uint64_t sz;
    bool sparse;
    bool cut = false;          // the last block was rewritten shorter than the stream
    uint64_t cut_at = 0;
    explicit SpecBlocks(uint64_t bs) : BlockBasedStream(bs) {}

    length_type read_multi_blocks(offset_type s, offset_type e, void* out) override
    {
        irv_assert(s <= e, "read_multi_blocks: start <= end");
        uint64_t from = s * m_block_size, want = (e - s) * m_block_size;
        if (from >= sz || want == 0)
            return 0;
        uint64_t n = sz - from < want ? sz - from : want;
        if (irv_var("clears_tail", 0, 1))
            memset(out, 0, want);
        memcpy(out, d + from, n);
        return n;
    }
    void write_multi_blocks(offset_type s, offset_type e, offset_type r, const void* in) override
    {
        uint64_t from = s * m_block_size, to = e * m_block_size + r;
        irv_assert(s <= e && r <= m_block_size, "write_multi_blocks: block range");
        irv_assert(from <= sz, "write_multi_blocks: no gap before the written blocks");
        // a partial last block of the stream may not be followed by anything
        irv_assert(!(sz % m_block_size != 0 && s > sz / m_block_size), "write_multi_blocks: short block stays last");
        memcpy(d + from, in, to - from);
        if (r > 0 && r < m_block_size && to < sz)
            cut = true, cut_at = to;
        else if (to > sz)
            sz = to;
    }
    void adjust_logical_size(length_type n) override
    {
        if (n > sz)
        {
            irv_assert(sz % m_block_size == 0, "adjust_logical_size: grows from a whole number of blocks");
            irv_assert(sparse, "adjust_logical_size: only a sparse stream grows by a hole");
            memset(d + sz, 0, n - sz);
        }
        else if (n < sz)
            irv_assert(n % m_block_size == 0 || (cut && cut_at == n), "adjust_logical_size: last block was rewritten");
        sz = n;
        cut = false;
    }
    void flush() override {}
    length_type size() const override { return sz; }
    bool is_sparse() const noexcept override { return sparse; }
};

static uint64_t block_size() { return irv_len("block_size", 1, 1ull << 24, 64); }

PROOF(C01_read)
{
    SpecBlocks b(block_size());
    b.d = (uint8_t*)irv_array("data", CAP);
    b.sz = irv_len("size", 0, 1ull << 42, 300);
    b.sparse = irv_var("sparse", 0, 1);
    uint64_t off = irv_len("off", 0, 1ull << 42, 400), len = irv_len("len", 0, 1ull << 40, 300);
    uint8_t* out = (uint8_t*)irv_array("out", len);
    uint64_t sz = b.sz;
    uint64_t r = b.read(out, off, len);
    uint64_t want = off >= sz ? 0 : (sz - off < len ? sz - off : len);
    irv_assert(r == want, "read returns min(len, size - off)");
    irv_assert(b.sz == sz, "read leaves the size alone");
    FORALL(k, r)
    irv_assert(out[k] == b.d[off + k], "read yields the bytes of the stream");
    irv_cover("bytes were read");
}

PROOF(C01_write)
{
    SpecBlocks b(block_size());
    b.d = (uint8_t*)irv_array("data", CAP);
    b.sz = irv_len("size", 0, 1ull << 42, 300);
    b.sparse = irv_var("sparse", 0, 1);
    uint64_t off = irv_len("off", 0, 1ull << 42, 400), len = irv_len("len", 0, 1ull << 40, 300);
    uint8_t* in = (uint8_t*)irv_array("in", len);
    uint64_t sz = b.sz;
    uint8_t* before = irv_dup(b.d, CAP);
    b.write(in, off, len);
    uint64_t want = len == 0 ? sz : (off + len > sz ? off + len : sz);
    irv_assert(b.sz == want, "write extends the size exactly when needed");
    irv_assert(!b.cut, "write leaves no truncated block");
    FORALL(k, want)
    {
        uint8_t exp = (k >= off && k < off + len) ? in[k - off] : (k < sz ? before[k] : 0);
        irv_assert(b.d[k] == exp, "written bytes, kept bytes and the zero filled gap");
    }
    irv_cover("bytes were written");
}

PROOF(C01_resize)
{
    SpecBlocks b(block_size());
    b.d = (uint8_t*)irv_array("data", CAP);
    b.sz = irv_len("size", 0, 1ull << 42, 300);
    b.sparse = irv_var("sparse", 0, 1);
    uint64_t n = irv_len("new_size", 0, 1ull << 42, 300);
    uint64_t sz = b.sz;
    uint8_t* before = irv_dup(b.d, CAP);
    b.resize(n);
    irv_assert(b.sz == n, "resize sets the size");
    irv_assert(!b.cut, "resize leaves no truncated block");
    FORALL(k, n)
    irv_assert(b.d[k] == (k < sz ? before[k] : 0), "resize keeps the prefix and zero fills the rest");
    irv_cover("bytes remain");
}
