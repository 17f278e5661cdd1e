// C04: padded and write-cached streams.
// irv: contract ^securefs::generate_random\( => c_random
#include "stream_spec.h"
#include "nolog.h"
#include "streams.cpp"
using namespace securefs;
using spec::SpecStream;
#ifdef IRV
static struct
{
    const uint8_t* p;
    uint64_t n;
    uint64_t x;
    uint8_t c;
} R;
extern "C" void c_random(void* p, size_t n)
{
    irv_havoc(p, n, "random");
    R.p = (const uint8_t*)p;
    R.n = n;
    if (R.x < n)
        R.c = R.p[R.x];
}
static std::shared_ptr<StreamBase> unowned(SpecStream* u) { return std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), u); }

PROOF(C04_padded)
{
    SpecStream u;
    u.sz = irv_var("stored_size", 0, 1ull << 43);
    u.sparse = irv_var("sparse", 0, 1);
    uint64_t sz = u.sz, pad = irv_var("padding", 0, 0xFFFFFFFFull), x = irv_var("x", 0, 1ull << 43);
    irv_focus(x);
    irv_focus(pad + x);
    R.p = nullptr;
    R.n = 0;
    R.x = x;
    uint8_t old = u.d[x];
    PaddedStream* s = new PaddedStream(unowned(&u), pad);
    irv_assert(u.resizes == 0, "opening resizes nothing");
    if (sz < pad)
    {
        irv_assert(u.sz == pad && u.writes == 1 && R.n == pad, "missing padding is drawn at random");
        if (x < pad)
            irv_assert(u.d[x] == R.c, "the padding is the random bytes");
    }
    else
        irv_assert(u.writes == 0 && u.d[x] == old, "padding that is there is left alone");
    u.writes = 0;
    uint64_t body = u.sz - pad;
    irv_assert(s->size() == body && s->padding_size() == pad, "size");
    irv_assert(s->is_sparse() == u.sparse, "sparseness");
    uint64_t off = irv_var("off", 0, 1ull << 43), len = irv_var("len", 0, 1ull << 43);
    uint8_t* p = (uint8_t*)irv_array("p", len);
    uint64_t n = s->read(p, off, len);
    irv_assert(n == (off >= body ? 0 : body - off < len ? body - off : len), "number of bytes read");
    if (x < n)
        irv_assert(p[x] == u.d[pad + off + x], "bytes read");
    irv_assert(!u.writes && !u.resizes, "reading changes nothing");
    switch (irv_concretize(irv_var("op", 0, 2)))
    {
    case 0:
        s->resize(len);
        irv_assert(u.sz == len + pad && u.resizes == 1 && u.writes == 0, "resized, padding kept");
        irv_assert(s->size() == len, "size after resize");
        irv_cover("resized");
        break;
    case 1:
        s->write(p, off, len);
        irv_assert(u.writes == 1 && u.w_off == off + pad && u.w_len == len && !u.resizes, "written at its place, and nothing else");
        if (x < len)
            irv_assert(u.d[pad + off + x] == p[x], "bytes written");
        irv_cover("written");
        break;
    default:
        s->flush();
        irv_assert(u.flushes == 1 && !u.writes, "flush reaches the stream under it");
        irv_cover("flushed");
    }
}

// every operation from a state in which nothing is cached has the effect of the same operation on the stream under it
// and leaves nothing cached: by induction this holds for every sequence
PROOF(C04_write_cached)
{
    SpecStream u;
    u.sz = irv_var("stored_size", 0, 1ull << 43);
    u.sparse = irv_var("sparse", 0, 1);
    uint64_t sz = u.sz, cache = irv_var("cache", 0, 1ull << 40), x = irv_var("x", 0, 1ull << 43);
    irv_focus(x);
    WriteCachedStream* s = new WriteCachedStream(unowned(&u), cache);
    irv_assert(s->cached_length_ == 0, "nothing is cached at first");
    irv_assert(!u.writes && !u.resizes, "opening changes nothing");
    irv_assert(s->size() == sz, "size");
    irv_assert(s->is_sparse() == u.sparse, "sparseness");
    uint64_t off = irv_var("off", 0, 1ull << 43), len = irv_var("len", 0, 1ull << 43);
    uint8_t* p = (uint8_t*)irv_array("p", len);
    uint64_t n = s->read(p, off, len);
    irv_assert(n == (off >= sz ? 0 : sz - off < len ? sz - off : len), "number of bytes read");
    if (x < n)
        irv_assert(p[x] == u.d[off + x], "bytes read");
    irv_assert(s->cached_length_ == 0 && !u.writes && !u.resizes, "reading changes nothing");
    switch (irv_concretize(irv_var("op", 0, 3)))
    {
    case 0:
        s->resize(len);
        irv_assert(u.sz == len && u.resizes == 1 && !u.writes, "resized");
        irv_assert(s->size() == len, "size after resize");
        irv_cover("resized");
        break;
    case 1:
        s->write(p, off, len);
        irv_assert(u.writes == 1 && u.w_off == off && u.w_len == len && !u.resizes, "written at its place, and nothing else");
        if (x < len)
            irv_assert(u.d[off + x] == p[x], "bytes written");
        irv_assert(s->size() == u.sz, "size after a write");
        irv_cover("written");
        break;
    case 2:
        s->flush();
        irv_assert(u.flushes == 1 && !u.writes, "flush reaches the stream under it");
        irv_cover("flushed");
        break;
    default:
        s->~WriteCachedStream();
        irv_assert(!u.writes && !u.resizes, "closing writes nothing when nothing is cached");
        irv_cover("closed");
        return;
    }
    irv_assert(s->cached_length_ == 0, "nothing stays cached");
}
#endif
