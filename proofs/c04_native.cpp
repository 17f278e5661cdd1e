// C04, bounded part: sequences of operations against a plain byte array.
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
using namespace nat;
using namespace securefs;
static void sequence(std::shared_ptr<MemStream> u, Model m, uint64_t pad, std::function<std::shared_ptr<StreamBase>()> open)
{
    auto s = open();
    unsigned ops = irv_var("ops", 1, 12);
    static const uint64_t bases[] = {0, 0, 0, 1ull << 32, (1ull << 32) - 40, 1ull << 40};
    uint64_t base = u->sparse ? bases[irv_var("base", 0, 5)] : 0;
    Bytes padding = u->range(0, pad);
    for (unsigned k = 0; k < ops; ++k)
    {
        uint64_t off = (irv_var("near", 0, 3) ? base : 0) + irv_var("off", 0, 100), len = irv_var("len", 0, 60);
        switch (irv_var("op", 0, 4))
        {
        case 0:
        case 1:
        {
            Bytes d = bytes(len);
            s->write(d.data(), off, len);
            m.write(d, off);
            break;
        }
        case 2:
            s->resize(off);
            m.resize(off);
            break;
        case 3:
        {
            uint64_t f = u->nflush;
            s->flush();
            check(u->nflush == f + 1, "flush reaches the stream under it");
            check(u->sz == m.sz + pad, "after a flush the stream under it has the size");
            for (uint64_t i = 0; i < 200; ++i)
                check(u->get(pad + base + i) == (base + i < m.sz ? m.get(base + i) : 0), "after a flush the stream under it holds the bytes");
            break;
        }
        default:
            s.reset();
            check(u->sz == m.sz + pad, "after closing the stream under it has the size");
            for (uint64_t i = 0; i < 200; ++i)
                check(u->get(pad + base + i) == (base + i < m.sz ? m.get(base + i) : 0), "after closing the stream under it holds the bytes");
            s = open();
        }
        check(s->size() == m.sz, "size");
        check(s->is_sparse() == u->sparse, "sparseness");
        check(u->range(0, pad) == padding, "the padding is never changed");
        compare(*s, m, base + irv_var("roff", 0, 120), irv_var("rlen", 0, 120), "read");
        compare(*s, m, irv_var("roff2", 0, 120), irv_var("rlen2", 0, 120), "read");
    }
    irv_cover("compared");
}
BOUNDED(C04_padded_seq)
{
    auto u = std::make_shared<MemStream>();
    u->sparse = irv_var("sparse", 0, 1);
    unsigned pad = irv_var("padding", 0, irv_var("big", 0, 3) ? 40 : 5000);
    Model m;
    uint64_t have = irv_var("have", 0, 60);
    zero_draws() = 0;
    if (have)
    {
        Bytes d = bytes(have);
        u->write(d.data(), 0, have);
    }
    given().clear();
    Bytes before = u->range(0, have);
    PaddedStream probe(u, pad);
    check(probe.padding_size() == pad, "padding size");
    if (have < pad)
    {
        check(u->sz == pad && given().size() == 1 && given()[0].b == u->range(0, pad), "missing padding is drawn at random");
    }
    else
    {
        check(u->sz == have && u->range(0, have) == before && given().empty(), "padding that is there is left alone");
        m.write(Bytes(before.begin() + pad, before.end()), 0);
    }
    sequence(u, m, pad, [=] { return std::make_shared<PaddedStream>(u, pad); });
}
BOUNDED(C04_cached_seq)
{
    auto u = std::make_shared<MemStream>();
    u->sparse = irv_var("sparse", 0, 1);
    uint64_t cache = irv_var("cache", 0, 90), have = irv_var("have", 0, 60);
    Model m;
    Bytes d = bytes(have);
    u->write(d.data(), 0, have);
    m.write(d, 0);
    sequence(u, m, 0, [=] { return std::make_shared<WriteCachedStream>(u, cache); });
}
#endif
