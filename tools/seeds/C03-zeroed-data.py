prop = 'C03'
needs = 'the stored data of a whole block set to zero by someone, its nonce and tag left as they are'
breaks = 'a block wiped to zeros is returned as zeros instead of being refused'
edits = [('sources/streams.cpp', 'if (is_all_zeros(meta_buffer, get_meta_size())\n                    && is_all_zeros(data_buffer, this_block_size))', 'if (is_all_zeros(data_buffer, this_block_size))')]
demo = r"""
#include "demo_util.h"
struct Env
{
    std::shared_ptr<Mem> d = std::make_shared<Mem>(), m = std::make_shared<Mem>();
    std::shared_ptr<StreamBase> s;
    std::shared_ptr<HeaderBase> h;
    void open(int id)
    {
        auto p = make_cryptstream_aes_gcm(d, m, key_type(1), key_type(2), id_type(id), true, 512, 12, 32);
        s = p.first;
        h = p.second;
    }
};

int main()
{
    Env e;
    e.open(3);
    std::vector<byte> a(1024, 9), o(1024);
    e.s->write(a.data(), 0, a.size());
    e.s->flush();
    for (int i = 512; i < 1024; ++i)
        e.d->put(i, 0);
    e.open(3);
    EXPECT(e.s->read(o.data(), 0, 512) == 512);
    bool refused = false;
    try { e.s->read(o.data(), 512, 512); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
