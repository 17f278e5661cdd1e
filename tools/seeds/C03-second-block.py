prop = 'C03'
needs = 'one read that covers several blocks, a later one of which was altered'
breaks = 'only the first block of a read is verified'
edits = [('sources/streams.cpp', 'if (!success & m_check)', 'if (!success & m_check & (i == 0))')]
demo = r"""
#include "demo_util.h"
struct Env
{
    std::shared_ptr<Mem> d = std::make_shared<Mem>(), m = std::make_shared<Mem>();
    std::shared_ptr<StreamBase> s;
    std::shared_ptr<HeaderBase> h;
    void open(int id)
    {
        auto p = make_cryptstream_aes_gcm(d, m, key_type(1), key_type(2), id_type(id), true, 512, 12, 32);
        s = p.first;
        h = p.second;
    }
};

int main()
{
    Env e;
    e.open(3);
    std::vector<byte> a(2048, 9), o(2048);
    e.s->write(a.data(), 0, a.size());
    e.s->flush();
    e.d->put(1500, e.d->get(1500) ^ 1);
    e.open(3);
    bool refused = false;
    try { e.s->read(o.data(), 0, 2048); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
