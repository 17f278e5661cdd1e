prop = 'C03'
needs = 'the stored metadata of one file put in place of another one'
breaks = 'the metadata of a file opens under any file id'
edits = [('sources/streams.cpp', '            calculator.Update(id().data(), id().size());\n            std::array', '            std::array')]
demo = r"""
#include "demo_util.h"
struct Env
{
    std::shared_ptr<Mem> d = std::make_shared<Mem>(), m = std::make_shared<Mem>();
    std::shared_ptr<StreamBase> s;
    std::shared_ptr<HeaderBase> h;
    void open(int id)
    {
        auto p = make_cryptstream_aes_gcm(d, m, key_type(1), key_type(2), id_type(id), true, 512, 12, 32);
        s = p.first;
        h = p.second;
    }
};

int main()
{
    Env e;
    e.open(3);
    std::vector<byte> a(2048, 9);
    e.s->write(a.data(), 0, a.size());
    e.s->flush();
    e.open(3);
    bool refused = false;
    try { e.open(4); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
