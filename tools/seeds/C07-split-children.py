prop = 'C07'
needs = 'a split of an inner node, then a removal below the new sibling'
breaks = 'the children that moved to the new node keep their old parent, so a later operation on them is refused as corruption'
edits = [('sources/btree_dir.cpp', 'slice(n->mutable_children(), sibling->mutable_children(), middle_index + 1);\n            adjust_children_in_cache(sibling);', 'slice(n->mutable_children(), sibling->mutable_children(), middle_index + 1);')]
demo = r"""
#include "demo_fs.h"
struct D
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<BtreeDirectory> t;
    std::map<std::string, int> want;
    void open()
    {
        if (t)
        {
            t->flush();
            t.reset();
        }
        t = p.make<BtreeDirectory>(id, d, m, Directory::DirNameComparison{&binary_compare});
    }
    void add(const std::string& n, int i)
    {
        EXPECT(t->add_entry(n, id_type(i), 1) == (want.count(n) == 0));
        want.emplace(n, i);
    }
    void del(const std::string& n)
    {
        id_type i;
        int type;
        EXPECT(t->remove_entry(n, i, type) == (want.erase(n) == 1));
    }
    void all()
    {
        std::map<std::string, int> got;
        size_t n = 0;
        t->iterate_over_entries([&](const std::string& name, const id_type& i, int) { got[name] = i.data()[0]; ++n; });
        EXPECT(n == want.size() && got == want);
        for (auto& w : want)
        {
            id_type i;
            int type;
            EXPECT(t->get_entry(w.first, i, type));
            EXPECT(i.data()[0] == w.second);
        }
    }
};
static std::string nm(int i) { return "name" + std::to_string(100000 + i); }

int main()
{
    D x;
    x.open();
    for (int i = 0; i < 600; ++i)
        x.add(nm(i), i % 250);
    x.all();
    for (int i = 599; i >= 0; i -= 2)
        x.del(nm(i));
    x.all();
    x.open();
    x.all();
}
"""
