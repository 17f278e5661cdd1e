prop = 'C07'
needs = 'a removal of an entry of the root of a tree of three levels'
breaks = 'the entry put in its place is taken from an inner page instead of a leaf'
edits = [('sources/btree_dir.cpp', 'while (!lchild->is_leaf())\n            lchild = retrieve_node(lchild->page_number(), lchild->children().back());', 'if (!lchild->is_leaf() && n->parent_page_number() != INVALID_PAGE)\n            lchild = retrieve_node(lchild->page_number(), lchild->children().back());')]
demo = r"""
#include "demo_fs.h"
struct D
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<BtreeDirectory> t;
    std::map<std::string, int> want;
    void open()
    {
        if (t)
        {
            t->flush();
            t.reset();
        }
        t = p.make<BtreeDirectory>(id, d, m, Directory::DirNameComparison{&binary_compare});
    }
    void add(const std::string& n, int i)
    {
        EXPECT(t->add_entry(n, id_type(i), 1) == (want.count(n) == 0));
        want.emplace(n, i);
    }
    void del(const std::string& n)
    {
        id_type i;
        int type;
        EXPECT(t->remove_entry(n, i, type) == (want.erase(n) == 1));
    }
    void all()
    {
        std::map<std::string, int> got;
        size_t n = 0;
        t->iterate_over_entries([&](const std::string& name, const id_type& i, int) { got[name] = i.data()[0]; ++n; });
        EXPECT(n == want.size() && got == want);
        for (auto& w : want)
        {
            id_type i;
            int type;
            EXPECT(t->get_entry(w.first, i, type));
            EXPECT(i.data()[0] == w.second);
        }
    }
};
static std::string nm(int i) { return "name" + std::to_string(100000 + i); }

int main()
{
    for (int first = 0; first < 500; ++first)
    {
        D x;
        x.open();
        for (int i = 0; i < 500; ++i)
            x.add(nm(i), i % 250);
        x.del(nm(first));
        x.all();
    }
}
"""
