prop = 'C07'
needs = 'the removal of the last entry of a directory, then a reopening'
breaks = 'a page that became empty is not written, so the removed entry is back'
edits = [('sources/btree_dir.cpp', '    for (auto&& pair : m_node_cache)\n    {\n        auto&& n = *pair.second;\n        if (n.is_dirty())\n        {\n            write_node(n.page_number(), n);\n            n.clear_dirty();\n        }\n    }', '    for (auto&& pair : m_node_cache)\n    {\n        auto&& n = *pair.second;\n        if (n.is_dirty())\n        {\n            n.clear_dirty();\n            if (!n.entries().empty())\n                write_node(n.page_number(), n);\n        }\n    }')]
demo = r"""
#include "demo_fs.h"
struct D
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<BtreeDirectory> t;
    std::map<std::string, int> want;
    void open()
    {
        if (t)
        {
            t->flush();
            t.reset();
        }
        t = p.make<BtreeDirectory>(id, d, m, Directory::DirNameComparison{&binary_compare});
    }
    void add(const std::string& n, int i)
    {
        EXPECT(t->add_entry(n, id_type(i), 1) == (want.count(n) == 0));
        want.emplace(n, i);
    }
    void del(const std::string& n)
    {
        id_type i;
        int type;
        EXPECT(t->remove_entry(n, i, type) == (want.erase(n) == 1));
    }
    void all()
    {
        std::map<std::string, int> got;
        size_t n = 0;
        t->iterate_over_entries([&](const std::string& name, const id_type& i, int) { got[name] = i.data()[0]; ++n; });
        EXPECT(n == want.size() && got == want);
        for (auto& w : want)
        {
            id_type i;
            int type;
            EXPECT(t->get_entry(w.first, i, type));
            EXPECT(i.data()[0] == w.second);
        }
    }
};
static std::string nm(int i) { return "name" + std::to_string(100000 + i); }

int main()
{
    D x;
    x.open();
    x.add("only", 7);
    x.open();
    x.all();
    x.del("only");
    x.all();
    x.open();
    x.all();
    EXPECT(x.t->empty());
}
"""
