prop = 'C12'
needs = 'a rename between two long names'
breaks = 'the table entry of the old long name stays, so its name is still known after it is gone'
edits = [('sources/lite_format.cpp', '    if (!encrypted_last_component_from.empty())\n    {\n        table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));', '    if (!encrypted_last_component_from.empty() && encrypted_last_component_to.empty())\n    {\n        table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));')]
demo = r"""
#include "demo_fs.h"
#include "lite_long_name_lookup_table.h"
static std::string base;
struct LV : Lite
{
    LV() : Lite(base + "/root")
    {
        ::mkdir(dir.c_str(), 0755);
        threshold = 20;
        suffix = ".long";
        start();
    }
};

int main(int, char** a)
{
    base = a[1];
    LV v;
    std::string x = "/" + std::string(60, 'x'), y = "/" + std::string(61, 'y');
    EXPECT(v.put(x, "1") == 0);
    auto h = v.nt->get_last_component(v.nt->encrypt_full_path(x, nullptr));
    EXPECT(v.rename(x, y) == 0);
    EXPECT(v.get(y) == "1");
    auto l = v.ls("/");
    EXPECT(l.names.size() == 1 && *l.names.begin() == y.substr(1));
    LongNameLookupTable t(v.dir + "/.long_names.db", true);
    t.lock();
    auto all = t.list_hashes();
    t.unlock();
    EXPECT(all.size() == 1 && all[0] != h);
}
"""
