prop = 'C12'
needs = 'a listing of a folder that holds a long name whose table entry is missing, before other entries'
breaks = 'the listing ends at the first long name that cannot be resolved'
edits = [('sources/lite_format.cpp', '                    continue;\n                }\n                return true;\n            }\n        }\n        void rewind', '                    return false;\n                }\n                return true;\n            }\n        }\n        void rewind')]
demo = r"""
#include "demo_fs.h"
#include "lite_long_name_lookup_table.h"
static std::string base;
struct LV : Lite
{
    LV() : Lite(base + "/root")
    {
        ::mkdir(dir.c_str(), 0755);
        threshold = 20;
        suffix = ".long";
        start();
    }
};

int main(int, char** a)
{
    base = a[1];
    LV v;
    for (int i = 0; i < 12; ++i)
    {
        EXPECT(v.put("/" + std::to_string(i), "1") == 0);
        // a stored name that looks long but is in no table
        FILE* f = fopen((v.dir + "/" + std::string(40, 'a' + i) + ".long").c_str(), "w");
        fclose(f);
    }
    EXPECT(v.put("/" + std::string(60, 'x'), "1") == 0);
    auto l = v.ls("/");
    EXPECT(l.names.size() == 13);
}
"""
