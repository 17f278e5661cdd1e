prop = 'C12'
needs = 'a write of more than 128 KiB behind the start of a file'
breaks = 'only the first part is reported as written'
edits = [('sources/lite_format.cpp', '    fp->write(buf, offset, size);\n    return static_cast<int>(size);', '    fp->write(buf, offset, size);\n    return static_cast<int>(offset ? size : std::min<size_t>(size, 1u << 17));')]
demo = r"""
#include "demo_fs.h"
#include "lite_long_name_lookup_table.h"
static std::string base;
struct LV : Lite
{
    LV() : Lite(base + "/root")
    {
        ::mkdir(dir.c_str(), 0755);
        threshold = 20;
        suffix = ".long";
        start();
    }
};

int main(int, char** a)
{
    base = a[1];
    LV v;
    uint64_t fh;
    EXPECT(v.create("/a", &fh) == 0);
    std::string d(300000, 'd');
    EXPECT(v.write(fh, d, 0) == 300000);
    EXPECT(v.write(fh, d, 17) == 300000);
    EXPECT(v.close(fh) == 0);
}
"""
