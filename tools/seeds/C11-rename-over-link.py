prop = 'C11'
needs = 'a rename over a name whose file has another link'
breaks = 'the replaced file keeps its link count, so it is never removed'
edits = [('sources/full_format.cpp', '        auto holder = ft_->open_as(to_id, to_type);\n        FileLockGuard lg(*holder);\n        holder->unlink();', '        auto holder = ft_->open_as(to_id, to_type);\n        FileLockGuard lg(*holder);\n        if (holder->get_nlink() <= 1)\n            holder->unlink();')]
demo = r"""
#include "demo_fs.h"
int main()
{
    Full v;
    EXPECT(v.put("/a", "one") == 0);
    EXPECT(v.put("/b", "two") == 0);
    EXPECT(v.link("/b", "/c") == 0);
    EXPECT(v.rename("/a", "/b") == 0);
    fuse_stat st;
    EXPECT(v.stat("/c", &st) == 0 && st.st_nlink == 1);
    EXPECT(v.get("/b") == "one" && v.get("/c") == "two");
}
"""
