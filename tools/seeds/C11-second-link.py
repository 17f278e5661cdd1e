prop = 'C11'
needs = 'a third link to a file'
breaks = 'the link count of a file stops at three whatever the number of its links'
edits = [('sources/full_format.cpp', '(**opened).set_nlink((**opened).get_nlink() + 1);', '(**opened).set_nlink(std::min<uint32_t>((**opened).get_nlink() + 1, 3));')]
demo = r"""
#include "demo_fs.h"
int main()
{
    Full v;
    EXPECT(v.put("/a", "hello") == 0);
    for (std::string n : {"/b", "/c", "/d", "/e"})
        EXPECT(v.link("/a", n) == 0);
    fuse_stat st;
    EXPECT(v.stat("/e", &st) == 0 && st.st_nlink == 5);
    for (std::string n : {"/b", "/c", "/d", "/a"})
        EXPECT(v.unlink(n) == 0);
    v.reopen();
    EXPECT(v.get("/e") == "hello");
}
"""
