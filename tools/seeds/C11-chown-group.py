prop = 'C11'
needs = 'a chown that changes the group only'
breaks = 'the group stays as it was'
edits = [('sources/full_format.cpp', '    if (gid != -1)\n        (**opened).set_gid(gid);', '    if (gid != -1 && uid != -1)\n        (**opened).set_gid(gid);')]
demo = r"""
#include "demo_fs.h"
int main()
{
    Full v;
    EXPECT(v.put("/a", "one") == 0);
    EXPECT(v.chown("/a", -1, 77) == 0);
    fuse_stat st;
    EXPECT(v.stat("/a", &st) == 0 && st.st_gid == 77 && st.st_uid == 1001);
}
"""
