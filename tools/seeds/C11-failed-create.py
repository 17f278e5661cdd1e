prop = 'C11'
needs = 'a create of a name that exists'
breaks = 'the storage of the file that could not be added is left behind'
edits = [('sources/full_format.cpp', '    if (!success)\n    {\n        FileLockGuard lg(*holder);\n        holder->unlink();\n        throwVFSException(EEXIST);', '    if (!success)\n    {\n        throwVFSException(EEXIST);')]
demo = r"""
#include "demo_fs.h"
int main()
{
    Full v;
    EXPECT(v.put("/a", "one") == 0);
    v.reopen();
    auto n = v.io->all.size();
    uint64_t fh;
    EXPECT(v.create("/a", &fh) == -EEXIST);
    EXPECT(v.mkdir("/a") == -EEXIST);
    v.reopen();
    EXPECT(v.io->all.size() == n);
    EXPECT(v.get("/a") == "one");
}
"""
