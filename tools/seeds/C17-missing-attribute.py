prop = 'C17'
needs = 'a getxattr whose implementation raises ENODATA'
breaks = 'a missing attribute is reported as an empty one'
edits = [('sources/fuse_high_level_ops_base.cpp', '                if (err == ENODATA)\n                {\n                    return -err;', '                if (err == ENODATA)\n                {\n                    return 0;')]
demo = r"""
#include "demo_fs.h"
#include "fuse_high_level_ops_base.h"
static fuse_context g_ctx{};
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
static Full* full()
{
    static Full f;
    return &f;
}
struct Base : DelegateFuseHighLevelOps
{
    Base() : DelegateFuseHighLevelOps(std::shared_ptr<FuseHighLevelOpsBase>(full()->ops.get(), [](FuseHighLevelOpsBase*) {})) {}
};

struct M : Base
{
    int vgetxattr(const char*, const char*, char*, size_t n, uint32_t, const fuse_context*) override
    {
        throwVFSException(n == 1 ? ENODATA : n == 2 ? ERANGE : EIO);
    }
};
int main()
{
    M m;
    g_ctx.private_data = static_cast<FuseHighLevelOpsBase*>(&m);
    auto t = FuseHighLevelOpsBase::build_ops(&m);
    char b[4];
    EXPECT(t.getxattr("/", "user.a", b, 1) == -ENODATA);
    EXPECT(t.getxattr("/", "user.a", b, 2) == -ERANGE);
    EXPECT(t.getxattr("/", "user.a", b, 3) == -EIO);
}
"""
