prop = 'C18'
needs = 'a setxattr or getxattr through the table with a position that is not zero'
breaks = 'the position given is dropped'
edits = [('sources/fuse_high_level_ops_base.cpp', '[=]() { return op->vsetxattr(path, name, value, size, flags, position, ctx); }', '[=]() { return op->vsetxattr(path, name, value, size, flags, 0, ctx); }')]
demo = r"""
#include "demo_fs.h"
#include "fuse_high_level_ops_base.h"
static fuse_context g_ctx{};
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
static Full* full()
{
    static Full f;
    return &f;
}
struct Base : DelegateFuseHighLevelOps
{
    Base() : DelegateFuseHighLevelOps(std::shared_ptr<FuseHighLevelOpsBase>(full()->ops.get(), [](FuseHighLevelOpsBase*) {})) {}
};

struct M : Base
{
    uint32_t at = 0;
    int vsetxattr(const char*, const char*, const char*, size_t, int, uint32_t p, const fuse_context*) override
    {
        at = p;
        return 0;
    }
};
int main()
{
    M m;
    g_ctx.private_data = static_cast<FuseHighLevelOpsBase*>(&m);
    EXPECT(FuseHighLevelOpsBase::static_setxattr("/", "a", "v", 1, 0, 77) == 0);
    EXPECT(m.at == 77);
}
"""
