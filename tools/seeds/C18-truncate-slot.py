prop = 'C18'
needs = 'an implementation that has ftruncate but no truncate'
breaks = 'the table offers truncate by whether ftruncate is supported'
edits = [('sources/fuse_high_level_ops_base.cpp', 'opt.truncate = op->has_truncate() ?', 'opt.truncate = op->has_ftruncate() ?')]
demo = r"""
#include "demo_fs.h"
#include "fuse_high_level_ops_base.h"
static fuse_context g_ctx{};
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
static Full* full()
{
    static Full f;
    return &f;
}
struct Base : DelegateFuseHighLevelOps
{
    Base() : DelegateFuseHighLevelOps(std::shared_ptr<FuseHighLevelOpsBase>(full()->ops.get(), [](FuseHighLevelOpsBase*) {})) {}
};

struct M : Base
{
    bool has_truncate() const override { return false; }
    bool has_ftruncate() const override { return true; }
};
int main()
{
    M m;
    auto t = FuseHighLevelOpsBase::build_ops(&m);
    EXPECT(t.truncate == nullptr);
    EXPECT(t.ftruncate != nullptr);
}
"""
