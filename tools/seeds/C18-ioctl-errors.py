prop = 'C18'
needs = 'an ioctl that fails with an error other than ENOSYS under unmount support'
breaks = 'every failure of an ioctl becomes ENOTSUP'
edits = [('sources/fuse_high_level_ops_base.cpp', 'return delegate_result == -ENOSYS ? -ENOTSUP : delegate_result;', 'return delegate_result < 0 ? -ENOTSUP : delegate_result;')]
demo = r"""
#include "demo_fs.h"
#include "fuse_high_level_ops_base.h"
static fuse_context g_ctx{};
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
static Full* full()
{
    static Full f;
    return &f;
}
struct Base : DelegateFuseHighLevelOps
{
    Base() : DelegateFuseHighLevelOps(std::shared_ptr<FuseHighLevelOpsBase>(full()->ops.get(), [](FuseHighLevelOpsBase*) {})) {}
};

struct M : Base
{
    int rc = 0;
    bool has_ioctl() const override { return true; }
    int vioctl(const char*, int, void*, fuse_file_info*, unsigned, void*, const fuse_context*) override { return rc; }
};
int main()
{
    auto m = std::make_shared<M>();
    auto w = wrap_as_unmountable_fuse(m);
    for (int rc : {0, 5, -ENOSYS, -EINVAL, -EPERM})
    {
        m->rc = rc;
        EXPECT(w->vioctl("/", 12345, nullptr, nullptr, 0, nullptr, &g_ctx) == (rc == -ENOSYS ? -ENOTSUP : rc));
    }
}
"""
