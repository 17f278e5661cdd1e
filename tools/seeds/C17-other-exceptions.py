prop = 'C17'
needs = 'an operation that raises a standard exception that is no runtime_error'
breaks = 'the exception crosses into libfuse'
edits = [('sources/fuse_tracer_v2.h', '        catch (const std::exception& e)', '        catch (const std::runtime_error& e)')]
demo = r"""
#include "demo_fs.h"
#include "fuse_high_level_ops_base.h"
static fuse_context g_ctx{};
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
static Full* full()
{
    static Full f;
    return &f;
}
struct Base : DelegateFuseHighLevelOps
{
    Base() : DelegateFuseHighLevelOps(std::shared_ptr<FuseHighLevelOpsBase>(full()->ops.get(), [](FuseHighLevelOpsBase*) {})) {}
};

struct M : Base
{
    int vchmod(const char*, fuse_mode_t m, const fuse_context*) override
    {
        if (m == 1)
            throw std::invalid_argument("x");
        if (m == 2)
            throw std::bad_alloc();
        throw std::runtime_error("y");
    }
};
int main()
{
    M m;
    g_ctx.private_data = static_cast<FuseHighLevelOpsBase*>(&m);
    auto t = FuseHighLevelOpsBase::build_ops(&m);
    for (int i = 1; i < 4; ++i)
        try
        {
            EXPECT(t.chmod("/", i) == -EPERM);
        }
        catch (...)
        {
            EXPECT(!"an exception left the table");
        }
}
"""
