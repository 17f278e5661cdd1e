prop = 'C08'
needs = 'utimens with given times'
breaks = 'the change time takes the given modification time instead of the current one'
edits = [('sources/files.cpp', '        set_ctime(current_time);\n    }\n    else', '        set_ctime(ts ? ts[1] : current_time);\n    }\n    else')]
demo = r"""
#include "demo_fs.h"
struct R
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<RegularFile> f;
    void open()
    {
        if (f)
        {
            f->flush();
            f.reset();
        }
        f = p.make<RegularFile>(id, d, m);
    }
};

int main()
{
    R x;
    x.open();
    x.f->initialize_empty(0100644, 1, 2);
    fuse_timespec ts[2] = {{50, 1}, {60, 2}}, now;
    x.f->utimens(ts);
    OSService::get_current_time(now);
    fuse_stat st{};
    x.f->stat(&st);
    EXPECT(st.st_ctim.tv_sec > 1000000 && st.st_ctim.tv_sec <= now.tv_sec);
}
"""
