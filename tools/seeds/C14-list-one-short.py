prop = 'C14'
needs = 'a listing into a buffer one byte too short'
breaks = 'a list is returned that is longer than the buffer instead of ERANGE'
edits = [('sources/xattr_name.cpp', 'if (size < total_buffer_size)', 'if (size + 1 < total_buffer_size)')]
demo = r"""
#include "demo_fs.h"
struct R
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<RegularFile> f;
    void open()
    {
        if (f)
        {
            f->flush();
            f.reset();
        }
        f = p.make<RegularFile>(id, d, m);
    }
};

int main()
{
    R x;
    x.open();
    x.f->initialize_empty(0100644, 1, 2);
    x.f->setxattr("first", "value", 5, 0);
    x.f->setxattr("second", "value", 5, 0);
    char b[100];
    EXPECT(x.f->listxattr(nullptr, 0) == 13);
    EXPECT(x.f->listxattr(b, 13) == 13);
    for (int n = 1; n < 13; ++n)
        EXPECT(rc_of([&] { return (int)x.f->listxattr(b, n); }) == -ERANGE);
}
"""
