prop = 'C14'
needs = 'an attribute that exists set with XATTR_CREATE'
breaks = 'the refused call has already replaced the stored value, which then no longer verifies'
edits = [('sources/files.cpp', 'm_data_stream->setxattr(wrapped_name.c_str(), ciphertext, size, flags);', 'm_data_stream->setxattr(wrapped_name.c_str(), ciphertext, size, 0);')]
demo = r"""
#include "demo_fs.h"
struct R
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<RegularFile> f;
    void open()
    {
        if (f)
        {
            f->flush();
            f.reset();
        }
        f = p.make<RegularFile>(id, d, m);
    }
};

int main()
{
    R x;
    x.open();
    x.f->initialize_empty(0100644, 1, 2);
    x.f->setxattr("a", "value", 5, 0);
    EXPECT(rc_of([&] { x.f->setxattr("a", "other", 5, 1); return 0; }) == -EEXIST);
    char b[10];
    EXPECT(rc_of([&] { return (int)x.f->getxattr("a", b, 10); }) == 5);
    EXPECT(memcmp(b, "value", 5) == 0);
}
"""
