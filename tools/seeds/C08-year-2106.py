prop = 'C08'
needs = 'a modification time that does not fit 32 bits (negative or after 2106)'
breaks = 'the stored seconds of the modification time are cut to 32 bits'
edits = [('sources/files.cpp', 'to_little_endian<uint64_t>(m_mtime.tv_sec, &header[MTIME_OFFSET]);', 'to_little_endian<uint64_t>(static_cast<uint32_t>(m_mtime.tv_sec), &header[MTIME_OFFSET]);')]
demo = r"""
#include "demo_fs.h"
struct R
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<RegularFile> f;
    void open()
    {
        if (f)
        {
            f->flush();
            f.reset();
        }
        f = p.make<RegularFile>(id, d, m);
    }
};

int main()
{
    R x;
    x.open();
    x.f->initialize_empty(0100644, 1, 2);
    fuse_timespec ts[2] = {{5000000000ll, 1}, {6000000000ll, 2}};
    x.f->utimens(ts);
    x.open();
    fuse_stat st{};
    x.f->stat(&st);
    EXPECT(st.st_atim.tv_sec == 5000000000ll && st.st_mtim.tv_sec == 6000000000ll);
    EXPECT(st.st_atim.tv_nsec == 1 && st.st_mtim.tv_nsec == 2);
}
"""
