prop = 'C09'
needs = 'a file with two links, one of them unlinked, then the last close'
breaks = 'the storage of a file that still has a link is removed'
edits = [('sources/files.h', 'return get_nlink() <= 0;', 'return get_nlink() <= 1;')]
demo = r"""
#include "demo_fs.h"
struct W
{
    Par p;
    std::shared_ptr<MemIO> io = std::make_shared<MemIO>();
    std::shared_ptr<FileTable> t = make_table(io, p);
    id_type made(int links)
    {
        auto h = t->create_as(RegularFile::class_type());
        FileLockGuard g(*h);
        h->initialize_empty(0100644, 1, 2);
        h->set_nlink(links);
        return h->get_id();
    }
};

int main()
{
    W w;
    auto id = w.made(2);
    {
        auto h = w.t->open_as(id, RegularFile::class_type());
        FileLockGuard g(*h);
        h->unlink();
    }
    w.t = make_table(w.io, w.p);
    EXPECT(w.io->all.count(MemIO::key(id)));
    EXPECT(w.t->open_as(id, RegularFile::class_type())->get_nlink() == 1);
}
"""
