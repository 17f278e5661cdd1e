prop = 'C09'
needs = 'a file opened twice, closed once and unlinked, still in use through the other holder'
breaks = 'the file is dropped while a holder remains'
edits = [('sources/file_table_v2.cpp', 'if (fb && table_ && fb->decref() <= 0)', 'if (fb && table_ && fb->decref() <= 1)'), ('sources/file_table_v2.cpp', 'if (it->second->getref() > 0)\n    {\n        return;    // Already', 'if (it->second->getref() > 1)\n    {\n        return;    // Already')]
demo = r"""
#include "demo_fs.h"
struct W
{
    Par p;
    std::shared_ptr<MemIO> io = std::make_shared<MemIO>();
    std::shared_ptr<FileTable> t = make_table(io, p);
    id_type made(int links)
    {
        auto h = t->create_as(RegularFile::class_type());
        FileLockGuard g(*h);
        h->initialize_empty(0100644, 1, 2);
        h->set_nlink(links);
        return h->get_id();
    }
};

int main()
{
    W w;
    auto id = w.made(1);
    auto a = w.t->open_as(id, RegularFile::class_type());
    auto b = w.t->open_as(id, RegularFile::class_type());
    EXPECT(a.get() == b.get());
    {
        FileLockGuard g(*a);
        a->unlink();
    }
    b.reset();
    EXPECT(w.io->all.count(MemIO::key(id)));    // a holder remains
    a.reset();
    EXPECT(!w.io->all.count(MemIO::key(id)));
}
"""
