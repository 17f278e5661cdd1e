prop = 'C08'
needs = 'a file with two links, unlinked once and changed in nothing else, then reopened'
breaks = 'the lowered link count is not written'
edits = [('sources/files.h', '        --m_flags[3];\n        m_dirty = true;', '        --m_flags[3];')]
demo = r"""
#include "demo_fs.h"
struct R
{
    Par p;
    id_type id{3};
    std::shared_ptr<MemFile> d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::unique_ptr<RegularFile> f;
    void open()
    {
        if (f)
        {
            f->flush();
            f.reset();
        }
        f = p.make<RegularFile>(id, d, m);
    }
};

int main()
{
    R x;
    x.open();
    x.f->initialize_empty(0100644, 1, 2);
    x.f->set_nlink(2);
    x.open();
    x.f->unlink();
    x.open();
    EXPECT(x.f->get_nlink() == 1);
}
"""
