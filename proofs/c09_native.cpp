// C09, bounded part: random histories of the table of open files over an in-memory store, and the layout of the store on
// a real directory.
#ifndef IRV
#include "nat_file.h"
#include "btree_dir.h"
#include "file_table_v2.h"
#include "lock_guard.h"
#include "logger.h"
#include <cerrno>
#include <fcntl.h>
#include <filesystem>
#include <map>
#include <set>
using namespace nat;
using namespace securefs;
using namespace securefs::full_format;
namespace
{
std::string text(const id_type& id) { return std::string((const char*)id.data(), id.size()); }
struct MemIO : public FileTableIO
{
    std::map<std::string, FileStreamPtrPair> all;
    std::map<std::string, int> opens;
    int unlinks = 0;
    bool fail = false;
    FileStreamPtrPair open(const id_type& id) override
    {
        auto it = all.find(text(id));
        if (it == all.end())
            throwVFSException(ENOENT);
        if (fail)
            throwVFSException(EIO);
        ++opens[text(id)];
        return it->second;
    }
    FileStreamPtrPair create(const id_type& id) override
    {
        if (fail)
            throwVFSException(EIO);
        if (all.count(text(id)))
            throwVFSException(EEXIST);
        ++opens[text(id)];
        return all[text(id)] = {std::make_shared<MemFile>(), std::make_shared<MemFile>()};
    }
    void unlink(const id_type& id) noexcept override
    {
        irv_assert(all.erase(text(id)) == 1, "storage is removed once");
        ++unlinks;
    }
};
struct World
{
    FileParams par;
    std::shared_ptr<MemIO> io = std::make_shared<MemIO>();
    std::unique_ptr<FileTable> t;
    struct File
    {
        id_type id;
        int type;
        unsigned mode = 0, nlink = 1;
        Bytes data;
        std::vector<FilePtrHolder> holders;
    };
    std::vector<std::unique_ptr<File>> files;
    FileParams with(const id_type& id) const
    {
        auto q = par;
        q.id = id;
        return q;
    }
    void start()
    {
        t.reset(new FileTable(
            io, [this](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<RegularFile>(d, m); },
            [this](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<BtreeDirectory>(d, m, Directory::DirNameComparison{&binary_compare}); },
            [this](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<Symlink>(d, m); }));
    }
    World()
    {
        global_logger.reset();
        start();
    }
    template <class F>
    static int call(F f)
    {
        try
        {
            f();
            return 0;
        }
        catch (const ExceptionBase& e)
        {
            return e.error_number();
        }
        catch (const std::exception&)
        {
            return 1000;
        }
    }
    // what a fresh process would find in a copy of the storage
    void stored(File& f)
    {
        auto it = io->all.find(text(f.id));
        irv_assert(it != io->all.end(), "the storage of a file with links is kept");
        auto copy = [](const std::shared_ptr<FileStream>& s)
        {
            auto r = std::make_shared<MemFile>();
            Bytes b(s->size());
            s->read(b.data(), 0, b.size());
            r->write(b.data(), 0, b.size());
            return r;
        };
        auto d = copy(it->second.first), m = copy(it->second.second);
        std::unique_ptr<FileBase> b;
        if (f.type == S_IFREG >> 12)
            b = with(f.id).make<RegularFile>(d, m);
        else if (f.type == S_IFLNK >> 12)
            b = with(f.id).make<Symlink>(d, m);
        else
            b = with(f.id).make<BtreeDirectory>(d, m, Directory::DirNameComparison{&binary_compare});
        LockGuard<FileBase> lg(*b);
        irv_assert(b->get_mode() == f.mode && b->get_nlink() == f.nlink, "the last close writes the attributes");
        if (f.type == S_IFREG >> 12)
        {
            auto* r = b->cast_as<RegularFile>();
            Bytes got(f.data.size() + 10);
            size_t n = r->read(got.data(), 0, got.size());
            got.resize(n);
            irv_assert(got == f.data, "and the contents");
        }
    }
    void alive(File& f, FileBase* b)
    {
        LockGuard<FileBase> lg(*b);
        irv_assert(b->type() == f.type && b->get_id() == f.id, "a file is what it is");
        irv_assert(b->get_mode() == f.mode && b->get_nlink() == f.nlink, "with its attributes");
    }
    void create()
    {
        static const int types[] = {S_IFREG >> 12, S_IFDIR >> 12, S_IFLNK >> 12};
        auto f = std::make_unique<File>();
        f->type = types[irv_rand(3)];
        auto h = t->create_as(f->type);
        f->id = h->get_id();
        irv_assert(!(f->id == kRootId), "a new id");
        for (auto& g : files)
            irv_assert(!(g->id == f->id), "a new id");
        f->mode = FileBase::mode_for_type(f->type) | irv_rand(512);
        {
            LockGuard<FileBase> lg(*h);
            h->initialize_empty(f->mode, 3, 4);
        }
        irv_assert(h->getref() == 1 && io->all.count(text(f->id)), "one holder and storage");
        f->holders.push_back(std::move(h));
        files.push_back(std::move(f));
    }
    void step()
    {
        unsigned op = irv_var("op", 0, 11);
        if (files.empty() || op < 2)
            return create();
        size_t i = irv_rand(files.size());
        File& f = *files[i];
        if (op < 5)
        {
            io->fail = irv_rand(6) == 0;
            FilePtrHolder h(nullptr, FileTableCloser(t.get()));
            int before = io->opens[text(f.id)];
            int rc = call([&] { h = t->open_as(f.id, f.type); });
            bool fail = io->fail;
            io->fail = false;
            if (!f.holders.empty())
                irv_assert(rc == 0 && h.get() == f.holders[0].get() && io->opens[text(f.id)] == before, "one object per id");
            else
                irv_assert(rc == 0 || fail, "a file with links is opened");
            if (rc)
                return;
            alive(f, h.get());
            irv_assert(h->getref() == (ptrdiff_t)f.holders.size() + 1, "one holder more");
            f.holders.push_back(std::move(h));
            irv_cover("open");
        }
        else if (op < 8 && !f.holders.empty())
        {
            int un = io->unlinks;
            FileBase* p = f.holders.back().get();
            f.holders.pop_back();
            if (!f.holders.empty())
            {
                irv_assert(io->unlinks == un, "storage of an open file is kept");
                irv_assert(p->getref() == (ptrdiff_t)f.holders.size(), "one holder less");
                alive(f, p);
                irv_cover("still open");
                return;
            }
            if (f.nlink == 0)
            {
                irv_assert(io->unlinks == un + 1 && !io->all.count(text(f.id)), "an unlinked file is removed when it is closed");
                int rc = call([&] { t->open_as(f.id, f.type); });
                irv_assert(rc == ENOENT, "and cannot be opened again");
                files.erase(files.begin() + i);
                irv_cover("removed");
                return;
            }
            irv_assert(io->unlinks == un, "storage of a file with links is kept");
            stored(f);
            irv_cover("closed");
        }
        else if (op == 8 && !f.holders.empty())
        {
            LockGuard<FileBase> lg(*f.holders[0]);
            f.mode = FileBase::mode_for_type(f.type) | irv_rand(512);
            f.holders[0]->set_mode(f.mode);
        }
        else if (op == 9 && !f.holders.empty() && f.type == S_IFREG >> 12)
        {
            LockGuard<FileBase> lg(*f.holders[0]);
            Bytes b(1 + irv_rand(irv_rand(4) ? 50 : 9000));
            for (auto& c : b)
                c = irv_rand(256);
            size_t off = irv_rand(f.data.size() + 1);
            f.holders[0]->cast_as<RegularFile>()->write(b.data(), off, b.size());
            if (f.data.size() < off + b.size())
                f.data.resize(off + b.size());
            std::copy(b.begin(), b.end(), f.data.begin() + off);
        }
        else if (op == 10 && !f.holders.empty() && f.nlink)
        {
            LockGuard<FileBase> lg(*f.holders[0]);
            if (irv_rand(2))
                f.holders[0]->set_nlink(++f.nlink);
            else
            {
                f.holders[0]->unlink();
                --f.nlink;
            }
        }
        else if (op == 11 && irv_rand(5) == 0)
        {
            for (size_t k = files.size(); k-- > 0;)
            {
                files[k]->holders.clear();
                if (files[k]->nlink == 0)
                    files.erase(files.begin() + k);
            }
            if (irv_rand(2))
                t.reset();
            if (!t)
                start();
            irv_cover("again");
        }
        // the storage is that of the files that exist (and the root)
        irv_assert(io->all.size() == files.size() + 1 && io->all.count(text(kRootId)), "no storage is left over or lost");
        irv_assert(t->open_as(kRootId, S_IFDIR >> 12).get() == t->open_as(kRootId, S_IFDIR >> 12).get(), "one root");
    }
};
}    // namespace
BOUNDED(C09_history)
{
    World w;
    unsigned n = irv_var("steps", 3, 60);
    for (unsigned i = 0; i < n; ++i)
        w.step();
    for (auto& f : w.files)
    {
        f->holders.clear();
        if (f->nlink)
            w.stored(*f);
    }
    w.t.reset();
    for (auto& f : w.files)
        irv_assert(w.io->all.count(text(f->id)) == (f->nlink ? 1u : 0u), "what has links is kept");
}
// many files of one shard: closed files are evicted
BOUNDED(C09_shard_full)
{
    World w;
    id_type base{};
    for (size_t i = 0; i < 32; ++i)
        base.data()[i] = irv_rand(256);
    unsigned n = irv_var("files", 45, 110);
    for (unsigned i = 0; i < n; ++i)
    {
        auto f = std::make_unique<World::File>();
        f->id = base;
        f->id.data()[7] = i;      // bits 0..4 of the inode number choose the shard
        f->id.data()[20] ^= i * 3;
        f->type = S_IFREG >> 12;
        f->mode = S_IFREG | (i & 511);
        auto s = w.io->create(f->id);
        auto b = w.with(f->id).make<RegularFile>(s.first, s.second);
        LockGuard<FileBase> lg(*b);
        b->initialize_empty(f->mode, 1, 2);
        f->data.resize(1 + i);
        for (auto& c : f->data)
            c = irv_rand(256);
        b->write(f->data.data(), 0, f->data.size());
        b->flush();
        w.files.push_back(std::move(f));
    }
    for (unsigned k = 0; k < 400; ++k)
    {
        size_t i = irv_rand(n);
        World::File* f = w.files[i].get();
        if (f->nlink == 0 && f->holders.empty())
            continue;
        if (f->holders.empty() || irv_rand(3) == 0)
        {
            auto h = w.t->open_as(f->id, f->type);
            if (!f->holders.empty())
                irv_assert(h.get() == f->holders[0].get(), "one object per id");
            w.alive(*f, h.get());
            if (irv_rand(2))
            {
                LockGuard<FileBase> lg(*h);
                f->mode = S_IFREG | irv_rand(512);
                h->set_mode(f->mode);
                unsigned char c = irv_rand(256);
                h->cast_as<RegularFile>()->write(&c, f->data.size(), 1);
                f->data.push_back(c);
            }
            if (irv_rand(40) == 0 && f->nlink)
            {
                LockGuard<FileBase> lg(*h);
                h->unlink();
                f->nlink = 0;
            }
            f->holders.push_back(std::move(h));
        }
        else
            f->holders.pop_back();
        irv_assert(w.io->all.count(text(f->id)) == (f->nlink || !f->holders.empty()), "storage is removed after unlink and last close");
        if (f->holders.empty() && f->nlink)
            w.stored(*f);
    }
    for (auto& f : w.files)
    {
        f->holders.clear();
        if (f->nlink)
            w.stored(*f);
        else
            irv_assert(!w.io->all.count(text(f->id)), "storage is removed after unlink and last close");
    }
    irv_cover("full");
}
BOUNDED(C09_layout)
{
    std::string dir = irv_private();
    bool legacy = irv_var("legacy", 0, 1);
    auto os = std::make_shared<OSService>(dir);
    auto io = make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(false));
    auto ro = make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(true));
    auto hexed = [](const unsigned char* p, size_t n)
    {
        std::string r;
        for (size_t i = 0; i < n; ++i)
        {
            char b[3];
            snprintf(b, 3, "%02x", p[i]);
            r += b;
        }
        return r;
    };
    auto place = [&](const id_type& id)
    {
        auto* p = id.data();
        return legacy ? hexed(p, 1) + "/" + hexed(p + 1, 5) + "/" + hexed(p + 6, 26) : hexed(p, 1) + "/" + hexed(p + 1, 31);
    };
    std::map<std::string, std::pair<std::string, std::string>> all;    // id -> data, meta
    auto disk = [&]
    {
        std::set<std::string> got, want;
        size_t dirs = 0;
        for (auto& e : std::filesystem::recursive_directory_iterator(dir))
            if (e.is_directory())
                dirs += std::filesystem::is_empty(e.path());
            else
                got.insert(e.path().string().substr(dir.size() + 1));
        for (auto& p : all)
        {
            id_type id;
            memcpy(id.data(), p.first.data(), 32);
            want.insert(place(id));
            want.insert(place(id) + ".meta");
        }
        irv_assert(got == want, "two files for every id");
        irv_assert(dirs == 0, "no empty directories are left");
    };
    std::vector<id_type> ids;
    for (int i = 0; i < 6; ++i)
    {
        id_type id;
        for (size_t k = 0; k < 32; ++k)
            id.data()[k] = irv_rand(256);
        if (i && irv_rand(2))    // a neighbour
        {
            id = ids[irv_rand(ids.size())];
            id.data()[irv_rand(3) ? irv_rand(32) : 31] ^= 1 << irv_rand(8);
        }
        ids.push_back(id);
    }
    unsigned n = irv_var("steps", 1, 40);
    for (unsigned k = 0; k < n; ++k)
    {
        auto& id = ids[irv_rand(ids.size())];
        auto key = text(id);
        switch (irv_var("op", 0, 4))
        {
        case 0:
        case 1:
        {
            FileStreamPtrPair p;
            int rc = World::call([&] { p = io->create(id); });
            irv_assert(rc == (all.count(key) ? EEXIST : 0), "an id that exists is refused");
            if (rc == 0)
            {
                std::string a(irv_rand(50), 'a' + irv_rand(26)), b(irv_rand(50), 'a' + irv_rand(26));
                p.first->write(a.data(), 0, a.size());
                p.second->write(b.data(), 0, b.size());
                all[key] = {a, b};
                irv_cover("made");
            }
            break;
        }
        case 2:
        case 3:
        {
            FileStreamPtrPair p;
            bool r = irv_rand(2);
            int rc = World::call([&] { p = (r ? ro : io)->open(id); });
            irv_assert(rc == (all.count(key) ? 0 : ENOENT), "what exists is opened");
            if (rc == 0)
            {
                irv_assert(p.first->as_string() == all[key].first && p.second->as_string() == all[key].second, "every id has its own files");
                int w = World::call([&] { p.first->write("Z", all[key].first.size(), 1); });
                irv_assert((w != 0) == r, "read-only storage is not written");
                if (!r)
                    all[key].first += 'Z';
                irv_cover("opened");
            }
            break;
        }
        default:
            io->unlink(id);
            irv_cover(all.erase(key) ? "removed" : "nothing to remove");
        }
        disk();
    }
    while (!all.empty())
    {
        id_type id;
        memcpy(id.data(), all.begin()->first.data(), 32);
        io->unlink(id);
        all.erase(all.begin());
        disk();
    }
}
#endif
