// C14, bounded part: extended attributes by path through the volume operations of the full format, over an in-memory
// store, against a model that holds the attributes of every file.
#ifndef IRV
#include "nat_file.h"
#include "btree_dir.h"
#include "file_table_v2.h"
#include "full_format.h"
#include "logger.h"
#include <cerrno>
#include <functional>
#include <set>
using namespace nat;
using namespace securefs;
using namespace securefs::full_format;
namespace
{
struct MemIO : public FileTableIO
{
    std::map<std::string, FileStreamPtrPair> all;
    static std::string key(const id_type& id) { return std::string((const char*)id.data(), id.size()); }
    FileStreamPtrPair open(const id_type& id) override
    {
        auto it = all.find(key(id));
        if (it == all.end())
            throwVFSException(ENOENT);
        return it->second;
    }
    FileStreamPtrPair create(const id_type& id) override
    {
        if (all.count(key(id)))
            throwVFSException(EEXIST);
        return all[key(id)] = {std::make_shared<MemFile>(), std::make_shared<MemFile>()};
    }
    void unlink(const id_type& id) noexcept override { all.erase(key(id)); }
};
typedef std::map<std::string, Bytes> Attrs;
int call(const std::function<int()>& f)
{
    try
    {
        return f();
    }
    catch (const ExceptionBase& e)
    {
        return -e.error_number();
    }
    catch (const std::exception&)
    {
        return -EIO;
    }
}
}    // namespace

BOUNDED(C14_full_volume)
{
    global_logger.reset();
    auto io = std::make_shared<MemIO>();
    FileParams par;
    par.store = irv_rand(2);
    par.maxpad = irv_rand(2) ? 0 : 20;
    auto with = [par](const id_type& id)
    {
        auto q = par;
        q.id = id;
        return q;
    };
    Directory::DirNameComparison cmp{&binary_compare};
    std::shared_ptr<FuseHighLevelOpsBase> ops;
    auto make = [&]
    {
        ops.reset();
        auto ft = std::make_shared<FileTable>(
            io, [with](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<RegularFile>(d, m); },
            [with, cmp](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<BtreeDirectory>(d, m, cmp); },
            [with](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<Symlink>(d, m); });
        ops.reset(new FuseHighLevelOps(nullptr, ft, nullptr, OwnerOverride{}, StrongType<bool, tCaseInsensitive>(false), StrongType<bool, tEnableXattr>(true)));
    };
    make();
    fuse_context ctx{};
    ctx.uid = ctx.gid = 7;
    std::map<std::string, std::shared_ptr<Attrs>> w;    // by path; hard links share
    w["/"] = std::make_shared<Attrs>();
    std::vector<std::string> paths{"/", "/f", "/g", "/d", "/d/h"};
    auto create = [&](const std::string& p) -> int
    {
        if (p == "/" || w.count(p))
            return 0;
        if (p == "/d")
        {
            check(call([&] { return ops->vmkdir("/d", 0755, &ctx); }) == 0, "a directory is made");
            w["/d"] = std::make_shared<Attrs>();
            return 0;
        }
        if (p == "/d/h" && !w.count("/d"))
            return 0;
        fuse_file_info fi{};
        check(call([&] { return ops->vcreate(p.c_str(), S_IFREG | 0644, &fi, &ctx); }) == 0, "a file is made");
        check(call([&] { return ops->vrelease(p.c_str(), &fi, &ctx); }) == 0, "a file closes");
        w[p] = std::make_shared<Attrs>();
        return 0;
    };
    std::vector<std::string> names;
    for (int i = 0; i < 3; ++i)
    {
        std::string s = i ? "user." : "";
        unsigned n = irv_var("name", 1, 60);
        for (unsigned k = 0; k < n; ++k)
            s.push_back((char)(33 + irv_rand(90)));
        names.push_back(s);
    }
    unsigned steps = irv_var("steps", 1, 25);
    for (unsigned k = 0; k < steps; ++k)
    {
        std::string p = paths[irv_var("path", 0, 4)], n = names[irv_var("which", 0, 2)];
        bool there = w.count(p) != 0;
        Attrs* a = there ? w[p].get() : nullptr;
        switch (irv_var("op", 0, 9))
        {
        case 0:
            create(p);
            break;
        case 1:
        case 2:
        case 3:
        {
            Bytes v(irv_var("value", 1, 60));
            for (auto& c : v)
                c = irv_rand(256);
            int flags = irv_var("flags", 0, 2);
            int rc = call([&] { return ops->vsetxattr(p.c_str(), n.c_str(), (const char*)v.data(), v.size(), flags | (irv_rand(3) ? 0 : 0x100), 0, &ctx); });
            int want = !there ? -ENOENT : (flags & 1) && a->count(n) ? -EEXIST : (flags & 2) && !a->count(n) ? -ENODATA : 0;
            check(rc == want, "result of setting an attribute");
            if (want == 0)
            {
                (*a)[n] = v;
                irv_cover("set");
            }
            break;
        }
        case 4:
        {
            int rc = call([&] { return ops->vremovexattr(p.c_str(), n.c_str(), &ctx); });
            check(rc == (!there ? -ENOENT : a->erase(n) ? 0 : -ENODATA), "result of removing an attribute");
            break;
        }
        case 5:    // removing an entry; its attributes go with the last link
        {
            if (!there || p == "/")
                break;
            if (p == "/d")
            {
                int rc = call([&] { return ops->vrmdir("/d", &ctx); });
                check(rc == (w.count("/d/h") ? -ENOTEMPTY : 0), "result of removing a directory");
                if (rc == 0)
                    w.erase("/d");
            }
            else
            {
                check(call([&] { return ops->vunlink(p.c_str(), &ctx); }) == 0, "a file is removed");
                w.erase(p);
            }
            break;
        }
        case 6:    // a second name of the same file
        {
            std::string q = paths[1 + irv_rand(2)];
            if (!there || p == "/" || p == "/d" || w.count(q))
                break;
            check(call([&] { return ops->vlink(p.c_str(), q.c_str(), &ctx); }) == 0, "a link is made");
            w[q] = w[p];
            irv_cover("link");
            break;
        }
        case 7:
        {
            std::string q = irv_rand(2) ? "/f" : "/g";
            if (!there || p == "/" || p == "/d" || q == p || (w.count(q) && w[q] == w[p]))
                break;
            check(call([&] { return ops->vrename(p.c_str(), q.c_str(), &ctx); }) == 0, "a file is renamed");
            w[q] = w[p];
            w.erase(p);
            irv_cover("rename");
            break;
        }
        case 8:
            make();    // a new mount
            break;
        default:
        {
            check(call([&] { return ops->vgetxattr(p.c_str(), n.c_str(), nullptr, 0, 1 + irv_rand(9), &ctx); }) == -EINVAL, "there is no part of an attribute");
            check(call([&] { return ops->vsetxattr(p.c_str(), n.c_str(), "x", 1, 0, 1 + irv_rand(9), &ctx); }) == -EINVAL, "no part of an attribute is set");
            break;
        }
        }
        for (auto& q : paths)
        {
            char buf[4096];
            if (!w.count(q))
            {
                check(call([&] { return ops->vlistxattr(q.c_str(), nullptr, 0, &ctx); }) == -ENOENT, "what is not there has no attributes");
                check(call([&] { return ops->vgetxattr(q.c_str(), n.c_str(), nullptr, 0, 0, &ctx); }) == -ENOENT, "what is not there has no attribute");
                continue;
            }
            Attrs& x = *w[q];
            size_t need = 0;
            for (auto& e : x)
                need += e.first.size() + 1;
            check(call([&] { return ops->vlistxattr(q.c_str(), nullptr, 0, &ctx); }) == (int)need, "the size query gives the length of the list");
            if (need > 1)
                check(call([&] { return ops->vlistxattr(q.c_str(), buf, need - 1, &ctx); }) == -ERANGE, "a short buffer is refused");
            int got = call([&] { return ops->vlistxattr(q.c_str(), buf, sizeof(buf), &ctx); });
            check(got == (int)need, "length of the list");
            std::set<std::string> s;
            for (int i = 0; i < got; i += strlen(buf + i) + 1)
                s.insert(buf + i);
            check(s.size() == x.size(), "every name once");
            for (auto& m : names)
            {
                auto it = x.find(m);
                check(s.count(m) == x.count(m), "exactly the attributes set are listed");
                int r = call([&] { return ops->vgetxattr(q.c_str(), m.c_str(), buf, sizeof(buf), 0, &ctx); });
                if (it == x.end())
                    check(r == -ENODATA, "an absent attribute");
                else
                    check(r == (int)it->second.size() && !memcmp(buf, it->second.data(), r), "the value reads back");
                if (it != x.end())
                    check(call([&] { return ops->vgetxattr(q.c_str(), m.c_str(), nullptr, 0, 0, &ctx); }) == r, "the size query gives the length of the value");
            }
        }
    }
    std::set<Attrs*> live;
    for (auto& e : w)
        live.insert(e.second.get());
    ops.reset();
    check(io->all.size() == live.size(), "storage of exactly the files that are there");
}
#endif
