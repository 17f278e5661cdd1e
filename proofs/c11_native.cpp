// C11, bounded part: random histories of operations of the full format over an in-memory store, against a model of the
// tree.
#ifndef IRV
#include "nat_file.h"
#include "btree_dir.h"
#include "file_table_v2.h"
#include "full_format.h"
#include "internal_mount.h"
#include "lock_guard.h"
#include "logger.h"
#include "mystring.h"
#include <cerrno>
#include <fcntl.h>
#include <dirent.h>
#include <filesystem>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include <functional>
using namespace nat;
using namespace securefs;
using namespace securefs::full_format;
namespace
{
struct MemIO : public FileTableIO
{
    std::map<std::string, FileStreamPtrPair> all;
    static std::string key(const id_type& id) { return std::string((const char*)id.data(), id.size()); }
    FileStreamPtrPair open(const id_type& id) override
    {
        auto it = all.find(key(id));
        if (it == all.end())
            throwVFSException(ENOENT);
        return it->second;
    }
    FileStreamPtrPair create(const id_type& id) override
    {
        if (all.count(key(id)))
            throwVFSException(EEXIST);
        return all[key(id)] = {std::make_shared<MemFile>(), std::make_shared<MemFile>()};
    }
    void unlink(const id_type& id) noexcept override { all.erase(key(id)); }
};
struct Node
{
    int type;    // S_IFREG, S_IFDIR, S_IFLNK
    Model data;
    std::string target;
    unsigned mode = 0, uid = 0, gid = 0, nlink = 1;
    std::map<std::string, std::pair<std::string, std::shared_ptr<Node>>> kids;    // folded name -> name, node
};
typedef std::shared_ptr<Node> N;
struct Lister
{
    std::multiset<std::string> names;
    std::map<std::string, fuse_stat> stats;
    static int fill(void* b, const char* name, const fuse_stat* st, fuse_off_t)
    {
        auto* l = (Lister*)b;
        l->names.insert(name);
        if (st)
            l->stats[name] = *st;
        return 0;
    }
};
struct World
{
    bool fold_case;
    FileParams par;
    std::shared_ptr<MemIO> io = std::make_shared<MemIO>();
    std::shared_ptr<FuseHighLevelOpsBase> ops;
    std::string disk;    // where the volume is, when it is not in memory
    bool legacy = false;
    N root = std::make_shared<Node>();
    std::vector<std::string> names;
    OwnerOverride over;
    struct Handle
    {
        uint64_t fh;
        N node;
        std::string path;
    };
    std::vector<Handle> open;
    fuse_context ctx{};

    std::string fold(std::string s) const
    {
        if (fold_case)
            for (char& c : s)
                if (c >= 'A' && c <= 'Z')
                    c += 32;
        return s;
    }
    // the volume in a folder, built part by part or as the mount command builds it
    std::shared_ptr<FuseHighLevelOpsBase> wired(bool all)
    {
        DecryptedSecurefsParams pr;
        pr.mutable_size_params()->set_block_size(par.bs);
        pr.mutable_size_params()->set_iv_size(par.ivs);
        pr.mutable_size_params()->set_max_padding_size(par.maxpad);
        auto* l = pr.mutable_full_format_params();
        l->set_master_key(std::string((const char*)par.key.data(), par.key.size()));
        l->set_store_time(par.store);
        l->set_legacy_file_table_io(legacy);
        l->set_case_insensitive(fold_case);
        MountOptions mo;
        if (over.uid_override)
            mo.set_uid_override(*over.uid_override);
        if (over.gid_override)
            mo.set_gid_override(*over.gid_override);
        mo.set_enable_xattr(true);
        mo.set_allow_sensitive_logging(irv_rand(2));
        auto os = std::make_shared<OSService>(disk);
        if (all)
            return make_fuse_high_level_ops(os, pr, mo);
        return make_full_format_fuse_high_level_ops(os, pr, mo);
    }
    void make()
    {
        ops.reset();
        std::shared_ptr<OSService> os;
        std::shared_ptr<FileTableIO> tio = io;
        std::shared_ptr<RepoLocker> locker;
        if (!disk.empty())
        {
            std::string lock = disk + "/.securefs.lock";
            check(access(lock.c_str(), F_OK) != 0, "an unmounted volume is not locked");
            if (irv_rand(3) == 0)
            {
                // what a crash leaves: the number of a process that is no more, or nothing
                FILE* f = fopen(lock.c_str(), "w");
                if (irv_rand(2))
                    fputs("2147483646", f);
                fclose(f);
            }
            if (irv_rand(2))
                ops = wired(irv_rand(2));
            else
            {
                os = std::make_shared<OSService>(disk);
                tio = make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(false));
                locker = std::make_shared<RepoLocker>(os, StrongType<bool, tReadOnly>(false));
            }
            check(access(lock.c_str(), F_OK) == 0, "a mounted volume is locked");
            check(call([&] { wired(false); return 0; }) < 0, "a mounted volume is not mounted a second time");
            check(access(lock.c_str(), F_OK) == 0, "the volume stays locked");
            if (ops)
                return;
        }
        Directory::DirNameComparison cmp{fold_case ? &case_insensitive_compare : &binary_compare};
        auto p = par;
        auto with = [p](const id_type& id)
        {
            auto q = p;
            q.id = id;
            return q;
        };
        auto ft = std::make_shared<FileTable>(
            tio, [with](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<RegularFile>(d, m); },
            [with, cmp](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<BtreeDirectory>(d, m, cmp); },
            [with](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id) { return with(id).make<Symlink>(d, m); });
        ops.reset(new FuseHighLevelOps(os, ft, locker, over, StrongType<bool, tCaseInsensitive>(fold_case), StrongType<bool, tEnableXattr>(true)));
    }
    explicit World(bool f, const std::string& d = "") : fold_case(f), disk(d)
    {
        if (!disk.empty())
        {
            clean();
            legacy = irv_var("legacy", 0, 1);
            mkdir(disk.c_str(), 0755);
        }
        par.store = irv_rand(2);
        par.maxpad = irv_rand(2) ? 0 : 20;
        if (irv_rand(4) == 0)
            over.uid_override = 4242;
        if (irv_rand(4) == 0)
            over.gid_override = 2424;
        ctx.uid = 1001;
        ctx.gid = 1002;
        global_logger.reset();
        root->type = S_IFDIR;
        names = {"a", "b", "Entry.txt", std::string(255, 'n'), std::string(256, 'm')};
        unsigned some = irv_var("names", 0, 4);
        for (unsigned i = 0; i < 5; ++i)
            names.push_back("x" + std::to_string(i));
        names.resize(3 + some);
        if (f)
            names.push_back("A");
        make();
    }
    static bool too_long(const std::string& n) { return n.size() > 255; }
    int call(const std::function<int()>& f)
    {
        try
        {
            return f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception&)
        {
            return -EIO;
        }
    }
    static std::string last(const std::string& p) { return p.substr(p.rfind('/') + 1); }
    static std::vector<std::string> split(const std::string& p)
    {
        std::vector<std::string> r;
        size_t i = 0;
        while (i < p.size())
        {
            size_t e = p.find('/', i);
            if (e == std::string::npos)
                e = p.size();
            if (e > i)
                r.push_back(p.substr(i, e - i));
            i = e + 1;
        }
        return r;
    }
    struct Found
    {
        N node, parent;    // the entry and the directory it is in
        int err = 0;       // why there is no such directory
        bool deep = false;
    };
    N parent_of(const N& n, const N& at) const
    {
        for (auto& k : at->kids)
            if (k.second.second == n)
                return at;
            else if (k.second.second->type == S_IFDIR)
                if (N r = parent_of(n, k.second.second))
                    return r;
        return nullptr;
    }
    // POSIX path resolution; links in the middle are followed, a last one only on request
    Found walk(const N& from, const std::vector<std::string>& v, bool follow, int depth) const
    {
        Found f;
        N at = from;
        if (depth > 12)
        {
            f.deep = true;
            f.err = ELOOP;
            return f;
        }
        if (v.empty())
        {
            f.node = at;
            return f;
        }
        for (size_t i = 0; i < v.size(); ++i)
        {
            bool end = i + 1 == v.size();
            if (at->type != S_IFDIR)
            {
                f.err = ENOTDIR;
                return f;
            }
            if (v[i] == "." || v[i] == "..")
            {
                if (v[i] == ".." && at != root)
                    at = parent_of(at, root);
                f.parent = nullptr;
                if (end)
                {
                    f.node = at;
                    return f;
                }
                continue;
            }
            if (too_long(v[i]))
            {
                f.err = ENAMETOOLONG;
                f.parent = end ? at : nullptr;
                return f;
            }
            auto it = at->kids.find(fold(v[i]));
            N m = it == at->kids.end() ? nullptr : it->second.second;
            if (end)
                f.parent = at;
            if (!m)
            {
                if (!end)
                    f.err = ENOENT;
                return f;
            }
            if (m->type == S_IFLNK && (!end || follow))
            {
                auto g = walk(at, split(m->target), true, depth + 1);
                if (g.deep || !g.node || g.err)
                {
                    g.node = nullptr;
                    g.parent = nullptr;
                    if (!g.err)
                        g.err = ENOENT;
                    return g;
                }
                m = g.node;
            }
            at = m;
            if (end)
                f.node = m;
        }
        return f;
    }
    Found find(const std::string& p, bool follow = false) const { return walk(root, split(p), follow, 0); }
    static bool below(const N& a, const N& b)
    {
        if (a == b)
            return true;
        for (auto& k : a->kids)
            if (k.second.second->type == S_IFDIR && below(k.second.second, b))
                return true;
        return false;
    }
    std::string pick()
    {
        std::string p;
        N n = root;
        for (int d = 0; d < 3; ++d)
        {
            std::string c = names[irv_var("name", 0, names.size() - 1)];
            p += "/" + c;
            auto it = n->kids.find(fold(c));
            if (it == n->kids.end() || irv_rand(3) == 0)
                break;
            N m = it->second.second;
            if (m->type == S_IFLNK && irv_rand(2))
            {
                auto g = walk(n, split(m->target), true, 0);
                if (!g.node || g.err || g.deep)
                    break;
                m = g.node;
            }
            if (m->type != S_IFDIR)
                break;
            n = m;
        }
        if (irv_rand(15) == 0)
            p += "/" + names[irv_rand(names.size())];
        return p;
    }
    N add(const Found& f, const std::string& p, N n)
    {
        f.parent->kids[fold(last(p))] = {last(p), n};
        return n;
    }
    void drop(const Found& f, const std::string& p)
    {
        N n = f.node;
        f.parent->kids.erase(fold(last(p)));
        --n->nlink;
    }
    void contents(const std::string& p, const N& n, uint64_t fh)
    {
        fuse_file_info ff{};
        ff.fh = fh;
        fuse_stat st{};
        check(call([&] { return ops->vfgetattr(p.c_str(), &st, &ff, &ctx); }) == 0, "an open file has attributes");
        check(st.st_size == (off_t)n->data.sz, "the size of an open file");
        check(st.st_nlink == n->nlink, "the links of an open file");
        Bytes b(n->data.sz + 10, 0xEE);
        int r = call([&] { return ops->vread(p.c_str(), (char*)b.data(), b.size(), 0, &ff, &ctx); });
        check(r == (int)n->data.sz, "a file is read to its end");
        for (uint64_t i = 0; i < n->data.sz; ++i)
            check(b[i] == n->data.get(i), "contents of a file");
    }
    uint64_t ino(const std::string& p)
    {
        fuse_stat st{};
        check(call([&] { return ops->vgetattr(p.c_str(), &st, &ctx); }) == 0, "what exists has attributes");
        return st.st_ino;
    }
    void compare(const std::string& p, const N& n, std::map<N, uint64_t>& seen, const std::string& up)
    {
        std::string path = p.empty() ? "/" : p;
        fuse_stat st{};
        check(call([&] { return ops->vgetattr(path.c_str(), &st, &ctx); }) == 0, "an entry has attributes");
        check((st.st_mode & S_IFMT) == (unsigned)n->type, "type of an entry");
        if (!p.empty())
        {
            check((st.st_mode & 07777) == n->mode, "permissions");
            check(st.st_uid == (over.uid_override ? *over.uid_override : n->uid), "owner");
            check(st.st_gid == (over.gid_override ? *over.gid_override : n->gid), "group");
            if (n->type != S_IFDIR)
                check(st.st_nlink == n->nlink, "link count");
        }
        auto it = seen.find(n);
        if (it != seen.end())
            check(it->second == st.st_ino, "links of one file show one file");
        else
            for (auto& s : seen)
                check(s.second != st.st_ino, "different files are different");
        bool first = it == seen.end();
        seen[n] = st.st_ino;
        if (n->type == S_IFDIR)
        {
            check(first, "a directory has one place");
            fuse_file_info fi{};
            check(call([&] { return ops->vopendir(path.c_str(), &fi, &ctx); }) == 0, "a directory opens");
            std::multiset<std::string> want{".", ".."};
            for (auto& k : n->kids)
                want.insert(k.second.first);
            Lister l;
            check(call([&] { return ops->vreaddir(path.c_str(), &l, &Lister::fill, 0, &fi, &ctx); }) == 0, "a directory is listed");
            check(l.names == want, "a listing shows exactly the entries, each once");
            check(l.stats["."].st_ino == st.st_ino, "the directory itself");
            check(l.stats[".."].st_ino == ino(up), "the parent of a directory");
            check(ops->vreleasedir(path.c_str(), &fi, &ctx) == 0, "a directory closes");
            for (auto& k : n->kids)
            {
                check((l.stats[k.second.first].st_mode & S_IFMT) == (unsigned)k.second.second->type, "the listed type is that of the entry");
                check(l.stats[k.second.first].st_ino == ino(p + "/" + k.second.first), "the listed number is that of the entry");
                compare(p + "/" + k.second.first, k.second.second, seen, path);
            }
        }
        else if (n->type == S_IFREG)
        {
            check(st.st_size == (off_t)n->data.sz, "size of a file");
            fuse_file_info ff{};
            check(call([&] { return ops->vopen(path.c_str(), &ff, &ctx); }) == 0, "a file opens");
            contents(path, n, ff.fh);
            check(call([&] { return ops->vrelease(path.c_str(), &ff, &ctx); }) == 0, "a file closes");
        }
        else
        {
            std::vector<char> b(600, 1);
            unsigned room = 2 + irv_rand(500);
            check(call([&] { return ops->vreadlink(path.c_str(), b.data(), room, &ctx); }) == 0, "a link is read");
            check(n->target.substr(0, room - 1) == b.data(), "target of a link");
            check(b[room] == 1, "reading a link stays inside the buffer");
        }
        if (fold_case && !p.empty())
        {
            // any spelling of a path gives the names as stored
            std::string q = p;
            for (char& c : q)
                if (irv_rand(2) && c >= 'a' && c <= 'z')
                    c -= 32;
            std::vector<char> b(2000, 1);
            check(call([&] { return ops->vgetpath(q.c_str(), b.data(), b.size(), nullptr, &ctx); }) == 0 && p == b.data(), "the stored spelling of a path");
        }
    }
    // the file system shows exactly the model
    void verify()
    {
        std::map<N, uint64_t> seen;
        compare("", root, seen, "/");
        std::set<N> live;
        for (auto& s : seen)
            live.insert(s.first);
        for (auto& h : open)
        {
            contents(h.path, h.node, h.fh);
            live.insert(h.node);
        }
        size_t n = 2 * io->all.size();
        if (!disk.empty())
            for (auto& e : std::filesystem::recursive_directory_iterator(disk))
                n += e.is_regular_file() && e.path().filename() != ".securefs.lock";
        check(n == 2 * live.size(), "storage is kept exactly for what is in the tree or open");
        if (!disk.empty())
        {
            fuse_statvfs a{};
            struct statvfs b{};
            check(call([&] { return ops->vstatfs("/", &a, &ctx); }) == 0 && statvfs(disk.c_str(), &b) == 0, "the volume has a size");
            check(a.f_bsize == b.f_bsize && a.f_blocks == b.f_blocks && a.f_files == b.f_files && a.f_namemax > 0, "the size of the volume is that of its storage");
        }
    }
    void release(size_t i)
    {
        fuse_file_info fi{};
        fi.fh = open[i].fh;
        check(call([&] { return ops->vrelease(open[i].path.c_str(), &fi, &ctx); }) == 0, "a file closes");
        open.erase(open.begin() + i);
    }
    void edit(const Handle& h)
    {
        fuse_file_info fi{};
        fi.fh = h.fh;
        if (irv_rand(3))
        {
            Bytes b = bytes(1 + irv_rand(100));
            uint64_t off = irv_rand(200);
            check(call([&] { return ops->vwrite(h.path.c_str(), (char*)b.data(), b.size(), off, &fi, &ctx); }) == (int)b.size(), "a file is written");
            h.node->data.write(b, off);
        }
        else
        {
            uint64_t sz = irv_rand(250);
            check(call([&] { return ops->vftruncate(h.path.c_str(), sz, &fi, &ctx); }) == 0, "a file is resized");
            h.node->data.resize(sz);
        }
        if (irv_rand(3) == 0)
            check(call([&] { return ops->vflush(h.path.c_str(), &fi, &ctx); }) == 0, "a file is flushed");
        if (irv_rand(3) == 0)
            check(call([&] { return ops->vfsync(h.path.c_str(), 0, &fi, &ctx); }) == 0, "a file is synchronised");
    }
    void step()
    {
        std::string other, p = pick();
        Found f = find(p);
        if (f.deep)
            return;
        int rc = 0;
        std::set<int> errs;    // how it must fail
        auto fail = [&](std::set<int> e) { errs = std::move(e); };
        auto blocked = [&](const Found& x)
        {
            if (!x.err)
                return false;
            fail({x.err});
            if (x.err == ENOTDIR || x.err == ENOENT)
                fail({ENOENT, ENOTDIR});
            return true;
        };
        auto creation = [&](const Found& x)
        {
            if (!blocked(x) && x.node)
                fail({EEXIST});
        };
        N fresh = std::make_shared<Node>();
        fresh->uid = ctx.uid;
        fresh->gid = ctx.gid;
        std::function<void()> effect = [] {};
        int op = irv_var("op", 0, 13);
        switch (op)
        {
        case 0:
        case 1:
        {
            fuse_file_info fi{};
            creation(f);
            fresh->type = S_IFREG;
            fresh->mode = irv_rand(01000);
            rc = call([&] { return ops->vcreate(p.c_str(), fresh->mode | (irv_rand(2) ? S_IFREG : 0), &fi, &ctx); });
            if (rc == 0)
            {
                open.push_back({fi.fh, fresh, p});
                for (int i = irv_rand(3); i > 0; --i)
                    edit(open.back());
                if (irv_rand(3))
                    release(open.size() - 1);
            }
            effect = [&] { add(f, p, fresh); };
            break;
        }
        case 2:
        case 3:
            creation(f);
            fresh->type = S_IFDIR;
            fresh->mode = irv_rand(01000);
            rc = call([&] { return ops->vmkdir(p.c_str(), fresh->mode, &ctx); });
            effect = [&] { add(f, p, fresh); };
            break;
        case 4:
            if (!blocked(f))
            {
                if (!f.node)
                    fail({ENOENT});
                else if (f.node->type == S_IFDIR)
                    fail({EISDIR, EPERM});
            }
            rc = call([&] { return ops->vunlink(p.c_str(), &ctx); });
            effect = [&] { drop(f, p); };
            break;
        case 5:
            if (!blocked(f))
            {
                if (!f.node)
                    fail({ENOENT});
                else if (f.node->type != S_IFDIR)
                    fail({ENOTDIR});
                else if (!f.node->kids.empty())
                    fail({ENOTEMPTY, EEXIST});
            }
            rc = call([&] { return ops->vrmdir(p.c_str(), &ctx); });
            effect = [&] { drop(f, p); };
            break;
        case 6:
        case 7:
        {
            std::string q = pick();
            other = q;
            Found g = find(q);
            if (g.deep)
                return;
            N n = f.node, m = g.node;
            if (n && n->type == S_IFDIR && n != m && g.parent && below(n, g.parent))
                return;    // FUSE refuses this before it asks
            if (f.err && g.err)
                fail({f.err, g.err, ENOENT, ENOTDIR});
            else if (!blocked(f) && !blocked(g))
            {
                if (!n)
                    fail({ENOENT});
                else if (m && m != n)
                {
                    if (n->type == S_IFDIR && m->type != S_IFDIR)
                        fail({ENOTDIR});
                    else if (n->type != S_IFDIR && m->type == S_IFDIR)
                        fail({EISDIR, EEXIST, ENOTEMPTY});
                    else if (m->type == S_IFDIR && !m->kids.empty())
                        fail({ENOTEMPTY, EEXIST});
                }
            }
            else if (!n && !f.err)
                errs.insert(ENOENT);
            rc = call([&] { return ops->vrename(p.c_str(), q.c_str(), &ctx); });
            effect = [this, p, q, f, g, n, m]
            {
                bool same = f.parent == g.parent && fold(last(p)) == fold(last(q));
                if (n == m && !same)
                    return;    // two links of one file
                f.parent->kids.erase(fold(last(p)));
                if (m && m != n)
                    --m->nlink;
                g.parent->kids[fold(last(q))] = {last(q), n};
            };
            break;
        }
        case 8:
        {
            std::string t;
            int parts = 1 + irv_rand(3);
            for (int i = 0; i < parts; ++i)
                t += (i ? "/" : "") + (i == 0 && irv_rand(3) == 0 ? std::string(irv_rand(2) ? ".." : ".") : names[irv_rand(names.size())]);
            creation(f);
            rc = call([&] { return ops->vsymlink(t.c_str(), p.c_str(), &ctx); });
            fresh->type = S_IFLNK;
            fresh->mode = 0644;
            fresh->target = t;
            effect = [&] { add(f, p, fresh); };
            break;
        }
        case 9:
        {
            std::string q = pick();
            other = q;
            Found g = find(q);
            Found s = find(p, true);
            if (g.deep || s.deep || (s.node && s.node->type == S_IFDIR))
                return;
            if (s.err || !s.node)
                fail({ENOENT, ENOTDIR, ENAMETOOLONG, EEXIST});
            else if (!blocked(g) && g.node)
                fail({EEXIST});
            rc = call([&] { return ops->vlink(p.c_str(), q.c_str(), &ctx); });
            effect = [this, q, g, s]
            {
                g.parent->kids[fold(last(q))] = {last(q), s.node};
                ++s.node->nlink;
            };
            break;
        }
        case 10:
        {
            Found s = find(p, true);
            if (s.deep || (s.node && s.node->type != S_IFREG))
                return;
            fuse_file_info fi{};
            fi.flags = (irv_rand(3) ? O_RDWR : O_WRONLY) | (irv_rand(3) ? 0 : O_TRUNC);
            if (s.err || !s.node)
                fail({ENOENT, ENOTDIR, ENAMETOOLONG});
            rc = call([&] { return ops->vopen(p.c_str(), &fi, &ctx); });
            if (rc == 0 && s.node)
            {
                if (fi.flags & O_TRUNC)
                    s.node->data.resize(0);
                open.push_back({fi.fh, s.node, p});
                for (int i = irv_rand(3); i > 0; --i)
                    edit(open.back());
            }
            break;
        }
        case 11:
        {
            if (open.empty())
                return;
            size_t i = irv_rand(open.size());
            edit(open[i]);
            if (irv_rand(2))
                release(i);
            return;
        }
        case 12:
        {
            Found s = find(p, true);
            if (s.deep || (s.node && s.node->type != S_IFREG))
                return;
            if (s.err || !s.node)
                fail({ENOENT, ENOTDIR, ENAMETOOLONG});
            uint64_t sz = irv_rand(250);
            rc = call([&] { return ops->vtruncate(p.c_str(), sz, &ctx); });
            effect = [s, sz] { s.node->data.resize(sz); };
            break;
        }
        default:
        {
            if (!blocked(f) && !f.node)
                fail({ENOENT});
            unsigned a = irv_rand(3) ? irv_rand(01000) : -1, b = irv_rand(3) ? irv_rand(5000) : -1;
            if (irv_rand(2))
            {
                if (a == -1u)
                    a = 0700;
                rc = call([&] { return ops->vchmod(p.c_str(), a | (irv_rand(2) ? S_IFREG : 0), &ctx); });
                effect = [&, a] { f.node->mode = a; };
            }
            else
            {
                rc = call([&] { return ops->vchown(p.c_str(), a, b, &ctx); });
                effect = [&, a, b]
                {
                    if (a != -1u)
                        f.node->uid = a;
                    if (b != -1u)
                        f.node->gid = b;
                };
            }
        }
        }
        std::string what = "operation " + std::to_string(op) + " on " + p.substr(0, 30) + " (" + std::to_string(rc) + ")";
        check(rc <= 0, what + " returns 0 or an error");
        if (getenv("DBG") && (rc == 0) != errs.empty()) { what += " q=" + other; dump("", root); }
        for (int e : errs)
            what += " " + std::to_string(e);
        check((rc == 0) == errs.empty(), what + (errs.empty() ? " succeeds" : " fails"));
        if (rc == 0)
            effect();
        else
        {
            check(errs.count(-rc) > 0, what + " fails with the right error");
            verify();    // and changed nothing
        }
        fuse_stat st{};
        std::string none = p + "/nothing here";
        int e = call([&] { return ops->vgetattr(none.c_str(), &st, &ctx); });
        check(e < 0, "what is not there has no attributes");
    }
    void clean()
    {
        std::error_code e;
        std::filesystem::remove_all(disk, e);
    }
    ~World()
    {
        ops.reset();
        if (!disk.empty())
            clean();
    }
    void dump(const std::string& p, const N& n)
    {
        fprintf(stderr, "%s %o %s\n", p.c_str(), n->type, n->target.c_str());
        for (auto& k : n->kids)
            dump(p + "/" + k.second.first, k.second.second);
    }
    void remount()
    {
        while (!open.empty())
            release(open.size() - 1);
        make();
    }
};
void history(bool fold, const std::string& disk = "")
{
    World w(fold, disk);
    unsigned k = irv_var("ops", 1, 40);
    for (unsigned i = 0; i < k; ++i)
    {
        w.step();
        if (irv_rand(4) == 0)
            w.verify();
        if (irv_rand(10) == 0)
            w.remount();
    }
    w.verify();
    w.remount();
    w.verify();
    irv_cover("a history");
}
// many entries in one directory: all of them stay reachable
void crowd()
{
    World w(irv_rand(2));
    w.names.clear();
    unsigned n = irv_var("many", 20, 120);
    for (unsigned i = 0; i < n; ++i)
        w.names.push_back("f" + std::to_string(i));
    fuse_context* c = &w.ctx;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string p = "/" + w.names[i];
        bool dir = irv_rand(8) == 0;
        fuse_file_info fi{};
        int rc = w.call([&] { return dir ? w.ops->vmkdir(p.c_str(), 0700, c) : w.ops->vcreate(p.c_str(), 0600, &fi, c); });
        check(rc == 0, "an entry is made");
        if (!dir)
            check(w.call([&] { return w.ops->vrelease(p.c_str(), &fi, c); }) == 0, "a file closes");
        N x = std::make_shared<Node>();
        x->type = dir ? S_IFDIR : S_IFREG;
        x->mode = dir ? 0700 : 0600;
        x->uid = c->uid;
        x->gid = c->gid;
        w.root->kids[w.fold(w.names[i])] = {w.names[i], x};
    }
    w.verify();
    for (int i = irv_rand(60); i > 0; --i)
        w.step();
    w.remount();
    w.verify();
    irv_cover("a crowd");
}
}    // namespace
BOUNDED(C11_on_disk)
{
    std::string d = irv_private();
    check(!d.empty(), "a scratch directory");
    history(irv_rand(2), d + "/volume");
    irv_cover("compared");
}
BOUNDED(C11_history) { history(false); }
BOUNDED(C11_history_folded) { history(true); }
BOUNDED(C11_crowd) { crowd(); }
#endif
