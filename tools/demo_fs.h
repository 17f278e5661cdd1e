// More helpers of the demonstrations: files in memory, a full-format volume in memory, a lite-format volume in a folder.
#pragma once
#include "demo_util.h"
#include "btree_dir.h"
#include "file_table_v2.h"
#include "files.h"
#include "full_format.h"
#include "lite_format.h"
#include "lock_guard.h"
#include "logger.h"
#include "mystring.h"
#include "platform.h"
#include <cerrno>
#include <fcntl.h>
#include <functional>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
struct MemFile : public FileStream
{
    Mem m;
    std::map<std::string, std::string> xattrs;
    length_type read(void* o, offset_type a, length_type n) override { return m.read(o, a, n); }
    void write(const void* i, offset_type a, length_type n) override { m.write(i, a, n); }
    length_type size() const override { return m.sz; }
    void flush() override { m.flush(); }
    void resize(length_type n) override { m.resize(n); }
    bool is_sparse() const noexcept override { return true; }
    void fsync() override {}
    void utimens(const fuse_timespec*) override {}
    void fstat(fuse_stat* st) const override
    {
        memset(st, 0, sizeof(*st));
        st->st_mode = S_IFREG | 0600;
        st->st_size = m.sz;
        st->st_nlink = 1;
    }
    void close() noexcept override {}
    ssize_t listxattr(char* b, size_t n) override
    {
        std::string all;
        for (auto& p : xattrs)
            all += p.first + std::string(1, '\0');
        if (n)
        {
            if (n < all.size())
                throwVFSException(ERANGE);
            memcpy(b, all.data(), all.size());
        }
        return all.size();
    }
    ssize_t getxattr(const char* name, void* b, size_t n) override
    {
        auto it = xattrs.find(name);
        if (it == xattrs.end())
            throwVFSException(ENODATA);
        if (n)
        {
            if (n < it->second.size())
                throwVFSException(ERANGE);
            memcpy(b, it->second.data(), it->second.size());
        }
        return it->second.size();
    }
    void setxattr(const char* name, void* v, size_t n, int flags) override
    {
        if ((flags & 1) && xattrs.count(name))
            throwVFSException(EEXIST);
        if ((flags & 2) && !xattrs.count(name))
            throwVFSException(ENODATA);
        xattrs[name].assign((char*)v, n);
    }
    void removexattr(const char* name) override
    {
        if (!xattrs.erase(name))
            throwVFSException(ENODATA);
    }
    void lock(bool) override {}
    void unlock() noexcept override {}
    length_type sequential_read(void*, length_type) override { return 0; }
    void sequential_write(const void*, length_type) override {}
};
using namespace securefs::full_format;
// how a file object is built
struct Par
{
    key_type key{5};
    unsigned bs = 4096, ivs = 12, pad = 0;
    bool store = true, check = true;
    template <class T, class... A>
    std::unique_ptr<T> make(const id_type& id, std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, A... first) const
    {
        return std::unique_ptr<T>(new T(first..., d, m, StrongType<key_type, tMasterKey>(key), id, StrongType<bool, tVerify>(check),
                                        StrongType<unsigned, tBlockSize>(bs), StrongType<unsigned, tIvSize>(ivs),
                                        StrongType<unsigned, tMaxPaddingSize>(pad), StrongType<bool, tStoreTimeWithinFs>(store)));
    }
};
struct MemIO : public FileTableIO
{
    std::map<std::string, FileStreamPtrPair> all;
    std::multiset<std::string> gone;
    static std::string key(const id_type& id) { return std::string((const char*)id.data(), id.size()); }
    FileStreamPtrPair open(const id_type& id) override
    {
        auto it = all.find(key(id));
        if (it == all.end())
            throwVFSException(ENOENT);
        return it->second;
    }
    FileStreamPtrPair create(const id_type& id) override
    {
        if (all.count(key(id)))
            throwVFSException(EEXIST);
        return all[key(id)] = {std::make_shared<MemFile>(), std::make_shared<MemFile>()};
    }
    void unlink(const id_type& id) noexcept override
    {
        all.erase(key(id));
        gone.insert(key(id));
    }
};
template <class F>
int rc_of(F f)
{
    try
    {
        return f();
    }
    catch (const ExceptionBase& e)
    {
        return -e.error_number();
    }
    catch (const std::exception&)
    {
        return -EIO;
    }
}
struct Names
{
    std::multiset<std::string> names;
    std::map<std::string, fuse_stat> st;
    static int fill(void* b, const char* name, const fuse_stat* s, fuse_off_t)
    {
        auto* l = (Names*)b;
        l->names.insert(name);
        if (s)
            l->st[name] = *s;
        return 0;
    }
};
inline std::shared_ptr<FileTable> make_table(std::shared_ptr<FileTableIO> io, Par p)
{
    Directory::DirNameComparison cmp{&binary_compare};
    typedef std::shared_ptr<FileStream> S;
    return std::make_shared<FileTable>(
        io, [p](S d, S m, const id_type& id) { return p.make<RegularFile>(id, d, m); },
        [p, cmp](S d, S m, const id_type& id) { return p.make<BtreeDirectory>(id, d, m, cmp); },
        [p](S d, S m, const id_type& id) { return p.make<Symlink>(id, d, m); });
}
// a volume, whatever its format; every call returns the operation's result or the negative error
struct Vol
{
    fuse_context ctx{};
    virtual FuseHighLevelOpsBase& o() = 0;
    Vol()
    {
        ctx.uid = 1001;
        ctx.gid = 1002;
        global_logger.reset();
    }
    virtual ~Vol() {}
    int mkdir(const std::string& p, int m = 0755) { return rc_of([&] { return o().vmkdir(p.c_str(), m, &ctx); }); }
    int rmdir(const std::string& p) { return rc_of([&] { return o().vrmdir(p.c_str(), &ctx); }); }
    int unlink(const std::string& p) { return rc_of([&] { return o().vunlink(p.c_str(), &ctx); }); }
    int rename(const std::string& p, const std::string& q) { return rc_of([&] { return o().vrename(p.c_str(), q.c_str(), &ctx); }); }
    int link(const std::string& p, const std::string& q) { return rc_of([&] { return o().vlink(p.c_str(), q.c_str(), &ctx); }); }
    int symlink(const std::string& to, const std::string& p) { return rc_of([&] { return o().vsymlink(to.c_str(), p.c_str(), &ctx); }); }
    int chmod(const std::string& p, int m) { return rc_of([&] { return o().vchmod(p.c_str(), m, &ctx); }); }
    int chown(const std::string& p, int u, int g) { return rc_of([&] { return o().vchown(p.c_str(), u, g, &ctx); }); }
    int stat(const std::string& p, fuse_stat* st)
    {
        memset(st, 0, sizeof(*st));
        return rc_of([&] { return o().vgetattr(p.c_str(), st, &ctx); });
    }
    int create(const std::string& p, uint64_t* fh, int m = 0644)
    {
        fuse_file_info i{};
        i.flags = O_RDWR | O_CREAT | O_EXCL;
        int r = rc_of([&] { return o().vcreate(p.c_str(), m, &i, &ctx); });
        *fh = i.fh;
        return r;
    }
    int open(const std::string& p, int flags, uint64_t* fh)
    {
        fuse_file_info i{};
        i.flags = flags;
        int r = rc_of([&] { return o().vopen(p.c_str(), &i, &ctx); });
        *fh = i.fh;
        return r;
    }
    int close(uint64_t fh)
    {
        fuse_file_info i{};
        i.fh = fh;
        return rc_of([&] { return o().vrelease("/", &i, &ctx); });
    }
    int write(uint64_t fh, const std::string& d, uint64_t off)
    {
        fuse_file_info i{};
        i.fh = fh;
        return rc_of([&] { return o().vwrite("/", d.data(), d.size(), off, &i, &ctx); });
    }
    int read(uint64_t fh, std::string& d, size_t n, uint64_t off)
    {
        fuse_file_info i{};
        i.fh = fh;
        d.assign(n, '#');
        int r = rc_of([&] { return o().vread("/", &d[0], n, off, &i, &ctx); });
        d.resize(r > 0 ? r : 0);
        return r;
    }
    int put(const std::string& p, const std::string& d = "")
    {
        uint64_t fh = 0;
        int r = create(p, &fh);
        if (r)
            return r;
        if (d.size())
            write(fh, d, 0);
        return close(fh);
    }
    std::string get(const std::string& p)
    {
        uint64_t fh = 0;
        std::string d;
        if (open(p, O_RDONLY, &fh))
            return "<no file>";
        read(fh, d, 1 << 20, 0);
        close(fh);
        return d;
    }
    std::string readlink(const std::string& p, size_t n = 4096)
    {
        std::string b(n, '#');
        int r = rc_of([&] { return o().vreadlink(p.c_str(), &b[0], n, &ctx); });
        if (r)
            return "<error>";
        EXPECT(memchr(b.data(), 0, n));
        return b.c_str();
    }
    Names ls(const std::string& p)
    {
        Names l;
        fuse_file_info i{};
        EXPECT(rc_of([&] { return o().vopendir(p.c_str(), &i, &ctx); }) == 0);
        EXPECT(rc_of([&] { return o().vreaddir(p.c_str(), &l, &Names::fill, 0, &i, &ctx); }) == 0);
        EXPECT(rc_of([&] { return o().vreleasedir(p.c_str(), &i, &ctx); }) == 0);
        l.names.erase(".");
        l.names.erase("..");
        return l;
    }
};
struct Full : Vol
{
    Par par;
    std::shared_ptr<MemIO> io = std::make_shared<MemIO>();
    std::shared_ptr<FileTable> ft;
    std::unique_ptr<full_format::FuseHighLevelOps> ops;
    OwnerOverride over;
    Full() { reopen(); }
    void reopen()
    {
        ops.reset();
        ft.reset();
        ft = make_table(io, par);
        ops.reset(new full_format::FuseHighLevelOps(nullptr, ft, nullptr, over, StrongType<bool, tCaseInsensitive>(false), StrongType<bool, tEnableXattr>(true)));
    }
    FuseHighLevelOpsBase& o() override { return *ops; }
};
struct Lite : Vol
{
    std::string dir;
    unsigned threshold = 128, pad = 0;
    std::string suffix;
    bool plain = false, xattr = false;
    key_type k1{1}, k2{2}, k3{3};
    std::shared_ptr<lite_format::NameTranslator> nt;
    std::unique_ptr<lite_format::FuseHighLevelOps> ops;
    explicit Lite(const std::string& d) : dir(d) {}
    void start()
    {
        ops.reset();
        lite_format::NameNormalizationFlags fl{};
        fl.no_op = plain;
        fl.long_name_threshold = threshold;
        fl.long_name_suffix = suffix;
        nt = lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(k1));
        auto opener = std::shared_ptr<lite_format::StreamOpener>(new lite_format::StreamOpener(
            StrongType<key_type, tContentMasterKey>(k2), StrongType<key_type, tPaddingMasterKey>(k3), StrongType<unsigned, tBlockSize>(4096),
            StrongType<unsigned, tIvSize>(12), StrongType<unsigned, tMaxPaddingSize>(pad), StrongType<bool, tVerify>(true)));
        auto xc = std::make_shared<lite_format::XattrCryptor>(StrongType<key_type, tXattrMasterKey>(k2), StrongType<unsigned, tIvSize>(12),
                                                              StrongType<bool, tVerify>(true));
        ops.reset(new lite_format::FuseHighLevelOps(std::make_shared<OSService>(dir), opener, nt, xc, StrongType<key_type, tXattrMasterKey>(k2),
                                                    StrongType<bool, tEnableXattr>(xattr)));
    }
    FuseHighLevelOpsBase& o() override { return *ops; }
};
