// An in-memory file (the file under the code under test), for the natively run harnesses.
#pragma once
#ifndef IRV
#include "nat.h"
#include "files.h"
#include "platform.h"
#include <cerrno>
namespace nat
{
struct MemFile : public securefs::FileStream
{
    MemStream m;
    std::map<std::string, Bytes> xattrs;
    fuse_timespec at{11, 1}, mt{12, 2}, ct{13, 3};
    int syncs = 0, locks = 0;
    bool fail = false;
    void io() const
    {
        if (fail)
            securefs::throwVFSException(EIO);
    }
    securefs::length_type read(void* o, securefs::offset_type a, securefs::length_type n) override
    {
        io();
        return m.read(o, a, n);
    }
    void write(const void* i, securefs::offset_type a, securefs::length_type n) override
    {
        io();
        m.write(i, a, n);
    }
    securefs::length_type size() const override { return m.sz; }
    void flush() override { m.flush(); }
    void resize(securefs::length_type n) override
    {
        io();
        m.resize(n);
    }
    bool is_sparse() const noexcept override { return m.sparse; }
    void fsync() override { ++syncs; }
    void utimens(const fuse_timespec ts[2]) override
    {
        if (ts)
        {
            at = ts[0];
            mt = ts[1];
        }
        else
            at = mt = fuse_timespec{77, 7};
    }
    void fstat(fuse_stat* st) const override
    {
        memset(st, 0, sizeof(*st));
        st->st_mode = S_IFREG | 0600;
        st->st_size = m.sz;
        st->st_uid = 1;
        st->st_gid = 2;
        st->st_nlink = 1;
        st->st_ino = 5;
        st->st_blksize = 512;
        st->st_atim = at;
        st->st_mtim = mt;
        st->st_ctim = ct;
    }
    void close() noexcept override {}
    ssize_t listxattr(char* b, size_t n) override
    {
        size_t need = 0;
        for (auto& p : xattrs)
            need += p.first.size() + 1;
        if (!b || !n)
            return need;
        if (n < need)
            securefs::throwVFSException(ERANGE);
        for (auto& p : xattrs)
        {
            memcpy(b, p.first.c_str(), p.first.size() + 1);
            b += p.first.size() + 1;
        }
        return need;
    }
    ssize_t getxattr(const char* name, void* b, size_t n) override
    {
        auto it = xattrs.find(name);
        if (it == xattrs.end())
            securefs::throwVFSException(ENODATA);
        if (!n)
            return it->second.size();
        if (n < it->second.size())
            securefs::throwVFSException(ERANGE);
        memcpy(b, it->second.data(), it->second.size());
        return it->second.size();
    }
    void setxattr(const char* name, void* v, size_t n, int flags) override
    {
        bool there = xattrs.count(name) != 0;
        if ((flags & 1) && there)    // XATTR_CREATE
            securefs::throwVFSException(EEXIST);
        if ((flags & 2) && !there)    // XATTR_REPLACE
            securefs::throwVFSException(ENODATA);
        xattrs[name].assign((unsigned char*)v, (unsigned char*)v + n);
    }
    void removexattr(const char* name) override
    {
        if (!xattrs.erase(name))
            securefs::throwVFSException(ENODATA);
    }
    void lock(bool) override { ++locks; }
    void unlock() noexcept override { --locks; }
    securefs::length_type sequential_read(void*, securefs::length_type) override { return 0; }
    void sequential_write(const void*, securefs::length_type) override {}
};
// a controllable clock
inline fuse_timespec& the_time()
{
    static fuse_timespec t{1000, 0};
    return t;
}
struct FileParams
{
    securefs::key_type key;
    securefs::id_type id;
    unsigned bs = 4096, ivs = 12, maxpad = 0;
    bool store = true, check = true;
    FileParams()
    {
        for (int i = 0; i < 32; ++i)
        {
            key.data()[i] = irv_rand(256);
            id.data()[i] = irv_rand(256);
        }
    }
    template <class T, class... A>
    std::unique_ptr<T> make(std::shared_ptr<securefs::FileStream> d, std::shared_ptr<securefs::FileStream> m, A... first) const
    {
        using namespace securefs;
        return std::unique_ptr<T>(new T(first..., d, m, StrongType<key_type, tMasterKey>(key), id, StrongType<bool, tVerify>(check),
                                        StrongType<unsigned, tBlockSize>(bs), StrongType<unsigned, tIvSize>(ivs),
                                        StrongType<unsigned, tMaxPaddingSize>(maxpad),
                                        StrongType<bool, tStoreTimeWithinFs>(store)));
    }
};
}    // namespace nat
#ifdef NAT_CLOCK
void securefs::OSService::get_current_time(fuse_timespec& t)
{
    t = nat::the_time();
    nat::the_time().tv_nsec += 1;
}
#endif
#endif
