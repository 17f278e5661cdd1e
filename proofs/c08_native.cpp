// C08, bounded part: sequences of metadata operations on real file objects over in-memory files.
#ifndef IRV
#define NAT_RANDOM
#define NAT_CLOCK
#include "nat_file.h"
using namespace nat;
using namespace securefs;
namespace
{
struct Want
{
    uint32_t mode = 0, uid = 0, gid = 0, nlink = 1;
    fuse_timespec a{}, m{}, c{}, b{};
};
bool same(fuse_timespec x, fuse_timespec y) { return x.tv_sec == y.tv_sec && x.tv_nsec == y.tv_nsec; }
uint32_t any32()
{
    static const uint32_t s[] = {0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF};
    return irv_var("special", 0, 1) ? s[irv_var("which", 0, 9)] : irv_rand(1ull << 32);
}
fuse_timespec anytime()
{
    static const int64_t s[] = {0, 1, -1, 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFFll, 0x100000000ll, -0x80000000ll, 0x7FFFFFFFFFFFFFFFll, 1700000000};
    fuse_timespec t;
    t.tv_sec = s[irv_var("sec", 0, 9)];
    t.tv_nsec = irv_var("nsec", 0, 2) ? irv_rand(1000000000) : 999999999;
    return t;
}
}    // namespace
BOUNDED(C08_history)
{
    auto d = std::make_shared<MemFile>(), mt = std::make_shared<MemFile>();
    FileParams fp;
    fp.store = irv_var("store_time", 0, 1);
    fp.bs = irv_var("block_size", 32, 300);
    fp.maxpad = irv_var("padded", 0, 1) ? irv_var("maxpad", 1, 40) : 0;
    zero_draws() = 0;
    the_time() = fuse_timespec{1700000000, 1};
    Want w;
    Model content;
    auto f = fp.make<RegularFile>(d, mt);
    w.mode = S_IFREG | (any32() & 07777);
    w.uid = any32();
    w.gid = any32();
    fuse_timespec now = the_time();
    f->initialize_empty(w.mode, w.uid, w.gid);
    if (w.uid == 0xFFFFFFFF)
        w.uid = OSService::getuid();
    if (w.gid == 0xFFFFFFFF)
        w.gid = OSService::getgid();
    if (fp.store)
        w.a = w.m = w.c = w.b = now;
    unsigned ops = irv_var("ops", 1, 14);
    for (unsigned k = 0; k < ops; ++k)
    {
        the_time().tv_sec += 1 + irv_rand(5);
        now = the_time();
        bool ctime = false;
        uint32_t v = any32();
        fuse_timespec ts[2] = {anytime(), anytime()};
        uint64_t off = irv_rand(400), len = irv_rand(200);
        switch (irv_var("op", 0, 12))
        {
        case 0:
            v = (w.mode & S_IFMT) | (v & 07777);
            f->set_mode(v);
            ctime = v != w.mode;
            w.mode = v;
            break;
        case 1:
            f->set_uid(v);
            ctime = v != w.uid;
            w.uid = v;
            break;
        case 2:
            f->set_gid(v);
            ctime = v != w.gid;
            w.gid = v;
            break;
        case 3:
            f->set_nlink(v);
            ctime = v != w.nlink;
            w.nlink = v;
            break;
        case 4:
            f->unlink();
            w.nlink -= 1;
            break;
        case 5:
        {
            bool given = irv_var("given", 0, 2);
            f->utimens(given ? ts : nullptr);
            if (fp.store)
            {
                fuse_timespec c = f->get_ctime();
                check(!(c.tv_sec < now.tv_sec) && c.tv_sec <= the_time().tv_sec, "setting times makes the change time now");
                check(given ? same(f->get_atime(), ts[0]) : f->get_atime().tv_sec == now.tv_sec, "access time set");
                check(given ? same(f->get_mtime(), ts[1]) : f->get_mtime().tv_sec == now.tv_sec, "modification time set");
                w.a = f->get_atime();
                w.m = f->get_mtime();
                w.c = c;
            }
            else
            {
                check(same(d->at, given ? ts[0] : fuse_timespec{77, 7}) && same(d->mt, given ? ts[1] : fuse_timespec{77, 7}),
                      "the times are kept by the data file");
            }
            break;
        }
        case 6:
        case 7:
            f->flush();
            f.reset();
            if (irv_var("checkoff", 0, 3) == 0)
                fp.check = !fp.check;
            f = fp.make<RegularFile>(d, mt);
            break;
        case 8:
        {
            Bytes b = bytes(len);
            f->write(b.data(), off, len);
            content.write(b, off);
            if (fp.store)
                w.m = w.c = now;
            break;
        }
        case 9:
            f->truncate(off);
            content.resize(off);
            if (fp.store)
                w.m = w.c = now;
            break;
        case 10:
        {
            bool old = w.a.tv_sec < w.m.tv_sec || w.a.tv_sec < w.c.tv_sec;
            compare(*f->m_stream, content, off, len, "content");
            Bytes o(len + 1);
            f->read(o.data(), off, len);
            if (fp.store && old)
                w.a = now;
            break;
        }
        case 11:
            if (fp.store)
            {
                f->set_atime(ts[0]);
                w.a = ts[0];
                if (irv_var("both", 0, 1))
                {
                    f->set_mtime(ts[1]);
                    w.m = ts[1];
                }
                else
                {
                    f->set_ctime(ts[1]);
                    w.c = ts[1];
                }
            }
            break;
        default:
            f->flush();
        }
        if (ctime && fp.store)
            w.c = now;
        check(f->get_mode() == w.mode && f->get_uid() == w.uid && f->get_gid() == w.gid && f->get_nlink() == w.nlink,
              "mode, owner, group and links are those last set");
        check(f->get_real_type() == (int)FileBase::REGULAR_FILE, "type");
        check(f->is_unlinked() == (w.nlink == 0), "unlinked exactly when no link is left");
        if (fp.store)
        {
            check(same(f->get_atime(), w.a), "access time");
            check(same(f->get_mtime(), w.m), "modification time");
            check(same(f->get_ctime(), w.c), "change time");
            check(same(f->get_birthtime(), w.b), "birth time");
        }
        fuse_stat st;
        f->stat(&st);
        check(st.st_mode == w.mode && st.st_uid == w.uid && st.st_gid == w.gid && st.st_nlink == w.nlink, "stat: mode, owner, group, links");
        check((uint64_t)st.st_size == content.sz, "stat: size");
        if (fp.store)
            check(same(st.st_atim, w.a) && same(st.st_mtim, w.m) && same(st.st_ctim, w.c), "stat: times");
        else
            check(same(st.st_atim, d->at) && same(st.st_mtim, d->mt) && same(st.st_ctim, d->ct), "stat: times of the data file");
        uint64_t ino = 0;
        for (int i = 7; i >= 0; --i)
            ino = ino << 8 | fp.id.data()[i];
        check(st.st_ino == ~ino, "stat: inode number");
    }
    irv_cover("history");
}
template <class T>
static int casts(FileBase& f)
{
    try
    {
        f.cast_as<T>();
        return 0;
    }
    catch (const InvalidCastException&)
    {
        return 1;
    }
    catch (const ExceptionBase&)
    {
        return 2;
    }
}
BOUNDED(C08_types)
{
    FileParams fp;
    static const uint32_t modes[] = {S_IFREG, S_IFLNK, S_IFDIR, S_IFIFO, S_IFCHR, S_IFSOCK, 0};
    auto d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    uint32_t mode = modes[irv_var("mode", 0, 6)] | irv_rand(01000);
    {
        auto f = fp.make<RegularFile>(d, m);
        f->initialize_empty(mode, 1, 2);
        f->flush();
    }
    bool link = irv_var("link", 0, 1);
    std::unique_ptr<FileBase> f;
    if (link)
        f = fp.make<Symlink>(d, m);
    else
        f = fp.make<RegularFile>(d, m);
    check(f->get_real_type() == (int)((mode & S_IFMT) >> 12), "the stored type is that of the mode");
    bool match = (mode & S_IFMT) == (link ? S_IFLNK : S_IFREG);
    check(casts<RegularFile>(*f) == (!match ? 2 : link ? 1 : 0), "use as a regular file");
    check(casts<Symlink>(*f) == (!match ? 2 : link ? 0 : 1), "use as a symbolic link");
    check(casts<Directory>(*f) == (!match ? 2 : 1), "use as a directory");
    irv_cover("types");
}
BOUNDED(C08_link_target)
{
    FileParams fp;
    fp.bs = irv_var("block_size", 32, 300);
    fp.maxpad = irv_var("padded", 0, 1) ? irv_var("maxpad", 1, 40) : 0;
    auto d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::string t(irv_var("len", 0, 700), 0);
    for (auto& c : t)
        c = irv_rand(256);
    {
        auto f = fp.make<Symlink>(d, m);
        f->initialize_empty(S_IFLNK | 0777, 1, 2);
        f->set(t);
        check(f->get() == t, "the target reads back");
        f->flush();
    }
    auto f = fp.make<Symlink>(d, m);
    check(f->get() == t, "the target reads back after reopening");
    irv_cover("target");
}
// the header's place and layout: mode, owner, group, links, pages, times as little-endian numbers
BOUNDED(C08_layout)
{
    FileParams fp;
    fp.store = irv_var("store_time", 0, 1);
    auto d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    std::vector<uint32_t> v{(uint32_t)(S_IFREG | irv_rand(4096)), any32(), any32(), any32(), any32(), any32(), any32()};
    fuse_timespec a = anytime(), mm = anytime(), c = anytime(), b;
    {
        auto f = fp.make<RegularFile>(d, m);
        f->initialize_empty(v[0], 1, 2);
        f->set_uid(v[1]);
        f->set_gid(v[2]);
        f->set_nlink(v[3]);
        f->set_root_page(v[4]);
        f->set_start_free_page(v[5]);
        f->set_num_free_page(v[6]);
        f->set_atime(a);
        f->set_mtime(mm);
        f->set_ctime(c);
        b = f->get_birthtime();
        f->flush();
    }
    // decode through the stream, with the keys derived as documented
    byte gen[96];
    hkdf(fp.key.data(), 32, nullptr, 0, fp.id.data(), 32, gen, 96);
    key_type dk, mk;
    memcpy(dk.data(), gen, 32);
    memcpy(mk.data(), gen + 32, 32);
    auto p = make_cryptstream_aes_gcm(d, m, dk, mk, fp.id, true, fp.bs, fp.ivs, fp.store ? 80 : 32);
    byte h[80];
    check(p.second->read_header(h, fp.store ? 80 : 32), "a header is stored");
    auto u32 = [&](int o) { return h[o] | h[o + 1] << 8 | h[o + 2] << 16 | (uint32_t)h[o + 3] << 24; };
    auto u64 = [&](int o) { return u32(o) | (uint64_t)u32(o + 4) << 32; };
    for (int i = 0; i < 7; ++i)
        check(u32(4 * i) == v[i], "mode, owner, group, links, pages");
    p.second.reset();
    p.first.reset();
    auto again = fp.make<RegularFile>(d, m);
    check(again->get_root_page() == v[4] && again->get_start_free_page() == v[5] && again->get_num_free_page() == v[6],
          "the pages read back");
    if (fp.store)
    {
        fuse_timespec t[4] = {a, mm, c, b};
        for (int i = 0; i < 4; ++i)
            check(u64(28 + 12 * i) == (uint64_t)t[i].tv_sec && u32(36 + 12 * i) == (uint32_t)t[i].tv_nsec, "times");
    }
    irv_cover("layout");
}
#endif
