// C15, bounded part: the real calls in a scratch directory (as an unprivileged user).
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
#include "lock_enabled.h"
#include "platform.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
using namespace nat;
using namespace securefs;
namespace
{
std::string word()
{
    static const char* parts[] = {"/", "/", "a", "b", "..", ".", "C:", "\\", "//", " ", "\xc3\xa9", "usr", "\n"};
    std::string r;
    for (int i = irv_rand(irv_rand(10) ? 5 : 60); i > 0; --i)
        r += parts[irv_rand(13)];
    return r;
}
std::string oracle(const std::string& base, const std::string& p)
{
    if (base.empty() || (!p.empty() && p[0] == '/'))
        return p;
    std::string r = base;
    if (r[r.size() - 1] != '/')
        r += '/';
    for (char c : p)
        r += c;
    return r;
}
template <class F>
int run(F f)
{
    try
    {
        f();
        return 0;
    }
    catch (const ExceptionBase& e)
    {
        return e.error_number();
    }
}
void wipe(const std::string& d)
{
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
            {
                chmod(p.c_str(), 0700);
                wipe(p);
                rmdir(p.c_str());
            }
            else
                unlink(p.c_str());
        }
        closedir(h);
    }
}
// names, types, modes, contents
void snap(const std::string& d, const std::string& rel, std::map<std::string, std::string>& out)
{
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name, p = d + "/" + n;
            if (n == "." || n == "..")
                continue;
            struct stat st;
            check(lstat(p.c_str(), &st) == 0, "harness: lstat");
            std::string v = std::to_string(st.st_mode) + " " + (S_ISDIR(st.st_mode) ? "" : std::to_string(st.st_nlink)) + " ";
            if (S_ISLNK(st.st_mode))
            {
                char b[500];
                v += std::string(b, readlink(p.c_str(), b, 500));
            }
            if (S_ISREG(st.st_mode))
            {
                int fd = ::open(p.c_str(), O_RDONLY);
                char b[500];
                ssize_t k = fd < 0 ? 0 : ::read(fd, b, 500);
                v += std::to_string(st.st_size) + " " + std::string(b, k < 0 ? 0 : k);
                ::close(fd);
            }
            v += " " + std::to_string(st.st_uid) + " " + std::to_string(st.st_gid);
            v += " " + std::to_string(st.st_mtim.tv_sec == 12345 ? 1 : 0);
            out[rel + n] = v;
            if (S_ISDIR(st.st_mode))
                snap(p, rel + n + "/", out);
        }
        closedir(h);
    }
}
}    // namespace
BOUNDED(C15_text)
{
    std::string b = word(), p = word();
    if (irv_rand(2))
        b = "/" + b;
    check(OSService::is_absolute(p) == (!p.empty() && p[0] == '/'), "absolute paths");
    bool bad = !b.empty() && b[0] != '/' && !(!p.empty() && p[0] == '/'), thrown = false;
    std::string r, q;
    try
    {
        r = OSService::concat_and_norm(b, p);
        q = OSService::concat_and_norm_narrowed(b, p);
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    check(thrown == bad, "the directory must be absolute");
    check(bad || (r == oracle(b, p) && q == r), "directory, separator, path");
    irv_cover("compared");
}
// the same random operations through the service on one directory and directly on another one
BOUNDED(C15_calls)
{
    std::string s = irv_private();
    wipe(s);
    std::string A = s + "/A", B = s + "/B", O = s + "/out";
    check(!::mkdir(A.c_str(), 0700) && !::mkdir(B.c_str(), 0700) && !::mkdir(O.c_str(), 0700), "harness: mkdir");
    std::string keep = O + "/keep";
    ::close(::open(keep.c_str(), O_CREAT | O_WRONLY, 0640));
    check(::symlink(A.c_str(), (s + "/L").c_str()) == 0, "harness: symlink");
    static const char* forms[] = {"/A", "/A/", "/./A", "/out/../A", "/L"};
    set_lock_enabled(irv_rand(2));
    OSService os(s + forms[irv_rand(5)]);
    char real[5000];
    check(::realpath(A.c_str(), real) != nullptr, "harness: realpath");
    check(os.norm_path_narrowed("x") == std::string(real) + "/x", "below the resolved root");
    check(os.norm_path_narrowed("/x") == "/x", "absolute paths as they are");
    auto name = [&]
    {
        static const char* n[] = {"a", "b", "d", "d/a", "d/b", "e", "e/a", "a-name-that-is-longer-than-others", ".", "d/../b"};
        return std::string(n[irv_rand(10)]);
    };
    for (int step = 0; step < 30; ++step)
    {
        std::string p = name(), q = name(), b = B + "/" + p, c = B + "/" + q;
        int e = 0, rc = 0;
        switch (irv_rand(16))
        {
        case 0:
        {
            int flags = (irv_rand(2) ? O_CREAT : 0) | (irv_rand(4) ? 0 : O_EXCL) | (irv_rand(4) ? 0 : O_TRUNC) | O_RDWR;
            unsigned mode = irv_rand(2) ? 0644 : 0600;
            Bytes data = bytes(irv_rand(60));
            uint64_t off = irv_rand(100), cut = irv_rand(120);
            bool trunc = irv_rand(2), set = irv_rand(2);
            timespec ts[2] = {{12345, 0}, {12345, 0}};
            e = run(
                [&]
                {
                    auto f = os.open_file_stream(p, flags, mode);
                    f->lock(true);
                    f->write(data.data(), off, data.size());
                    if (trunc)
                        f->resize(cut);
                    uint64_t n = f->size();
                    check(n == (trunc ? cut : n), "the size");
                    Bytes back(300), want(300);
                    uint64_t got = f->read(back.data(), 5, 200);
                    check(got == (n > 5 ? n - 5 : 0), "bytes read");
                    int fd = ::open((A + "/" + p).c_str(), O_RDONLY);
                    check(::pread(fd, want.data(), 200, 5) == (ssize_t)got && want == back, "the bytes of the file");
                    ::close(fd);
                    f->fsync();
                    f->flush();
                    if (set)
                        f->utimens(ts);
                    fuse_stat st;
                    f->fstat(&st);
                    check((uint64_t)st.st_size == n, "the size");
                    f->unlock();
                });
            int fd = ::open(b.c_str(), flags, mode);
            rc = fd;
            if (fd >= 0)
            {
                check(::pwrite(fd, data.data(), data.size(), off) == (ssize_t)data.size(), "harness");
                if (trunc)
                    ::ftruncate(fd, cut);
                if (set)
                    ::futimens(fd, ts);
                ::close(fd);
            }
            break;
        }
        case 1:
            e = run([&] { os.remove_file(p); });
            rc = ::unlink(b.c_str());
            break;
        case 2:
            e = run([&] { os.remove_directory(p); });
            rc = ::rmdir(b.c_str());
            break;
        case 3:
        {
            bool d = irv_rand(2);
            bool ok = d ? os.remove_directory_nothrow(p) : os.remove_file_nothrow(p);
            rc = d ? ::rmdir(b.c_str()) : ::unlink(b.c_str());
            check(ok == (rc == 0), "the outcome");
            rc = 0;
            break;
        }
        case 4:
            e = run([&] { os.mkdir(p, 0750); });
            rc = ::mkdir(b.c_str(), 0750);
            break;
        case 5:
            e = run([&] { os.ensure_directory(p, 0750); });
            rc = ::mkdir(b.c_str(), 0750);
            if (rc < 0 && errno == EEXIST)
                rc = 0;
            break;
        case 6:
        {
            std::string to = irv_rand(2) ? "nowhere" : irv_rand(2) ? std::string(irv_rand(300), 't') : "a";
            if (to.empty())
                to = "t";
            e = run([&] { os.symlink(to, p); });
            rc = ::symlink(to.c_str(), b.c_str());
            break;
        }
        case 7:
            e = run([&] { os.link(p, q); });
            rc = ::link(b.c_str(), c.c_str());
            break;
        case 8:
        case 9:
            e = run([&] { os.rename(p, q); });
            rc = ::rename(b.c_str(), c.c_str());
            break;
        case 10:
        {
            unsigned mode = 0700 | irv_rand(64);
            struct stat st;
            bool link = !::lstat(b.c_str(), &st) && S_ISLNK(st.st_mode);
            if (link)
                break;    // the mode of a link cannot be set
            e = run([&] { os.chmod(p, mode); });
            rc = ::chmod(b.c_str(), mode);
            break;
        }
        case 11:
        {
            timespec ts[2] = {{12345, 7}, {12345, 9}};
            if (irv_rand(3) == 0)
                ts[1].tv_nsec = irv_rand(2) ? UTIME_NOW : UTIME_OMIT;
            const timespec* t = irv_rand(3) ? ts : nullptr;
            e = run([&] { os.utimens(p, t); });
            rc = ::utimensat(AT_FDCWD, b.c_str(), t, AT_SYMLINK_NOFOLLOW);
            break;
        }
        case 15:
        {
            // as the user it is or as root: with any ids
            unsigned u = irv_rand(3) ? 1000 + irv_rand(3) : -1, g = irv_rand(3) ? 2000 + irv_rand(3) : -1;
            e = run([&] { os.chown(p, u, g); });
            rc = ::lchown(b.c_str(), u, g);
            break;
        }
        case 12:
        {
            fuse_stat x;
            struct stat y;
            bool found = false;
            e = run([&] { found = os.stat(p, &x); });
            rc = ::lstat(b.c_str(), &y);
            if (rc < 0 && errno == ENOENT)
            {
                check(!e && !found, "a missing file is told apart");
                rc = 0;
            }
            else if (rc == 0)
                check(!e && found && x.st_mode == y.st_mode && (S_ISDIR(x.st_mode) || x.st_size == y.st_size), "attributes");
            break;
        }
        case 13:
        {
            char x[600], y[600];
            memset(x, 1, 600);
            memset(y, 1, 600);
            size_t n = irv_rand(400) + 1;
            ssize_t got = 0;
            e = run([&] { got = os.readlink(p, x, n); });
            rc = ::readlink(b.c_str(), y, n);
            check(rc < 0 || (got == rc && !memcmp(x, y, 600)), "the target");
            break;
        }
        default:
        {
            std::set<std::string> x, y;
            std::map<std::string, unsigned> types;
            e = run(
                [&]
                {
                    auto t = os.create_traverser(p);
                    for (int pass = 0; pass < 2; ++pass)
                    {
                        x.clear();
                        std::string n;
                        fuse_stat st;
                        while (t->next(&n, &st))
                        {
                            check(x.insert(n).second, "each entry once");
                            struct stat w;
                            check(!::lstat((A + "/" + p + "/" + n).c_str(), &w) && (w.st_mode & S_IFMT) == (st.st_mode & S_IFMT) && w.st_ino == st.st_ino,
                                  "type and inode");
                        }
                        t->rewind();
                    }
                });
            DIR* d = ::opendir(b.c_str());
            rc = d ? 0 : -1;
            if (d)
            {
                while (dirent* en = ::readdir(d))
                    y.insert(en->d_name);
                ::closedir(d);
                check(x == y, "all entries");
            }
            else
            {
                check(e == errno, "a failure is reported with its number");
                e = 0, rc = 0;
            }
        }
        }
        int want = rc < 0 ? errno : 0;
        check(e == want, "a failure is reported with its number: " + std::to_string(e) + " instead of " + std::to_string(want));
        std::map<std::string, std::string> x, y, z;
        snap(A, "", x);
        snap(B, "", y);
        snap(O, "", z);
        check(x == y, "the effect of the calls");
        check(z.size() == 1 && z.count("keep"), "nothing outside the root changes");
    }
    wipe(s);
    irv_cover("compared");
}
BOUNDED(C15_xattrs)
{
    std::string s = irv_private();
    wipe(s);
    OSService os(s);
    ::close(::open((s + "/f").c_str(), O_CREAT | O_WRONLY, 0600));
    ::symlink("f", (s + "/l").c_str());
    for (int i = 0; i < 10; ++i)
    {
        const char* f = irv_rand(3) ? "f" : irv_rand(2) ? "l" : "missing";
        std::string full = s + "/" + f, name = irv_rand(5) ? irv_rand(2) ? "user.a" : "user.b" : "bad";
        char v[100], w[100];
        memset(v, 7, 100);
        memset(w, 7, 100);
        size_t n = irv_rand(100);
        auto eq = [](ssize_t a, ssize_t b)
        {
            int e = errno;
            check(a == (b < 0 ? -e : b), "the result or the number of the failure");
        };
        auto flags = [] { return irv_rand(3) ? 0 : irv_rand(2) ? XATTR_CREATE : XATTR_REPLACE; };
        switch (irv_rand(4))
        {
        case 0:
        {
            int fl = flags();
            ssize_t old = ::lgetxattr(full.c_str(), name.c_str(), w, 100);
            std::string before(w, old > 0 ? old : 0);
            int r = os.setxattr(f, name.c_str(), v, n, fl);
            ssize_t now = ::lgetxattr(full.c_str(), name.c_str(), w, 100);
            check(r < 0 ? now == old : now == (ssize_t)n && !memcmp(v, w, n), "the value is set");
            check(r >= 0 || (r != -EPERM || *f == 'l') , "may be set");
            if (old >= 0 && fl == XATTR_CREATE)
                check(r == -EEXIST, "exists already");
            if (old < 0 && fl == XATTR_REPLACE && r < 0 && *f == 'f' && name != "bad")
                check(r == -ENODATA, "does not exist");
            break;
        }
        case 1:
        {
            ssize_t a = os.getxattr(f, name.c_str(), v, n);
            eq(a, ::lgetxattr(full.c_str(), name.c_str(), w, n));
            check(!memcmp(v, w, 100), "the value");
            break;
        }
        case 2:
        {
            ssize_t a = os.listxattr(f, v, n);
            eq(a, ::llistxattr(full.c_str(), w, n));
            check(!memcmp(v, w, 100), "the names");
            break;
        }
        default:
        {
            bool had = ::lgetxattr(full.c_str(), name.c_str(), w, 100) >= 0;
            int r = os.removexattr(f, name.c_str());
            check((r == 0) == had && ::lgetxattr(full.c_str(), name.c_str(), w, 100) < 0, "removed");
        }
        }
    }
    wipe(s);
    irv_cover("compared");
}
#endif
