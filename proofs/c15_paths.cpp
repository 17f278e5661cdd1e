// C15: paths and the calls to the operating system.
// irv: contract ^realpath$ => c_realpath
// irv: contract ^open(64)?$ => c_open
// irv: contract ^openat(64)?$ => c_openat
// irv: contract ^close$ => c_close
// irv: contract ^unlinkat$ => c_unlinkat
// irv: contract ^mkdirat$ => c_mkdirat
// irv: contract ^symlinkat$ => c_symlinkat
// irv: contract ^linkat$ => c_linkat
// irv: contract ^renameat$ => c_renameat
// irv: contract ^fstatat(64)?$ => c_fstatat
// irv: contract ^fchmodat$ => c_fchmodat
// irv: contract ^fchownat$ => c_fchownat
// irv: contract ^readlinkat$ => c_readlinkat
// irv: contract ^utimensat$ => c_utimensat
// irv: contract ^fstatvfs(64)?$ => c_fstatvfs
// irv: contract ^flock$ => c_flock
// irv: contract ^fsync$ => c_fsync
// irv: contract ^fstat(64)?$ => c_fstat
// irv: contract ^pread(64)?$ => c_pread
// irv: contract ^read$ => c_read
// irv: contract ^pwrite(64)?$ => c_pwrite
// irv: contract ^write$ => c_write
// irv: contract ^ftruncate(64)?$ => c_ftruncate
// irv: contract ^futimens$ => c_futimens
// irv: contract ^fremovexattr$ => c_fremovexattr
// irv: contract ^fgetxattr$ => c_fgetxattr
// irv: contract ^flistxattr$ => c_flistxattr
// irv: contract ^fsetxattr$ => c_fsetxattr
// irv: contract ^lremovexattr$ => c_lremovexattr
// irv: contract ^lgetxattr$ => c_lgetxattr
// irv: contract ^llistxattr$ => c_llistxattr
// irv: contract ^lsetxattr$ => c_lsetxattr
// irv: contract ^opendir$ => c_opendir
// irv: contract ^closedir$ => c_closedir
// irv: contract ^readdir(64)?$ => c_readdir
// irv: contract ^rewinddir$ => c_rewinddir
// irv: contract ^securefs::is_lock_enabled\( => c_lock_enabled
// irv: assumes the system calls do what POSIX says; realpath gives an absolute path
#include "irv.h"
#ifdef IRV
#include "nolog.h"
#include "platform.h"
#define private public
#define protected public
#include "unix.cpp"
#undef private
#undef protected
#include <cerrno>
using namespace securefs;
namespace securefs
{
DirectoryTraverser::~DirectoryTraverser() = default;
ssize_t FileStream::getxattr(const char*, void*, size_t) { throw VFSException(ENOTSUP); }
void FileStream::setxattr(const char*, void*, size_t, int) { throw VFSException(ENOTSUP); }
ssize_t FileStream::listxattr(char*, size_t) { throw VFSException(ENOTSUP); }
void FileStream::removexattr(const char*) { throw VFSException(ENOTSUP); }
}
enum Call
{
    NOTHING, REALPATH, OPEN, UNLINK, RMDIR, MKDIR, SYMLINK, LINK, RENAME, STAT, CHMOD, CHOWN, READLINK, UTIMENS, STATVFS, FLOCK, FSYNC,
    FSTAT, PREAD, READ, PWRITE, WRITE, TRUNCATE, FREMOVEX, FGETX, FLISTX, FSETX, OPENDIR
};
static struct
{
    uint64_t x;
    char *p[2], *root;
    uint64_t n[2], rootn;
    int fd, calls, call, err, closed, other;
    int64_t rc;
    uint64_t a, b;        // expected values
    const void* ptr;
    bool again, locks, absolute;
    struct dirent* entry;
    int ended;
} X;
static bool is(const char* s, const char* t, uint64_t n) { return X.x > n || s[X.x] == (X.x == n ? 0 : t[X.x]); }
static int64_t answer(int call)
{
    irv_assert(call == X.call, "the call that the operation stands for");
    irv_assert(X.calls++ == 0 || X.again, "one call");
    int64_t rc = X.rc;
    if (irv_split(rc < 0))
        errno = X.err;
    return rc;
}
static void at(int fd, const char* path, int which = 0)
{
    irv_assert(fd == X.fd, "relative to the root directory");
    irv_assert(is(path, X.p[which], X.n[which]), "the path that was given");
}
// an absolute path: root, separator, path
static void below(const char* s)
{
    uint64_t l = X.rootn + 1, n = l + X.n[0];
    irv_assert(X.x > n || s[X.x] == (X.x < X.rootn ? X.root[X.x] : X.x == X.rootn ? '/' : X.x == n ? 0 : X.p[0][X.x - l]), "the path below the root directory");
}
static void on(int fd) { irv_assert(fd == X.fd, "the file that was opened"); }
extern "C"
{
    bool c_lock_enabled() { return X.locks; }
    char* c_realpath(const char* path, char* out)
    {
        irv_assert(is(path, X.p[0], X.n[0]), "the path that was given");
        irv_assert(X.call == REALPATH && !X.calls++, "resolved once");
        if (irv_split(X.rc < 0))
        {
            errno = X.err;
            return nullptr;
        }
        memcpy(out, X.root, X.rootn);
        out[X.rootn] = 0;
        return out;
    }
    int c_open(const char* path, int flags, int)
    {
        irv_assert(is(path, X.p[0], X.n[0]) && (flags & (O_ACCMODE | O_CREAT | O_TRUNC)) == O_RDONLY, "the directory is opened");
        X.call = OPEN;
        X.calls = 0;
        X.rc = X.a;
        return answer(OPEN);
    }
    int c_openat(int fd, const char* path, int flags, unsigned mode)
    {
        at(fd, path);
        irv_assert((uint64_t)(uint32_t)flags == X.a && (!(flags & O_CREAT) || mode == X.b), "flags and mode");
        return answer(OPEN);
    }
    int c_close(int fd)
    {
        on(fd);
        ++X.closed;
        return 0;
    }
    int c_unlinkat(int fd, const char* path, int flags)
    {
        at(fd, path);
        irv_assert(flags == 0 || flags == AT_REMOVEDIR, "flags");
        return answer(flags ? RMDIR : UNLINK);
    }
    int c_mkdirat(int fd, const char* path, mode_t mode)
    {
        at(fd, path);
        irv_assert(mode == X.a, "mode");
        return answer(MKDIR);
    }
    int c_symlinkat(const char* to, int fd, const char* from)
    {
        at(fd, from, 1);
        irv_assert(is(to, X.p[0], X.n[0]), "the target is stored as it is");
        return answer(SYMLINK);
    }
    int c_linkat(int fd, const char* a, int fd2, const char* b, int flags)
    {
        at(fd, a, 0);
        at(fd2, b, 1);
        irv_assert(flags == 0, "flags");
        return answer(LINK);
    }
    int c_renameat(int fd, const char* a, int fd2, const char* b)
    {
        at(fd, a, 0);
        at(fd2, b, 1);
        return answer(RENAME);
    }
    int c_fstatat(int fd, const char* path, struct stat* st, int flags)
    {
        at(fd, path);
        irv_assert(st == X.ptr && flags == AT_SYMLINK_NOFOLLOW, "links are not followed");
        return answer(STAT);
    }
    static int notsup(int flags, int call)
    {
        if (X.calls == 0)
            irv_assert(flags == AT_SYMLINK_NOFOLLOW, "links are not followed");
        else
            irv_assert(flags == 0 && X.again && X.calls == 1, "the second attempt");
        int64_t rc = answer(call);
        if (rc < 0 && X.err == ENOTSUP && !X.again)
            X.again = true, X.rc = X.a >> 32 ? -1 : 0, X.err = EPERM;
        return rc;
    }
    int c_fchmodat(int fd, const char* path, mode_t mode, int flags)
    {
        at(fd, path);
        irv_assert(mode == (uint32_t)X.a, "mode");
        return notsup(flags, CHMOD);
    }
    int c_fchownat(int fd, const char* path, uid_t u, gid_t g, int flags)
    {
        at(fd, path);
        irv_assert(u == (uint32_t)X.a && g == X.b, "owner and group");
        return notsup(flags, CHOWN);
    }
    ssize_t c_readlinkat(int fd, const char* path, char* out, size_t n)
    {
        at(fd, path);
        irv_assert(out == X.ptr && n == X.a, "the buffer");
        return answer(READLINK);
    }
    int c_utimensat(int fd, const char* path, const timespec* ts, int flags)
    {
        at(fd, path);
        irv_assert(ts == X.ptr && flags == AT_SYMLINK_NOFOLLOW, "links are not followed");
        return answer(UTIMENS);
    }
    int c_fstatvfs(int fd, struct statvfs* p)
    {
        on(fd);
        irv_assert(p == X.ptr, "the buffer");
        return answer(STATVFS);
    }
    int c_flock(int fd, int op)
    {
        on(fd);
        irv_assert((uint64_t)op == X.a, "the lock that is asked for");
        return answer(FLOCK);
    }
    int c_fsync(int fd)
    {
        on(fd);
        return answer(FSYNC);
    }
    int c_fstat(int fd, struct stat* st)
    {
        on(fd);
        irv_assert(!X.ptr || st == X.ptr, "the buffer");
        memset(st, 0, sizeof(*st));
        st->st_size = X.b;
        return answer(FSTAT);
    }
    ssize_t c_pread(int fd, void* p, size_t n, off_t o)
    {
        on(fd);
        irv_assert(p == X.ptr && n == X.a && (uint64_t)o == X.b, "buffer, length and position");
        return answer(PREAD);
    }
    ssize_t c_read(int fd, void* p, size_t n)
    {
        on(fd);
        irv_assert(p == X.ptr && n == X.a, "buffer and length");
        return answer(READ);
    }
    ssize_t c_pwrite(int fd, const void* p, size_t n, off_t o)
    {
        on(fd);
        irv_assert(p == X.ptr && n == X.a && (uint64_t)o == X.b, "buffer, length and position");
        return answer(PWRITE);
    }
    ssize_t c_write(int fd, const void* p, size_t n)
    {
        on(fd);
        irv_assert(p == X.ptr && n == X.a, "buffer and length");
        return answer(WRITE);
    }
    int c_ftruncate(int fd, off_t n)
    {
        on(fd);
        irv_assert((uint64_t)n == X.a, "the size");
        return answer(TRUNCATE);
    }
    int c_futimens(int fd, const timespec* ts)
    {
        on(fd);
        irv_assert(ts == X.ptr, "the times");
        return answer(UTIMENS);
    }
    int c_fremovexattr(int fd, const char* name)
    {
        on(fd);
        irv_assert(name == X.p[0], "the name");
        return answer(FREMOVEX);
    }
    ssize_t c_fgetxattr(int fd, const char* name, void* v, size_t n)
    {
        on(fd);
        irv_assert(name == X.p[0] && v == X.ptr && n == X.a, "name and buffer");
        return answer(FGETX);
    }
    ssize_t c_flistxattr(int fd, char* v, size_t n)
    {
        on(fd);
        irv_assert(v == X.ptr && n == X.a, "the buffer");
        return answer(FLISTX);
    }
    int c_fsetxattr(int fd, const char* name, const void* v, size_t n, int flags)
    {
        on(fd);
        irv_assert(name == X.p[0] && v == X.ptr && n == X.a && (uint64_t)(uint32_t)flags == X.b, "name, value and flags");
        return answer(FSETX);
    }
    int c_lremovexattr(const char* path, const char* name)
    {
        below(path);
        irv_assert(name == X.p[1], "the name");
        return answer(FREMOVEX);
    }
    ssize_t c_lgetxattr(const char* path, const char* name, void* v, size_t n)
    {
        below(path);
        irv_assert(name == X.p[1] && v == X.ptr && n == X.a, "name and buffer");
        return answer(FGETX);
    }
    ssize_t c_llistxattr(const char* path, char* v, size_t n)
    {
        below(path);
        irv_assert(v == X.ptr && n == X.a, "the buffer");
        return answer(FLISTX);
    }
    int c_lsetxattr(const char* path, const char* name, const void* v, size_t n, int flags)
    {
        below(path);
        irv_assert(name == X.p[1] && v == X.ptr && n == X.a && (uint64_t)(uint32_t)flags == X.b, "name, value and flags");
        return answer(FSETX);
    }
    DIR* c_opendir(const char* path)
    {
        below(path);
        return answer(OPENDIR) < 0 ? nullptr : (DIR*)X.ptr;
    }
    int c_closedir(DIR* d)
    {
        irv_assert(d == X.ptr, "the directory that was opened");
        ++X.closed;
        return 0;
    }
    struct dirent* c_readdir(DIR* d)
    {
        irv_assert(d == X.ptr, "the directory that was opened");
        if (irv_split(X.ended))
        {
            if (irv_split(X.ended == 2))
                errno = X.err;
            return nullptr;
        }
        return X.entry;
    }
    void c_rewinddir(DIR* d)
    {
        irv_assert(d == X.ptr, "the directory that was opened");
        ++X.other;
    }
}
static void text(int i, const char* name)
{
    X.n[i] = irv_var(name, 16, 1 << 20);
    X.p[i] = (char*)irv_array("text", X.n[i] + 1);
    X.p[i][X.n[i]] = 0;
}
static void begin(int call)
{
    memset(&X, 0, sizeof(X));
    X.x = irv_var("x", 0, 1ull << 22);
    irv_focus(X.x);
    X.call = call;
    text(0, "n");
    text(1, "n2");
    X.rootn = irv_var("rootn", 16, 4000);
    X.root = (char*)irv_array("root", X.rootn + 1);
    irv_assume(X.root[0] == '/');
    X.fd = (int)irv_var("fd", 0, 1 << 20);
    X.err = (int)irv_var("err", 1, 200);
    X.rc = irv_var("fails", 0, 1) ? -1 : 0;
    X.a = irv_var("a", 0, ~0ull);
    X.b = irv_var("b", 0, ~0ull);
    X.ptr = irv_array("buffer", 64);
}
static int code;    // error number of the exception, 0: none, -1: of another kind
template <class F>
static int run(F f)
{
    try
    {
        f();
    }
    catch (const ExceptionBase& e)
    {
        return e.error_number();
    }
    catch (const std::exception&)
    {
        return -1;
    }
    return 0;
}
static OSService* service()
{
    OSService* o = new OSService;
    o->m_dir_fd = X.fd;
    o->m_dir_name.assign(X.root, X.rootn);
    o->m_dir_name.push_back('/');
    return o;
}
static std::string S(int i) { return std::string(X.p[i], X.n[i]); }
// the call was made, and its failure is reported with its number
template <class F>
static void expect(F f)
{
    OSService* o = service();
    X.absolute = X.p[0][0] == '/';
    irv_assume(!X.absolute);
    int e = run([&] { f(*o); });
    irv_assert(X.calls == 1 + X.again, "the call is made");
    irv_assert(e == (X.rc < 0 ? X.err : 0), "a failure is reported with its number");
    irv_cover(e ? "failed" : "done");
}
PROOF(C15_is_absolute)
{
    uint64_t n = irv_var("n", 0, 1 << 20);
    char* p = (char*)irv_array("p", n);
    irv_assert(OSService::is_absolute(std::string_view(p, n)) == (n > 0 && p[0] == '/'), "absolute paths begin with a slash");
    irv_cover("tried");
}
PROOF(C15_concat)
{
    memset(&X, 0, sizeof(X));
    uint64_t b = irv_var("b", 0, 1 << 20), n = irv_var("n", 0, 1 << 20), k = irv_var("k", 0, 1 << 22);
    irv_focus(k);
    char *base = (char*)irv_array("base", b), *p = (char*)irv_array("p", n);
    if (irv_split(b + n < 16))
        irv_unroll(17);
    bool abs = n > 0 && p[0] == '/', ok = b == 0 || base[0] == '/';
    std::string r;
    bool thrown = false;
    bool plain = irv_split(b == 0 || abs);
    try
    {
        r = OSService::concat_and_norm(std::string_view(base, b), std::string_view(p, n));
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    if (plain)
    {
        irv_assert(!thrown && r.size() == n, "an absolute path is left as it is");
        irv_assert(k >= n || r[k] == p[k], "and its text");
        irv_cover("plain");
        return;
    }
    irv_assert(thrown == !ok, "the directory must be absolute");
    if (thrown)
    {
        irv_cover("refused");
        return;
    }
    uint64_t l = b + (base[b - 1] == '/' ? 0 : 1);
    irv_assert(r.size() == l + n, "directory, separator, path");
    irv_assert(k >= b || r[k] == base[k], "the path stays below the directory");
    irv_assert(k < b || k >= l || r[k] == '/', "one separator");
    irv_assert(k < l || k >= l + n || r[k] == p[k - l], "the rest is the path");
    irv_cover("joined");
}
PROOF(C15_root)
{
    begin(REALPATH);
    irv_focus(X.rootn);
    uint64_t fd = irv_var("newfd", 0, 1 << 20);
    bool second = irv_var("opens", 0, 1);
    X.a = second ? fd : ~0ull;
    OSService* o = nullptr;
    bool first = X.rc == 0;
    int e = run([&] { o = new OSService(S(0)); });
    if (e)
    {
        irv_assert(e == X.err && (!first || !second), "a failure is reported with its number");
        irv_cover("failed");
        return;
    }
    irv_assert(first && second && (uint64_t)o->m_dir_fd == fd, "the directory is kept open");
    uint64_t l = o->m_dir_name.size() - 1;
    irv_assume(l >= X.rootn || X.root[l] != 0);    // paths hold no NUL
    irv_assert(l == X.rootn, "the root directory and a slash");
    irv_assert(X.x >= X.rootn || o->m_dir_name[X.x] == X.root[X.x], "the root directory");
    irv_assert(o->m_dir_name[X.rootn] == '/', "a slash");
    irv_cover("done");
}
PROOF(C15_norm)
{
    begin(NOTHING);
    OSService* o = service();
    bool abs = irv_split(X.p[0][0] == '/');
    std::string r = o->norm_path(S(0)), q = o->norm_path_narrowed(S(0));
    irv_assert(r.size() == (abs ? X.n[0] : X.rootn + 1 + X.n[0]) && q.size() == r.size(), "length");
    if (abs)
        irv_assert(is(r.c_str(), X.p[0], X.n[0]) && is(q.c_str(), X.p[0], X.n[0]), "an absolute path is left as it is");
    else
    {
        below(r.c_str());
        below(q.c_str());
    }
    irv_cover("joined");
}
PROOF(C15_open)
{
    begin(OPEN);
    X.a &= 0xffffffff;
    X.b &= 07777;
    X.rc = X.rc < 0 ? -1 : (int64_t)irv_var("newfd", 0, 1 << 20);
    OSService* o = service();
    irv_assume(X.p[0][0] != '/');
    std::shared_ptr<FileStream> f;
    int e = run([&] { f = o->open_file_stream(S(0), (int)X.a, (unsigned)X.b); });
    irv_assert(X.calls == 1 && e == (X.rc < 0 ? X.err : 0), "a failure is reported with its number");
    irv_assert(e || ((UnixFileStream*)f.get())->m_fd == X.rc, "a stream over the file");
    irv_cover(e ? "failed" : "done");
    if (!e)
    {
        X.fd = X.rc;
        X.closed = 0;
        f.reset();
        irv_assert(X.closed == 1, "the file is closed once");
    }
}
PROOF(C15_unlink)
{
    begin(UNLINK);
    expect([](OSService& o) { o.remove_file(S(0)); });
}
PROOF(C15_rmdir)
{
    begin(RMDIR);
    expect([](OSService& o) { o.remove_directory(S(0)); });
}
PROOF(C15_nothrow)
{
    bool dir = irv_split(irv_var("dir", 0, 1));
    begin(dir ? RMDIR : UNLINK);
    OSService* o = service();
    bool r = dir ? o->remove_directory_nothrow(S(0)) : o->remove_file_nothrow(S(0));
    irv_assert(X.calls == 1 && r == (X.rc == 0), "the outcome");
    irv_cover("done");
}
PROOF(C15_mkdir)
{
    begin(MKDIR);
    X.a &= 07777;
    expect([](OSService& o) { o.mkdir(S(0), (unsigned)X.a); });
}
PROOF(C15_ensure)
{
    begin(MKDIR);
    X.a &= 07777;
    OSService* o = service();
    irv_assume(X.p[0][0] != '/');
    int e = run([&] { o->ensure_directory(S(0), (unsigned)X.a); });
    irv_assert(X.calls == 1 && e == (X.rc < 0 && X.err != EEXIST ? X.err : 0), "a directory that exists is no failure");
    irv_cover("done");
}
PROOF(C15_symlink)
{
    begin(SYMLINK);
    irv_assume(X.p[1][0] != '/');
    expect([](OSService& o) { o.symlink(S(0), S(1)); });
}
PROOF(C15_link)
{
    begin(LINK);
    expect([](OSService& o) { o.link(S(0), S(1)); });
}
PROOF(C15_rename)
{
    begin(RENAME);
    irv_assume(X.p[1][0] != '/');
    expect([](OSService& o) { o.rename(S(0), S(1)); });
}
PROOF(C15_stat)
{
    begin(STAT);
    OSService* o = service();
    irv_assume(X.p[0][0] != '/');
    X.ptr = irv_array("st", sizeof(struct stat));
    bool r = false;
    int e = run([&] { r = o->stat(S(0), (fuse_stat*)X.ptr); });
    irv_assert(X.calls == 1, "one call");
    if (X.rc == 0)
        irv_assert(e == 0 && r, "found");
    else if (X.err == ENOENT)
        irv_assert(e == 0 && !r, "a missing file is told apart");
    else
        irv_assert(e == X.err, "a failure is reported with its number");
    irv_cover("done");
}
PROOF(C15_chmod)
{
    begin(CHMOD);
    expect([](OSService& o) { o.chmod(S(0), (mode_t)X.a); });
}
PROOF(C15_chown)
{
    begin(CHOWN);
    X.b &= 0xffffffff;
    expect([](OSService& o) { o.chown(S(0), (uid_t)X.a, (gid_t)X.b); });
}
PROOF(C15_readlink)
{
    begin(READLINK);
    X.rc = X.rc < 0 ? -1 : (int64_t)irv_var("got", 0, 1 << 20);
    ssize_t r = 0;
    expect([&](OSService& o) { r = o.readlink(S(0), (char*)X.ptr, X.a); });
    irv_assert(X.rc < 0 || r == X.rc, "the length of the target");
}
PROOF(C15_utimens)
{
    begin(UTIMENS);
    if (irv_split(irv_var("now", 0, 1)))
        X.ptr = nullptr;
    expect([](OSService& o) { o.utimens(S(0), (const fuse_timespec*)X.ptr); });
}
PROOF(C15_statfs)
{
    begin(STATVFS);
    expect([](OSService& o) { o.statfs((fuse_statvfs*)X.ptr); });
}
PROOF(C15_lock)
{
    begin(FLOCK);
    X.locks = irv_split(irv_var("locks", 0, 1));
    X.a = LOCK_NB | LOCK_EX;
    OSService* o = service();
    int e = run([&] { o->lock(); });
    irv_assert(X.calls == X.locks, "locked, if locks are used");
    irv_assert(e == (X.locks && X.rc < 0 ? X.err : 0), "a lock that is taken is reported");
    irv_cover("done");
}
static int64_t errno_or(int64_t rc) { return rc < 0 ? -X.err : rc; }
PROOF(C15_xattr)
{
    int what = (int)irv_concretize(irv_var("what", 0, 3));
    const int calls[] = {FREMOVEX, FGETX, FLISTX, FSETX};
    begin(calls[what]);
    irv_assume(X.p[0][0] != '/');
    X.n[0] = strlen(X.p[0]);
    irv_assume(X.n[0] >= 16);
    X.b &= 0xffffffff;
    X.rc = X.rc < 0 ? -1 : (int64_t)irv_var("got", 0, 1 << 20);
    OSService* o = service();
    int64_t r = what == 0 ? o->removexattr(X.p[0], X.p[1])
        : what == 1       ? o->getxattr(X.p[0], X.p[1], (void*)X.ptr, X.a)
        : what == 2       ? o->listxattr(X.p[0], (char*)X.ptr, X.a)
                          : o->setxattr(X.p[0], X.p[1], (void*)X.ptr, X.a, (int)X.b);
    irv_assert(X.calls == 1, "one call");
    irv_assert(r == (what == 0 || what == 3 ? (int64_t)(int)errno_or((int)X.rc) : errno_or(X.rc)), "the result, or the number of the failure");
    irv_cover("done");
}
PROOF(C15_destroy)
{
    begin(NOTHING);
    OSService* o = service();
    if (irv_split(irv_var("current directory", 0, 1)))
    {
        OSService* d = new OSService;
        delete d;
        irv_assert(!X.closed, "nothing is closed");
    }
    delete o;
    irv_assert(X.closed == 1, "the directory is closed");
    irv_cover("done");
}
// files
template <class F>
static void file(F f)
{
    UnixFileStream s(X.fd);
    int e = run([&] { f(s); });
    irv_assert(X.calls == 1, "one call");
    irv_assert(e == (X.rc < 0 ? X.err : 0), "a failure is reported with its number");
    irv_cover(e ? "failed" : "done");
}
static uint64_t got() { return X.rc = X.rc < 0 ? -1 : (int64_t)irv_var("got", 0, 1ull << 40); }
PROOF(C15_file_read)
{
    bool seq = irv_split(irv_var("sequential", 0, 1));
    begin(seq ? READ : PREAD);
    got();
    uint64_t r = 0;
    file([&](UnixFileStream& s) { r = seq ? s.sequential_read((void*)X.ptr, X.a) : s.read((void*)X.ptr, X.b, X.a); });
    irv_assert(X.rc < 0 || r == (uint64_t)X.rc, "the number of bytes read");
}
PROOF(C15_file_write)
{
    bool seq = irv_split(irv_var("sequential", 0, 1));
    begin(seq ? WRITE : PWRITE);
    got();
    UnixFileStream s(X.fd);
    int e = run([&] { seq ? s.sequential_write(X.ptr, X.a) : s.write(X.ptr, X.b, X.a); });
    irv_assert(X.calls == 1 && e == (X.rc < 0 ? X.err : (uint64_t)X.rc == X.a ? 0 : EIO), "all is written, or a failure is reported");
    irv_cover(e ? "failed" : "done");
}
PROOF(C15_file_resize)
{
    begin(TRUNCATE);
    file([](UnixFileStream& s) { s.resize(X.a); });
}
PROOF(C15_file_stat)
{
    begin(FSTAT);
    int what = (int)irv_concretize(irv_var("what", 0, 2));
    if (what == 2)
    {
        UnixFileStream s(X.fd);
        irv_assert(run([&] { s.fstat(nullptr); }) == EFAULT && !X.calls, "no buffer");
        return;
    }
    X.ptr = what ? nullptr : irv_array("st", sizeof(struct stat));
    uint64_t n = 0;
    file([&](UnixFileStream& s) { what ? (void)(n = s.size()) : s.fstat((struct stat*)X.ptr); });
    irv_assert(X.rc < 0 || !what || n == X.b, "the size of the file");
}
PROOF(C15_file_times)
{
    begin(UTIMENS);
    file([](UnixFileStream& s) { s.utimens((const fuse_timespec*)X.ptr); });
}
PROOF(C15_file_sync)
{
    begin(FSYNC);
    file([](UnixFileStream& s) { s.fsync(); });
}
PROOF(C15_file_lock)
{
    begin(FLOCK);
    X.locks = irv_split(irv_var("locks", 0, 1));
    int what = (int)irv_concretize(irv_var("what", 0, 2));
    X.a = what == 0 ? LOCK_SH : what == 1 ? LOCK_EX : LOCK_UN;
    UnixFileStream s(X.fd);
    int e = run([&] { what == 2 ? s.unlock() : s.lock(what == 1); });
    irv_assert(X.calls == X.locks && e == (X.locks && X.rc < 0 && what != 2 ? X.err : 0), "locked, if locks are used");
    irv_cover("done");
}
PROOF(C15_file_xattr)
{
    int what = (int)irv_concretize(irv_var("what", 0, 3));
    const int calls[] = {FREMOVEX, FGETX, FLISTX, FSETX};
    begin(calls[what]);
    X.b &= 0xffffffff;
    X.rc = X.rc < 0 ? -1 : (int64_t)irv_var("got", 0, 1 << 20);
    ssize_t r = 0;
    file(
        [&](UnixFileStream& s)
        {
            if (what == 0)
                s.removexattr(X.p[0]);
            else if (what == 1)
                r = s.getxattr(X.p[0], (void*)X.ptr, X.a);
            else if (what == 2)
                r = s.listxattr((char*)X.ptr, X.a);
            else
                s.setxattr(X.p[0], (void*)X.ptr, X.a, (int)X.b);
        });
    irv_assert(X.rc < 0 || what == 0 || what == 3 || r == X.rc, "the length");
}
PROOF(C15_directory)
{
    begin(OPENDIR);
    OSService* o = service();
    irv_assume(X.p[0][0] != '/');
    std::unique_ptr<DirectoryTraverser> d;
    int e = run([&] { d = o->create_traverser(S(0)); });
    irv_assert(X.calls == 1 && e == (X.rc < 0 ? X.err : 0), "a failure is reported with its number");
    if (e)
    {
        irv_cover("failed");
        return;
    }
    X.ended = (int)irv_var("ended", 0, 2);
    struct dirent* de = (struct dirent*)irv_array("entry", sizeof(struct dirent));
    irv_assume(de->d_name[255] == 0);
    uint64_t n = strlen(de->d_name);
    irv_assume(n >= 16);    // (shorter names are kept inside the string object)
    X.entry = de;
    std::string name;
    fuse_stat st;
    bool more = false, bare = irv_split(irv_var("bare", 0, 1));
    e = run([&] { more = d->next(bare ? nullptr : &name, bare ? nullptr : &st); });
    irv_assert(e == (X.ended == 2 ? X.err : 0), "a failure is reported with its number");
    if (!e)
    {
        irv_assert(more == (X.ended == 0), "the end is told");
        if (more && !bare)
        {
            irv_assert(name.size() == n && (X.x >= n || name[X.x] == de->d_name[X.x]), "the name of the entry");
            irv_assert(st.st_ino == de->d_ino
                           && st.st_mode == (de->d_type == DT_DIR ? S_IFDIR : de->d_type == DT_LNK ? S_IFLNK : de->d_type == DT_REG ? S_IFREG : 0),
                       "inode and type of the entry");
            irv_cover("entry");
        }
    }
    d->rewind();
    irv_assert(X.other == 1 && !X.closed, "rewound");
    d.reset();
    irv_assert(X.closed == 1, "the directory is closed");
}
#endif
