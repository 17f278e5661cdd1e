// C09: every id belongs to one shard, and the layout of the storage
// irv: contract ^securefs::OSService::open_file_stream\( => c_open_stream
// irv: contract ^securefs::OSService::ensure_directory\( => c_ensure
// irv: contract ^securefs::OSService::remove_file_nothrow\( => c_remove
// irv: contract ^securefs::OSService::remove_directory_nothrow\( => c_rmdir
// irv: contract ^securefs::hexify(\[|\() => c_hexify
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <array>
#include <map>
#include <optional>
#include <thread>
#include <atomic>
#include <chrono>
#define private public
#define protected public
#include "file_table_v2.cpp"
#undef private
#undef protected
using namespace securefs;
using namespace securefs::full_format;
static struct
{
    id_type id;
    bool legacy;
    int opens, dirs, files, rmdirs;
    int fail, err;
    bool readonly, creating;
    bool made[2];
    FileStream* s[2];
} X;
static char hex(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
// the character at k of the path of the data file: xx/yyyyyyyyyy/zzz... (legacy) or xx/yyy...
static char spec(uint64_t k)
{
    if (k == 2)
        return '/';
    uint64_t j = k < 2 ? k : k - 1;
    if (X.legacy)
    {
        if (k == 13)
            return '/';
        if (k > 13)
            --j;
    }
    uint8_t b = X.id.data()[j / 2];
    return hex(j % 2 ? b & 15 : b >> 4);
}
static uint64_t full() { return X.legacy ? 66 : 65; }
static bool is(const std::string& s, uint64_t n, bool meta)
{
    static const char m[] = ".meta";
    if (s.size() != n + (meta ? 5 : 0))
        return false;
    bool ok = true;
    for (uint64_t x = 0; x < s.size(); ++x)
        ok &= s[x] == (x < n ? spec(x) : m[x - n]);
    return ok;
}
extern "C"
{
    // proved in C16
    std::string c_hexify(const uint8_t* p, size_t n)
    {
        std::string r(2 * n, 0);
        for (size_t i = 0; i < n; ++i)
        {
            r[2 * i] = hex(p[i] >> 4);
            r[2 * i + 1] = hex(p[i] & 15);
        }
        return r;
    }
    std::shared_ptr<FileStream> c_open_stream(OSService*, const std::string& path, int flags, unsigned mode)
    {
        int i = X.opens++;
        irv_assert(i < 2 && is(path, full(), i == 1), "the two backing files of the id");
        if (X.creating)
        {
            irv_assert((flags & (O_CREAT | O_EXCL | O_ACCMODE)) == (O_CREAT | O_EXCL | O_RDWR) && !(flags & O_TRUNC), "a file that exists is refused");
            irv_assert(X.dirs == (X.legacy ? 2 : 1), "after their directories are made");
        }
        else
            irv_assert(flags == (X.readonly ? O_RDONLY : O_RDWR), "nothing is made by opening");
        if (irv_split(X.fail == i))
            throw VFSException(X.err);
        std::shared_ptr<FileStream> r;
        *(FileStream**)&r = X.s[i];
        return r;
    }
    void c_ensure(OSService*, const std::string& path, unsigned mode)
    {
        irv_assert(X.creating && is(path, X.dirs == 0 ? 2 : 13, false), "the directory of the id");
        ++X.dirs;
    }
    bool c_remove(OSService*, const std::string& path)
    {
        irv_assert(X.files < 2 && is(path, full(), path.size() > full()), "only the backing files of the id are removed");
        irv_assert(!X.made[path.size() > full()], "each once");
        X.made[path.size() > full()] = true;
        ++X.files;
        return true;
    }
    bool c_rmdir(OSService*, const std::string& path)
    {
        irv_assert(X.files == 2, "directories go last");
        irv_assert(is(path, path.size() == 2 ? 2 : 13, false) && (X.legacy || path.size() == 2), "the directories of the id");
        irv_assert(path.size() == 13 || !X.legacy || X.rmdirs > 0, "inner ones first");
        ++X.rmdirs;
        return true;
    }
}
static FileTableIO* world(std::shared_ptr<FileTableIO>& keep)
{
    memset(&X, 0, sizeof X);
    irv_havoc(X.id.data(), 32, "id");
    X.legacy = irv_split(irv_var("legacy", 0, 1));
    X.readonly = irv_split(irv_var("readonly", 0, 1));
    X.fail = (int)irv_var("fail", 0, 2);
    X.err = (int)irv_var("err", 1, 130);
    X.s[0] = (FileStream*)malloc(8);
    X.s[1] = (FileStream*)malloc(8);
    std::shared_ptr<OSService> os;
    *(OSService**)&os = (OSService*)malloc(8);
    keep = make_table_io(os, StrongType<bool, tLegacy>(X.legacy), StrongType<bool, tReadOnly>(X.readonly));
    return keep.get();
}
static void opens(bool creating)
{
    std::shared_ptr<FileTableIO> k;
    auto* io = world(k);
    X.creating = creating;
    try
    {
        auto p = creating ? io->create(X.id) : io->open(X.id);
        irv_assert(p.first.get() == X.s[0] && p.second.get() == X.s[1] && X.opens == 2, "the streams of data and metadata");
        irv_cover("opened");
    }
    catch (const ExceptionBase& e)
    {
        irv_assert(X.fail < 2 && e.error_number() == X.err, "the error of the system");
        irv_cover("refused");
    }
    irv_assert(X.files == 0 && X.rmdirs == 0, "nothing is removed");
}
PROOF(C09_io_open) { opens(false); }
PROOF(C09_io_create) { opens(true); }
PROOF(C09_io_unlink)
{
    std::shared_ptr<FileTableIO> k;
    auto* io = world(k);
    io->unlink(X.id);
    irv_assert(X.files == 2 && X.opens == 0 && X.dirs == 0, "both backing files are removed");
    irv_cover("removed");
}
PROOF(C09_shard)
{
    auto* ft = (FileTable*)malloc(sizeof(FileTable));
    id_type a;
    irv_havoc(a.data(), 32, "a");
    bool root = !memcmp(a.data(), kRootId.data(), 32);
    try
    {
        auto* s = &ft->find_shard(a);
        id_type b = a;
        auto* r = &ft->find_shard(b);
        uint64_t off = (uint64_t)((char*)s - (char*)&ft->shards[0]);
        irv_assert(s == r && off < sizeof(ft->shards) && off % sizeof(ft->shards[0]) == 0, "every id has one shard");
        irv_assert(!root, "the root has none");
        irv_cover("shard");
    }
    catch (const ExceptionBase&)
    {
        irv_assert(root, "every other id has one");
        irv_cover("root");
    }
}
#endif
