// C12: operations of the lite format, over contracts of the underlying file system, the translator (C10), the table
// of long names and the streams (C02).
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::ThreadLocalBase::ThreadLocalBase\( => c_tl_begin
// irv: contract ^securefs::ThreadLocalBase::~ThreadLocalBase\( => c_tl_end
// irv: contract ^securefs::OSService::concat_and_norm(\[|\() => c_norm
// irv: contract ^securefs::lite_format::NameTranslator::get_last_component\( => c_last
// irv: contract ^securefs::lite_format::NameTranslator::remove_last_component\( => c_but_last
// irv: contract ^securefs::LongNameLookupTable::LongNameLookupTable\( => c_table
// irv: contract ^securefs::LongNameLookupTable::~LongNameLookupTable\( => c_table_end
// irv: contract ^securefs::LongNameLookupTable::update_mapping\( => c_update
// irv: contract ^securefs::LongNameLookupTable::remove_mapping\( => c_remove
// irv: contract ^securefs::DoubleLongNameLookupTable::DoubleLongNameLookupTable\( => c_table2
// irv: contract ^securefs::DoubleLongNameLookupTable::update_mapping_to_to_db\( => c_update2
// irv: contract ^securefs::DoubleLongNameLookupTable::remove_mapping_from_from_db\( => c_remove2
// irv: contract ^securefs::SQLiteDB::mutex\( => c_mutex
// irv: contract ^securefs::SQLiteDB::exec\( => c_exec
// irv: contract ^securefs::OSService::remove_file\( => c_os_unlink
// irv: contract ^securefs::OSService::remove_file_nothrow\( => c_os_unlink_nothrow
// irv: contract ^securefs::OSService::remove_directory\( => c_os_rmdir
// irv: contract ^securefs::OSService::remove_directory_nothrow\( => c_os_rmdir_nothrow
// irv: contract ^securefs::OSService::create_traverser\( => c_os_traverse
// irv: contract ^securefs::OSService::mkdir\( => c_os_mkdir
// irv: contract ^securefs::OSService::symlink\( => c_os_symlink
// irv: contract ^securefs::OSService::link\( => c_os_link
// irv: contract ^securefs::OSService::chmod\( => c_os_chmod
// irv: contract ^securefs::OSService::chown\( => c_os_chown
// irv: contract ^securefs::OSService::utimens\( => c_os_utimens
// irv: contract ^securefs::OSService::rename\( => c_os_rename
// irv: contract ^securefs::OSService::stat\( => c_os_stat
// irv: contract ^securefs::OSService::readlink\( => c_os_readlink
// irv: contract ^securefs::OSService::open_file_stream\( => c_os_open
// irv: contract ^securefs::lite_format::StreamOpener::open\( => c_opener_open
// irv: contract ^securefs::OSService::get_default\( => c_os_default
// irv: contract ^securefs::LongNameLookupTable::lookup(\[|\() => c_lookup
// irv: assumes (bounded) listings are read for at most two underlying entries: the listing harness is not counted as proved
// irv: contract ^securefs::lite::AESGCMCryptStream::calculate_real_size\( => c_real_size
// irv: assumes SQLite transactions: a rollback undoes what was done since begin (the bounded check runs the real one)
// irv: assumes the two translated paths of a rename differ in their first byte (which tells them apart in the contracts)
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <sstream>
#include <variant>
#include "platform.h"
#define private public
#define protected public
#include "lite_format.cpp"
#include "lite_long_name_lookup_table.cpp"
#undef private
#undef protected
#include "stream_spec.h"
using namespace securefs;
using namespace securefs::lite_format;
namespace securefs
{
DirectoryTraverser::~DirectoryTraverser() = default;
ssize_t FileStream::getxattr(const char*, void*, size_t) { throw VFSException(ENOTSUP); }
void FileStream::setxattr(const char*, void*, size_t, int) { throw VFSException(ENOTSUP); }
ssize_t FileStream::listxattr(char*, size_t) { throw VFSException(ENOTSUP); }
void FileStream::removexattr(const char*) { throw VFSException(ENOTSUP); }
}
struct Path
{
    char* text;        // as the user gave it
    char* e;           // translated
    uint64_t n, cut;
    bool lng;
    char *l;           // the whole encrypted last component, when it is long
    uint64_t ln;
    char* table;       // file of the table of the directory
    uint64_t tn;
};
static struct
{
    Path p[2];
    OSService* root;
    FuseHighLevelOps* ops;
    uint64_t x;
    bool noop, fail;
    int err, code, done;
    int tables, begun, committed, rolled, ended, updated, removed;
    uint64_t a, b;
    const void* ptr;
    char *target, *sealed;
    uint64_t targetn, sealedn;
    int kids, tabled, other;
    bool gone;
    // files and attributes
    uint64_t mode, size, got, mtime;
    int flags;
    int opens;
    spec::SpecStream* s;
    int locks, fsyncs, truncs;
    bool bad;
    // listings
    bool listing, plus;
    int entries, kind[2], type[2];
    uint64_t esize[2];
    char* en[2];       // stored names
    uint64_t enn[2];
    char* dn[2];       // decrypted names
    uint64_t dnn[2];
    int seen, rewinds, readers, at_long;
    // renames: whether the two are links of one file, what is missing
    bool renaming, same, fresh, unknown;
    int stats, first;
    uint64_t nlink, dev, ino;
} X;
static bool is(std::string_view v, const char* t, uint64_t n) { return v.size() == n && (X.x >= n || v[X.x] == t[X.x]); }
static Path& which(std::string_view v)
{
    bool second = irv_split(v.size() > 0 && X.p[1].e && v[0] == X.p[1].e[0]);
    return X.p[second];
}
static void fault()
{
    if (irv_split(X.fail))
        throw VFSException(X.err);
}
// an effect on the underlying file system: once, on the translated path, inside the transaction of the table
static void effect(int code, const OSService* o, const std::string& path)
{
    irv_assert(o == X.root, "the underlying directory");
    irv_assert(is(path, X.p[0].e, X.p[0].n), "the operation acts on the translated path");
    irv_assert(X.done++ == 0, "one effect");
    X.code = code;
    fault();
}
struct SpecDir : public DirectoryTraverser
{
    int at = 0;
    bool next(std::string* name, fuse_stat*) override
    {
        int i = at++;
        if (i == 0 && X.tabled)
        {
            *name = std::string(".long_names.db");
            return true;
        }
        if (i <= 1 && X.kids == 2 && !X.other++)
        {
            char* p = (char*)irv_array("other", 17);
            *name = std::string(p, 17);
            return true;
        }
        return false;
    }
    void rewind() override { at = 0; }
};
// kinds of stored entries
enum
{
    DOT, DOTDOT, HIDDEN, INVALID, LONG, LOST, PLAIN, THROWS, KINDS
};
struct Lister : public DirectoryTraverser
{
    int at = 2;
    bool next(std::string* name, fuse_stat* st) override
    {
        int i = at++;
        if (i >= X.entries)
            return false;
        switch (X.kind[i])
        {
        case DOT:
            *name = ".";
            break;
        case DOTDOT:
            *name = "..";
            break;
        default:
            *name = std::string(X.en[i], X.enn[i]);
        }
        if (st)
        {
            st->st_mode = X.type[i];
            st->st_size = X.esize[i];
        }
        return true;
    }
    void rewind() override
    {
        at = 0;
        ++X.rewinds;
    }
};
struct SpecFile : public FileStream
{
    length_type read(void*, offset_type, length_type) override { return 0; }
    void write(const void*, offset_type, length_type) override { irv_assert(false, "files are written through the stream"); }
    length_type size() const override { return 0; }
    void flush() override {}
    void resize(length_type) override { irv_assert(false, "files are written through the stream"); }
    void fsync() override { ++X.fsyncs; }
    void utimens(const fuse_timespec*) override {}
    void fstat(fuse_stat* st) const override
    {
        irv_havoc(st, sizeof(*st), "stat");
        st->st_mode = X.mode;
        st->st_mtime = X.mtime;
    }
    void close() noexcept override {}
    void lock(bool) override { ++X.locks; }
    void unlock() noexcept override { --X.locks; }
    length_type sequential_read(void*, length_type) override { return 0; }
    void sequential_write(const void*, length_type) override {}
};
struct Stream : public spec::SpecStream
{
    void resize(length_type n) override
    {
        irv_assert(X.locks > 0, "the file is locked when it is changed");
        ++X.truncs;
        X.b = n;
        SpecStream::resize(n);
    }
    void write(const void* b, offset_type o, length_type n) override
    {
        irv_assert(X.locks > 0, "the file is locked when it is changed");
        SpecStream::write(b, o, n);
    }
};
extern "C"
{
    void c_nowarn(const void*, size_t, const char*, int) {}
    void c_tl_begin(void*) {}
    void c_tl_end(void*) {}
    std::string c_norm(std::string_view, std::string_view path)
    {
        Path& p = which(path);
        if (X.listing)
        {
            irv_assert(is(path, p.e, p.n) || is(path, ".long_names.db", 14), "the directory or its table");
            return std::string(p.table, p.tn);
        }
        const char* name = ".long_names.db";
        irv_assert(path.size() == p.cut + 15 && (X.x >= p.cut || path[X.x] == p.e[X.x]) && path[p.cut] == '/'
                       && memcmp(path.data() + p.cut + 1, name, 14) == 0,
                   "the table of the parent directory");
        return std::string(p.table, p.tn);
    }
    std::string_view c_last(std::string_view path)
    {
        Path& p = which(path);
        irv_assert(is(path, p.e, p.n), "the last component of the translated path");
        return path.substr(p.cut);
    }
    std::string_view c_but_last(std::string_view path)
    {
        Path& p = which(path);
        irv_assert(is(path, p.e, p.n), "the directory of the translated path");
        return path.substr(0, p.cut);
    }
    void c_table(LongNameLookupTable* self, const std::string& file, bool ro)
    {
        memset(self, 0, sizeof(*self));
        if (X.listing)
        {
            irv_assert(ro && is(file, X.p[0].table, X.p[0].tn), "the table of the directory is read");
            ++X.readers;
            return;
        }
        irv_assert(!ro && is(file, X.p[0].table, X.p[0].tn), "the table of the parent directory is opened");
        irv_assert(X.p[0].lng, "only long names need the table");
        ++X.tables;
    }
    void c_table_end(LongNameLookupTable*) { ++X.ended; }
    void c_table2(DoubleLongNameLookupTable* self, const std::string& a, const std::string& b)
    {
        memset(self, 0, sizeof(*self));
        irv_assert(is(a, X.p[0].table, X.p[0].tn) && is(b, X.p[1].table, X.p[1].tn), "the tables of both directories are opened");
        ++X.tables;
    }
    static Mutex* the_mutex;
    Mutex* c_mutex(SQLiteDB*) { return the_mutex; }
    void c_exec(SQLiteDB*, const char* sql)
    {
        if (sql[0] == 'b')
            ++X.begun;
        else if (sql[0] == 'c')
            ++X.committed;
        else if (sql[0] == 'r')
            ++X.rolled;
        else
            irv_assert(false, "begin, commit or roll back");
    }
    static void map(Path& p, std::string_view hash)
    {
        irv_assert(X.tables == 1 && X.begun == 1 && !X.committed && !X.rolled, "the table is changed in a transaction");
        irv_assert(X.done == 0 && p.lng, "before the effect");
        irv_assert(hash.size() == p.n - p.cut && (X.x >= hash.size() || hash[X.x] == p.e[p.cut + X.x]), "the stored name is the key");
    }
    void c_update(void*, std::string_view hash, std::string_view name)
    {
        map(X.p[0], hash);
        irv_assert(is(name, X.p[0].l, X.p[0].ln), "the encrypted name is kept");
        ++X.updated;
    }
    void c_remove(void*, std::string_view hash)
    {
        map(X.p[0], hash);
        ++X.removed;
    }
    void c_update2(void*, std::string_view hash, std::string_view name)
    {
        map(X.p[1], hash);
        irv_assert(is(name, X.p[1].l, X.p[1].ln), "the encrypted name is kept");
        ++X.updated;
    }
    void c_remove2(void*, std::string_view hash)
    {
        irv_assert(X.updated == 0, "the old name is forgotten before the new one is kept (they may be the same)");
        map(X.p[0], hash);
        ++X.removed;
    }
    void c_os_unlink(const OSService* o, const std::string& p) { effect('u', o, p); }
    static void table_file(const OSService* o, const std::string& p)
    {
        const char* name = ".long_names.db";
        irv_assert(o == X.root && p.size() == X.p[0].n + 15 && (X.x >= X.p[0].n || p[X.x] == X.p[0].e[X.x]) && p[X.p[0].n] == '/'
                       && memcmp(p.data() + X.p[0].n + 1, name, 14) == 0,
                   "only the table may be removed from a directory");
        irv_assert(X.kids == 1 && !X.noop, "the table goes only when nothing else is left");
        X.kids = X.tabled = 0;
    }
    bool c_os_unlink_nothrow(const OSService* o, const std::string& p) noexcept
    {
        table_file(o, p);
        return true;
    }
    void c_os_rmdir(const OSService* o, const std::string& p)
    {
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n) && !X.gone, "the directory is removed");
        if (irv_split(X.fail))
            throw VFSException(X.err);
        if (irv_split(X.kids != 0))
            throw VFSException(X.err ? ENOTEMPTY : EEXIST);
        X.gone = true;
        ++X.done;
    }
    bool c_os_rmdir_nothrow(const OSService* o, const std::string& p) noexcept
    {
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n) && !X.gone, "the directory is removed");
        if (X.fail || X.kids)
            return false;
        X.gone = true;
        ++X.done;
        return true;
    }
    std::unique_ptr<DirectoryTraverser> c_os_traverse(const OSService* o, const std::string& p)
    {
        if (X.listing)
        {
            irv_assert(o == X.root && is(p, X.p[0].table, X.p[0].tn), "the directory is listed");
            return std::unique_ptr<DirectoryTraverser>(new Lister);
        }
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n), "the directory is listed");
        X.other = 0;
        return std::unique_ptr<DirectoryTraverser>(new SpecDir);
    }
    void c_os_mkdir(const OSService* o, const std::string& p, unsigned mode)
    {
        irv_assert(mode == (unsigned)X.a, "the mode asked for");
        effect('m', o, p);
    }
    void c_os_symlink(const OSService* o, const std::string& to, const std::string& at)
    {
        irv_assert(is(to, X.sealed, X.sealedn), "the sealed target is stored");
        effect('s', o, at);
    }
    void c_os_link(const OSService* o, const std::string& from, const std::string& at)
    {
        irv_assert(is(from, X.p[1].e, X.p[1].n), "the link is to the translated source");
        effect('l', o, at);
    }
    void c_os_chmod(const OSService* o, const std::string& p, fuse_mode_t m)
    {
        irv_assert((unsigned)m == (unsigned)X.a, "the mode asked for");
        effect('c', o, p);
    }
    void c_os_chown(const OSService* o, const std::string& p, fuse_uid_t u, fuse_gid_t g)
    {
        irv_assert((unsigned)u == (unsigned)X.a && (unsigned)g == (unsigned)X.b, "the owner asked for");
        effect('o', o, p);
    }
    void c_os_utimens(const OSService* o, const std::string& p, const fuse_timespec* ts)
    {
        irv_assert(ts == X.ptr, "the times asked for");
        effect('t', o, p);
    }
    void c_os_rename(const OSService* o, const std::string& a, const std::string& b)
    {
        irv_assert(is(b, X.p[1].e, X.p[1].n), "the target is the translated path");
        effect('r', o, a);
    }
    bool c_os_stat(const OSService* o, const std::string& p, fuse_stat* st)
    {
        if (X.renaming)
        {
            int i = &which(p) == &X.p[1];
            irv_assert(o == X.root && is(p, X.p[i].e, X.p[i].n), "the attributes are those of a translated path");
            if (irv_split(X.unknown))
                throw VFSException(X.err);
            if (irv_split(i ? X.fresh : X.gone))
                return false;
            irv_havoc(st, sizeof(*st), "stat");
            uint64_t nlink = st->st_nlink, dev = st->st_dev, ino = st->st_ino;
            if (X.stats++ == 0)
            {
                X.nlink = nlink;
                X.dev = dev;
                X.ino = ino;
                X.first = i;
            }
            else if (i != X.first)
            {
                irv_assume(X.same == (dev == X.dev && ino == X.ino));
                irv_assume(!X.same || (nlink == X.nlink && nlink > 1));
            }
            return true;
        }
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n), "the attributes are those of the translated path");
        if (irv_split(X.fail))
            throw VFSException(X.err);
        if (irv_split(X.gone))
            return false;
        irv_havoc(st, sizeof(*st), "stat");
        st->st_mode = X.mode;
        st->st_size = X.size;
        st->st_mtime = X.mtime;
        return true;
    }
    int64_t c_os_readlink(const OSService* o, const std::string& p, char* out, size_t n)
    {
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n), "the link of the translated path is read");
        if (irv_split(X.fail))
            throw VFSException(X.err);
        uint64_t k = n < X.sealedn ? n : X.sealedn;
        memcpy(out, X.sealed, k);
        return k;
    }
    std::shared_ptr<FileStream> c_os_open(const OSService* o, const std::string& p, int flags, unsigned mode)
    {
        irv_assert(o == X.root && is(p, X.p[0].e, X.p[0].n), "the translated path is opened");
        irv_assert(X.opens++ == 0, "it is opened once");
        X.flags = flags;
        X.b = mode;
        if (irv_split(X.fail))
            throw VFSException(X.err);
        return std::shared_ptr<FileStream>(std::shared_ptr<void>(), new SpecFile);
    }
    std::unique_ptr<lite::AESGCMCryptStream> c_opener_open(void*, const std::shared_ptr<StreamBase>& base)
    {
        irv_assert(X.locks > 0, "the header is read or made under a lock");
        if (irv_split(X.bad))
            throw VFSException(EIO);
        return std::unique_ptr<lite::AESGCMCryptStream>((lite::AESGCMCryptStream*)X.s);
    }
    const OSService* c_os_default() { return X.root; }
    static int entry(std::string_view n)
    {
        int i = irv_split(X.entries > 1 && n.data()[0] == X.en[1][0]);
        irv_assert(is(n, X.en[i], X.enn[i]), "a stored name is decrypted");
        return i;
    }
    std::string c_lookup(LongNameLookupTable*, std::string_view n)
    {
        int i = entry(n);
        irv_assert(X.kind[i] == LONG || X.kind[i] == LOST, "only long names are looked up");
        if (X.kind[i] == LOST)
            return {};
        return std::string(X.p[0].l, X.p[0].ln);
    }
    uint64_t c_real_size(uint64_t n, uint64_t, uint64_t) { return irv_uf("plain", 64, n); }
}
struct Translator : public NameTranslator
{
    bool is_no_op() const noexcept override { return X.noop; }
    std::string encrypt_full_path(std::string_view path, std::string* last) override
    {
        bool second = path.data() == X.p[1].text && X.p[1].text;
        Path& p = X.p[second];
        irv_assert(path.data() == p.text && p.text[path.size()] == 0 && (X.x >= path.size() || p.text[X.x] != 0),
                   "the caller's path is translated");
        if (p.lng && last)
            *last = std::string(p.l, p.ln);
        return std::string(p.e, p.n);
    }
    std::variant<InvalidNameTag, LongNameTag, std::string> decrypt_path_component(std::string_view n) override
    {
        if (n.empty())
            return InvalidNameTag{};    // what the table does not have
        if (irv_split(n[0] == X.p[0].l[0]))
        {
            irv_assert(is(n, X.p[0].l, X.p[0].ln), "the name from the table is decrypted");
            int i = X.kind[0] == LONG && X.seen == 0 && X.at_long == 0 ? 0 : X.kind[0] == LONG ? X.at_long : 1;
            ++X.at_long;
            return std::string(X.dn[i], X.dnn[i]);
        }
        int i = entry(n);
        switch (X.kind[i])
        {
        case INVALID:
            return InvalidNameTag{};
        case LONG:
        case LOST:
            return LongNameTag{};
        case THROWS:
            throw VFSException(EINVAL);
        }
        return std::string(X.dn[i], X.dnn[i]);
    }
    std::string encrypt_path_for_symlink(std::string_view t) override
    {
        irv_assert(t.data() == X.target && X.target[t.size()] == 0 && (X.x >= t.size() || X.target[X.x] != 0), "the caller's target is sealed");
        return std::string(X.sealed, X.sealedn);
    }
    std::string decrypt_path_from_symlink(std::string_view t) override
    {
        irv_assume(t.size() >= X.sealedn || X.sealed[t.size()] != 0);    // targets hold no NUL
        irv_assert(is(t, X.sealed, X.sealedn), "the whole stored target is opened");
        return std::string(X.target, X.targetn);
    }
    unsigned max_virtual_path_component_size(unsigned n) override { return n; }
};
static char* text(const char* what)
{
    uint64_t n = irv_len(what, 0, 1 << 16, 100);
    char* p = (char*)irv_array(what, n + 1);
    p[n] = 0;
    return p;
}
static void path(int i, bool lng)
{
    Path& p = X.p[i];
    p.text = text(i ? "path2" : "path");
    p.n = irv_len(i ? "n2" : "n", 32, 1 << 17, 200);
    p.cut = irv_var(i ? "cut2" : "cut", 16, 1 << 17);
    irv_assume(p.cut <= p.n - 16);
    p.e = (char*)irv_array(i ? "stored path 2" : "stored path", p.n);
    p.lng = lng;
    p.ln = irv_len(i ? "long2" : "long", 16, 1 << 17, 200);
    p.l = (char*)irv_array(i ? "long name 2" : "long name", p.ln);
    p.tn = irv_len(i ? "tablen2" : "tablen", 16, 1 << 17, 200);
    p.table = (char*)irv_array(i ? "table 2" : "table", p.tn);
    if (i)
        irv_assume(p.e[0] != X.p[0].e[0]);
}
static void begin(bool lng)
{
    memset(&X, 0, sizeof(X));
    X.x = irv_var("x", 0, 1 << 18);
    irv_focus(X.x);
    X.fail = irv_var("fail", 0, 1);
    X.err = (int)irv_var("errno", 1, 200);
    path(0, lng);
    X.root = (OSService*)irv_array("root", sizeof(OSService));
    new (&X.root->m_dir_name) std::string("/somewhere/below/the/root");
    the_mutex = new Mutex;
    key_type k;
    irv_havoc(k.data(), 32, "key");
    std::shared_ptr<void> none;
    auto* opener = (StreamOpener*)irv_array("opener", sizeof(StreamOpener));
    opener->block_size_ = 4096;
    opener->iv_size_ = 12;
    opener->max_padding_size_ = (unsigned)irv_var("padding", 0, 1 << 20);
    X.ops = new FuseHighLevelOps(std::shared_ptr<OSService>(none, X.root), std::shared_ptr<StreamOpener>(none, opener),
                                 std::shared_ptr<NameTranslator>(none, new Translator), std::shared_ptr<XattrCryptor>(),
                                 StrongType<key_type, tXattrMasterKey>(k), StrongType<bool, tEnableXattr>(true));
}
template <class F>
static int64_t run(F f)
{
    try
    {
        return f();
    }
    catch (const ExceptionBase& e)
    {
        return -e.error_number();
    }
}
// the table changed exactly when the operation succeeded
static void settled(bool ok, int updated, int removed)
{
    if (X.p[0].lng || X.p[1].lng)
    {
        irv_assert(X.tables == 1 && X.begun == 1, "one transaction of the table");
        irv_assert(X.committed == ok && X.rolled == !ok, "the table is kept if the operation succeeds, restored if it fails");
        irv_assert(X.updated == updated && X.removed == removed, "what the table remembers");
    }
    else
        irv_assert(X.tables + X.begun + X.committed + X.rolled + X.updated + X.removed == 0, "the table is left alone");
}
static void ended(int code, int64_t r)
{
    irv_assert(X.done == 1 && X.code == code, "the operation is done once");
    irv_assert(r == (X.fail ? -X.err : 0), "its outcome is reported");
}
PROOF(C12_make)
{
    begin(irv_split(irv_var("is long", 0, 1)));
    X.a = irv_var("mode", 0, 0xffff);
    int64_t r;
    switch (irv_concretize(irv_var("which", 0, 3)))
    {
    case 0:
        r = run([&] { return X.ops->vmkdir(X.p[0].text, X.a, nullptr); });
        ended('m', r);
        settled(r == 0, 1, 0);
        irv_cover("mkdir");
        break;
    case 1:
        X.target = text("target");
        X.sealedn = irv_len("sealed", 16, 1 << 17, 200);
        X.sealed = (char*)irv_array("sealed", X.sealedn);
        r = run([&] { return X.ops->vsymlink(X.target, X.p[0].text, nullptr); });
        ended('s', r);
        settled(r == 0, 1, 0);
        irv_cover("symlink");
        break;
    case 2:
        path(1, false);
        X.p[1].lng = false;
        r = run([&] { return X.ops->vlink(X.p[1].text, X.p[0].text, nullptr); });
        ended('l', r);
        settled(r == 0, 1, 0);
        irv_cover("link");
        break;
    default:
        r = run([&] { return X.ops->vunlink(X.p[0].text, nullptr); });
        ended('u', r);
        settled(r == 0, 0, 1);
        irv_cover("unlink");
    }
}
PROOF(C12_rmdir)
{
    begin(irv_split(irv_var("is long", 0, 1)));
    X.noop = irv_split(irv_var("no-op", 0, 1));
    X.fail = false;
    X.err = (int)irv_var("eexist", 0, 1);
    if (X.noop)
        irv_assume(!X.p[0].lng);
    // what the directory holds: nothing, a table, something else (perhaps with a table)
    X.kids = (int)irv_concretize(irv_var("kids", 0, 2));
    X.tabled = X.kids == 1 || (X.kids == 2 && irv_split(irv_var("tabled", 0, 1)));
    int kids = X.kids;
    int64_t r = run([&] { return X.ops->vrmdir(X.p[0].text, nullptr); });
    if (kids == 0 || (kids == 1 && !X.noop))
    {
        irv_assert(r == 0 && X.gone, "an empty directory is removed");
        settled(true, 0, 1);
        irv_cover("removed");
    }
    else
    {
        irv_assert((r == -ENOTEMPTY || r == -EEXIST) && !X.gone && X.kids == kids, "a directory that is not empty stays as it is");
        settled(false, 0, 1);
        irv_cover("not empty");
    }
}
PROOF(C12_rmdir_error)
{
    begin(irv_split(irv_var("is long", 0, 1)));
    X.fail = true;
    X.noop = irv_split(irv_var("no-op", 0, 1));
    irv_assume(X.err != ENOTEMPTY && X.err != EEXIST && !(X.noop && X.p[0].lng));
    X.kids = 2;
    int64_t r = run([&] { return X.ops->vrmdir(X.p[0].text, nullptr); });
    irv_assert(r == -X.err && !X.gone, "an error is reported");
    settled(false, 0, 1);
    irv_cover("error");
}
PROOF(C12_attributes)
{
    begin(irv_var("is long", 0, 1));
    X.a = irv_var("a", 0, 0xffffffff);
    X.b = irv_var("b", 0, 0xffffffff);
    int64_t r;
    switch (irv_concretize(irv_var("which", 0, 2)))
    {
    case 0:
        r = run([&] { return X.ops->vchmod(X.p[0].text, X.a, nullptr); });
        ended('c', r);
        irv_cover("chmod");
        break;
    case 1:
        r = run([&] { return X.ops->vchown(X.p[0].text, X.a, X.b, nullptr); });
        ended('o', r);
        irv_cover("chown");
        break;
    default:
        X.ptr = &X;
        r = run([&] { return X.ops->vutimens(X.p[0].text, (fuse_timespec*)&X, nullptr); });
        ended('t', r);
        irv_cover("utimens");
    }
    irv_assert(X.tables == 0, "the table is left alone");
}
PROOF(C12_rename)
{
    begin(irv_split(irv_var("is long", 0, 1)));
    path(1, irv_split(irv_var("is long 2", 0, 1)));
    X.renaming = true;
    X.same = irv_split(irv_var("links of one file", 0, 1));
    X.gone = irv_var("gone", 0, 1);
    X.fresh = irv_var("fresh", 0, 1);
    X.unknown = irv_var("no attributes", 0, 1);
    irv_assume(!X.same || (!X.gone && !X.fresh));
    int64_t r = run([&] { return X.ops->vrename(X.p[0].text, X.p[1].text, nullptr); });
    if (X.unknown && X.done == 0)
    {
        irv_assert(r == -X.err && X.committed + X.updated + X.removed == 0, "a failure changes nothing");
        irv_cover("unknown");
        return;
    }
    if (X.same && (X.p[0].lng || X.p[1].lng))
    {
        irv_assert(X.updated + X.removed == 0 || X.committed == 0, "links of one file stay as they are: the table too");
        irv_assert(X.done ? r == (X.fail ? -X.err : 0) : r == 0, "renaming a link onto another one of the same file does nothing");
        irv_cover("same");
        return;
    }
    ended('r', r);
    settled(r == 0, X.p[1].lng, X.p[0].lng);
    irv_cover("renamed");
}

// attributes: type, times and permissions are those of the underlying object, the size is that of the plain text
PROOF(C12_getattr)
{
    begin(irv_var("is long", 0, 1));
    X.gone = irv_var("gone", 0, 1);
    X.noop = irv_split(irv_var("no-op", 0, 1));
    unsigned types[4] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO};
    unsigned type = types[irv_concretize(irv_var("type", 0, 3))];
    X.mode = type | irv_var("perm", 0, 07777);
    X.size = irv_var("size", 0, type == S_IFLNK ? 1 << 17 : 1ull << 60);
    X.mtime = irv_var("mtime", 0, 1ull << 40);
    X.sealedn = X.size;
    X.sealed = (char*)irv_array("sealed", X.sealedn);
    X.targetn = irv_len("targetn", 16, 1 << 17, 200);
    X.target = (char*)irv_array("target", X.targetn);
    unsigned padding = X.ops->opener_->max_padding_size_;
    X.s = new Stream;
    uint64_t plain = X.s->sz = irv_var("plain size", 0, 1ull << 44);
    X.bad = irv_var("bad header", 0, 1);
    fuse_stat st;
    int64_t r = run([&] { return X.ops->vgetattr(X.p[0].text, &st, nullptr); });
    irv_assert(X.tables + X.done == 0 && X.locks == 0, "nothing is changed");
    if (X.fail)
    {
        irv_assert(r == -X.err, "an error is reported");
        irv_cover("error");
        return;
    }
    if (X.gone)
    {
        irv_assert(r == -ENOENT, "what is not there has no attributes");
        irv_cover("nothing");
        return;
    }
    bool padded = padding > 0 && X.size > 0 && type == S_IFREG;
    irv_assert(X.opens == (int)padded, "a file is opened when its size depends on its padding");
    if (padded)
        irv_assert((X.flags & O_ACCMODE) == O_RDONLY && !(X.flags & (O_CREAT | O_TRUNC)), "it is only read");
    if (padded && X.bad)
    {
        irv_assert(r == -EIO, "a broken header is reported");
        irv_cover("broken");
        return;
    }
    if (type == S_IFIFO && X.size > 0)
    {
        irv_assert(r == -ENOTSUP, "other objects are refused");
        irv_cover("refused");
        return;
    }
    irv_assert(r == 0 && st.st_mode == X.mode && st.st_mtime == (time_t)X.mtime, "mode and times");
    if (X.size == 0 || type == S_IFDIR)
        irv_assert(st.st_size == (off_t)X.size, "the size of directories is not translated");
    else if (type == S_IFLNK)
        irv_assert(st.st_size == (off_t)(X.noop ? X.size : X.targetn), "the size of a link is that of its target");
    else
        irv_assert(st.st_size == (off_t)(padding ? plain : irv_uf("plain", 64, X.size)), "the size of a file is that of the plain text");
    irv_cover("attributes");
}
PROOF(C12_open)
{
    begin(irv_split(irv_var("is long", 0, 1)));
    bool create = irv_split(irv_var("create", 0, 1));
    X.s = new Stream;
    X.s->sz = irv_var("plain size", 0, 1ull << 44);
    X.bad = irv_var("bad header", 0, 1);
    uint64_t k = irv_var("k", 0, 1ull << 44);
    irv_assume(k < X.s->sz);
    uint8_t was = X.s->d[k];
    uint64_t sz = X.s->sz;
    X.a = irv_var("mode", 0, 07777);
    fuse_file_info fi;
    memset(&fi, 0, sizeof(fi));
    int flags = (int)irv_var("flags", 0, 1 << 22);
    irv_assume((flags & O_ACCMODE) != 3 && !(flags & O_CREAT));
    fi.flags = flags;
    int64_t r = run([&] { return create ? X.ops->vcreate(X.p[0].text, X.a, &fi, nullptr) : X.ops->vopen(X.p[0].text, &fi, nullptr); });
    bool ok = !X.fail && !X.bad;
    irv_assert(r == (X.fail ? -X.err : X.bad ? -EIO : 0), "the outcome is reported");
    irv_assert(X.opens == 1 && X.locks == 0, "the file is opened, and no lock is left");
    if (create)
    {
        settled(ok, 1, 0);
        irv_assert((X.flags & O_CREAT) && (X.flags & O_EXCL) && (X.flags & O_ACCMODE) == O_RDWR && !(X.flags & O_APPEND), "a new file is made");
        irv_assert(((unsigned)X.b & ~0400u) == ((unsigned)X.a & ~0400u) && ((unsigned)X.b & 0400), "the permissions asked for, and to read its own header");
    }
    else
    {
        irv_assert(X.tables == 0, "the table is left alone");
        irv_assert(!(X.flags & (O_APPEND | O_CREAT)), "the kernel's position is ignored, nothing is made");
        irv_assert((X.flags & O_ACCMODE) == ((flags & O_ACCMODE) == O_RDONLY ? O_RDONLY : O_RDWR), "a file to be written can be read as well");
        irv_assert(((X.flags ^ flags) & ~(O_ACCMODE | O_APPEND | O_TRUNC)) == 0, "the other flags are passed on");
    }
    if (ok)
    {
        irv_assert(fi.fh && get_base(&fi)->as_file() && !get_base(&fi)->as_dir(), "a handle of a file");
        if (!create && (flags & O_TRUNC))
            irv_assert(X.s->sz == 0, "the file is cut off");
        else
            irv_assert(X.s->sz == sz && X.s->d[k] == was && !X.s->writes && !X.s->resizes, "opening changes nothing");
        irv_cover("opened");
    }
    else
    {
        irv_assert(!X.s->writes && !X.s->resizes, "a failure changes nothing");
        irv_cover("failed");
    }
}
PROOF(C12_io)
{
    begin(false);
    X.fail = X.bad = false;
    X.s = new Stream;
    X.s->sz = irv_var("plain size", 0, 1ull << 44);
    fuse_file_info fi;
    memset(&fi, 0, sizeof(fi));
    fi.flags = O_RDWR;
    irv_assert(X.ops->vopen(X.p[0].text, &fi, nullptr) == 0, "opened");
    uint64_t off = irv_var("offset", 0, 1ull << 43), n = irv_var("length", 0, 0x7fffffff), k = irv_var("k", 0, 1ull << 44), sz = X.s->sz;
    uint8_t was = X.s->d[k];
    int64_t r;
    switch (irv_concretize(irv_var("which", 0, 5)))
    {
    case 0:
    {
        uint8_t* b = (uint8_t*)irv_array("buffer", n);
        r = run([&] { return X.ops->vread(X.p[0].text, (char*)b, n, off, &fi, nullptr); });
        uint64_t want = off >= sz ? 0 : sz - off < n ? sz - off : n;
        irv_assert(r == (int64_t)want, "the length that is there is read");
        irv_assert(!(k >= off && k - off < want) || b[k - off] == was, "the bytes of the plain text");
        irv_assert(!X.s->writes && !X.s->resizes, "reading changes nothing");
        irv_cover("read");
        break;
    }
    case 1:
    {
        uint8_t* b = (uint8_t*)irv_array("buffer", n);
        r = run([&] { return X.ops->vwrite(X.p[0].text, (char*)b, n, off, &fi, nullptr); });
        irv_assert(r == (int64_t)n && X.s->writes == 1 && X.s->w_off == off && X.s->w_len == n, "the bytes are written at their place");
        irv_assert(!(k >= off && k - off < n) || X.s->d[k] == b[k - off], "the bytes given");
        irv_cover("write");
        break;
    }
    case 2:
        r = run([&] { return X.ops->vftruncate(X.p[0].text, off, &fi, nullptr); });
        irv_assert(r == 0 && X.s->sz == off && X.s->resizes == 1, "the file has the size asked for");
        irv_cover("resize");
        break;
    case 3:
        r = run([&] { return X.ops->vflush(X.p[0].text, &fi, nullptr); });
        irv_assert(r == 0 && X.s->flushes >= 1, "what was written is flushed");
        irv_cover("flush");
        break;
    case 4:
        r = run([&] { return X.ops->vfsync(X.p[0].text, irv_var("datasync", 0, 1), &fi, nullptr); });
        irv_assert(r == 0 && X.s->flushes >= 1 && X.fsyncs == 1, "what was written is flushed and synchronised");
        irv_cover("fsync");
        break;
    default:
    {
        fuse_stat st;
        X.mode = irv_var("mode", 0, 0xffff);
        X.mtime = irv_var("mtime", 0, 1ull << 40);
        r = run([&] { return X.ops->vfgetattr(X.p[0].text, &st, &fi, nullptr); });
        irv_assert(r == 0 && st.st_mode == X.mode && st.st_mtime == (time_t)X.mtime && st.st_size == (off_t)sz, "attributes of an open file");
        irv_cover("fstat");
    }
    }
    irv_assert(X.locks == 0, "no lock is left");
}
PROOF(C12_truncate)
{
    begin(irv_var("is long", 0, 1));
    X.bad = irv_var("bad header", 0, 1);
    X.s = new Stream;
    X.s->sz = irv_var("plain size", 0, 1ull << 44);
    uint64_t n = irv_var("size", 0, 1ull << 43);
    int64_t r = run([&] { return X.ops->vtruncate(X.p[0].text, n, nullptr); });
    irv_assert(X.opens == 1 && X.locks == 0 && X.tables == 0, "the file is opened, and no lock is left");
    irv_assert((X.flags & O_ACCMODE) == O_RDWR && !(X.flags & (O_CREAT | O_TRUNC)), "an existing file");
    irv_assert(r == (X.fail ? -X.err : X.bad ? -EIO : 0), "the outcome is reported");
    if (r == 0)
        irv_assert(X.b == n && X.truncs == 1, "the file has the size asked for");
    else
        irv_assert(X.truncs == 0, "a failure changes nothing");
    irv_cover("truncate");
}

PROOF(C12_readlink)
{
    begin(irv_var("is long", 0, 1));
    X.targetn = irv_len("targetn", 16, 1 << 17, 200);
    X.target = (char*)irv_array("target", X.targetn);
    X.sealedn = irv_len("sealedn", 1, 1 << 17, 200);
    X.sealed = (char*)irv_array("sealed", X.sealedn);
    uint64_t n = irv_var("size", 0, 1 << 18);
    irv_assume(X.sealedn <= 2 * n + 126);
    irv_focus(X.sealedn);
    char* b = (char*)irv_array("buffer", n);
    int64_t r = run([&] { return X.ops->vreadlink(X.p[0].text, b, n, nullptr); });
    if (n >= 2 && X.fail)
    {
        irv_assert(r == -X.err, "an error is reported");
        irv_cover("error");
        return;
    }
    irv_assert(r == 0, "the link is read");
    if (n >= 1)
    {
        uint64_t k = n - 1 < X.targetn ? n - 1 : X.targetn;
        if (n == 1)
            k = 0;
        irv_assert(b[k] == 0, "the target is terminated");
        irv_assert(X.x >= k || b[X.x] == X.target[X.x], "the target, cut to the buffer");
    }
    irv_cover("read");
}
static int fill(void* ctx, const char* name, const fuse_stat* st, fuse_off_t)
{
    irv_assert(ctx == X.ptr, "the caller's context");
    // which entry has to come
    while (X.seen < X.entries)
    {
        int k = X.kind[X.seen];
        if (k == DOT || k == DOTDOT || (X.noop && k != DOT) || k == PLAIN || k == LONG)
            break;
        ++X.seen;
    }
    irv_assert(X.seen < X.entries, "only names that decrypt are listed, each once");
    int i = X.seen++;
    if (X.kind[i] == DOT || X.kind[i] == DOTDOT)
        irv_assert(name[0] == '.' && name[X.kind[i] + 1] == 0 && (X.kind[i] == DOT || name[1] == '.'), "the directory and its parent are listed");
    else
    {
        const char* want = X.noop ? X.en[i] : X.dn[i];
        uint64_t n = X.noop ? X.enn[i] : X.dnn[i];
        irv_assert(name[n] == 0 && (X.x >= n || name[X.x] == want[X.x]), "the decrypted name is listed");
    }
    irv_assert(st->st_mode == (unsigned)X.type[i], "its type");
    if ((X.type[i] & S_IFMT) == S_IFREG)
        irv_assert(st->st_size == (off_t)(X.plus && X.kind[i] > DOTDOT ? irv_uf("plain", 64, X.esize[i]) : X.esize[i]), "its size");
    return 0;
}
PROOF_SMALL(C12_listing)
{
    begin(false);
    X.listing = true;
    X.noop = irv_split(irv_var("no-op", 0, 1));
    X.entries = (int)irv_concretize(irv_var("entries", 0, 2));
    X.plus = irv_split(irv_var("plus", 0, 1));
    if (X.plus)
        X.ops->opener_->max_padding_size_ = 0;
    X.ops->read_dir_plus_ = X.plus;
    for (int i = 0; i < X.entries; ++i)
    {
        X.kind[i] = (int)irv_concretize(irv_var(i ? "kind2" : "kind", 0, KINDS - 1));
        X.type[i] = (irv_split(irv_var(i ? "dir2" : "dir", 0, 1)) ? S_IFDIR : S_IFREG) | 0600;
        X.esize[i] = irv_var(i ? "size2" : "size", 0, 1ull << 60);
        X.enn[i] = irv_var(i ? "enn2" : "enn", 16, 255);
        X.en[i] = (char*)irv_array(i ? "en2" : "en", X.enn[i]);
        X.dnn[i] = irv_var(i ? "dnn2" : "dnn", 16, 255);
        X.dn[i] = (char*)irv_array(i ? "dn2" : "dn", X.dnn[i]);
        irv_assume((X.en[i][0] == '.') == (X.kind[i] == HIDDEN));
        irv_assume(X.en[i][0] != X.p[0].l[0]);
        if (i)
            irv_assume(X.en[0][0] != X.en[1][0]);
    }
    if (X.entries == 2 && X.kind[0] == HIDDEN && X.kind[1] == HIDDEN)
        return;    // would not be told apart
    irv_assume(X.p[0].l[0] != '.');
    fuse_file_info fi;
    memset(&fi, 0, sizeof(fi));
    irv_assert(X.ops->vopendir(X.p[0].text, &fi, nullptr) == 0 && fi.fh, "the directory is opened");
    X.ptr = &fi;
    int passes = X.entries == 2 ? 1 : 1 + irv_split(irv_var("again", 0, 1));
    for (int i = 0; i < passes; ++i)
    {
        X.seen = X.at_long = 0;
        int r = X.ops->vreaddir(X.p[0].text, &fi, &fill, 0, &fi, nullptr);
        irv_assert(r == 0 && X.rewinds == i + 1, "a listing begins at the beginning");
        // nothing that decrypts is left out
        for (; X.seen < X.entries; ++X.seen)
        {
            int k = X.kind[X.seen];
            irv_assert(!(k == DOT || k == DOTDOT || X.noop || k == PLAIN || k == LONG), "every name that decrypts is listed");
        }
    }
    irv_cover("listed");
}
#endif
