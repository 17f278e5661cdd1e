// C11: operations of the full format, over contracts of the file table (C09), the directories (C07) and the file
// objects (C08).
// irv: contract ^securefs::FileBase::FileBase\(.*StrongType => c_base
// irv: contract ^securefs::FileBase::lock\( => c_lock
// irv: contract ^securefs::FileBase::unlock\( => c_unlock
// irv: contract ^securefs::FileBase::try_lock\( => c_try_lock
// irv: contract ^securefs::FileBase::initialize_empty\( => c_init
// irv: contract ^securefs::FileBase::stat\( => c_stat
// irv: contract ^securefs::FileBase::utimens\( => c_utimens
// irv: contract ^securefs::FileBase::flush\( => c_flush
// irv: contract ^securefs::FileBase::fsync\( => c_fsync
// irv: contract ^securefs::FileBase::listxattr\( => c_listxattr
// irv: contract ^securefs::FileBase::getxattr\( => c_getxattr
// irv: contract ^securefs::FileBase::setxattr\( => c_setxattr
// irv: contract ^securefs::FileBase::removexattr\( => c_removexattr
// irv: contract ^securefs::RegularFile::read\( => c_read
// irv: contract ^securefs::RegularFile::write\( => c_write
// irv: contract ^securefs::RegularFile::truncate\( => c_truncate
// irv: contract ^securefs::Symlink::get(\[|\() => c_target
// irv: contract ^securefs::Symlink::set\( => c_set_target
// irv: contract ^securefs::OSService::get_current_time\( => c_now
// irv: contract ^securefs::full_format::FileTable::open_as\( => c_open_as
// irv: contract ^securefs::full_format::FileTable::create_as\( => c_create_as
// irv: contract ^securefs::full_format::FileTableCloser::operator\(\)\( => c_close
// irv: contract ^securefs::full_format::FuseHighLevelOps::open_base\( => c_open_base
// irv: contract ^securefs::full_format::FuseHighLevelOps::generic_open\( => c_generic_open
// irv: assumes where source and target of a rename are different entries of one directory, their names differ in the first byte (which tells them apart in the contracts)
// irv: assumes a rename of a directory into itself is refused by the kernel
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <map>
#define private public
#define protected public
#include "full_format.cpp"
#undef private
#undef protected
using namespace securefs;
using namespace securefs::full_format;
namespace securefs
{
FileBase::~FileBase() {}
void FileBase::throw_invalid_cast(int to) { throw VFSException(error_number_for_not(to)); }
int FileBase::get_real_type() { return type_for_mode(get_mode() & S_IFMT); }
}
struct SpecDirectory;
struct Name
{
    char* p;
    uint64_t n;
};
struct Place    // one entry of one directory
{
    SpecDirectory* dir;
    Name name;
    bool there, lng;
    id_type id;
    int type;
};
static struct
{
    FuseHighLevelOps* ops;
    FileTable* ft;
    char* path[2];
    uint64_t len[2];
    Place pl[2], was[2];
    bool same;          // both paths name one entry
    SpecDirectory* obj[2];    // what the entries refer to
    SpecDirectory* fresh;
    SpecDirectory* root;
    uint64_t x;
    bool no_base[2];
    int base_err;
    int opened, closed, changes, iterations;
    int kids;
    uint64_t a, b, c;
    const void *ptr, *ptr2;
    int did, creates, created_type, inits;
    int64_t result;
    Name target;
    int resolved;
    bool lost;
    bool adding;
} X;
struct SpecDirectory : public Directory
{
    int t;
    int held, parents;
    SpecDirectory()
        : Directory(DirNameComparison{nullptr}, std::shared_ptr<FileStream>(), std::shared_ptr<FileStream>(), StrongType<key_type, tMasterKey>(key_type()),
                    id_type(), StrongType<bool, tVerify>(true), StrongType<unsigned, tBlockSize>(4096u), StrongType<unsigned, tIvSize>(12u),
                    StrongType<unsigned, tMaxPaddingSize>(0u), StrongType<bool, tStoreTimeWithinFs>(true))
    {
    }
    int type() const noexcept override { return t; }
    Place& place(std::string_view name)
    {
        irv_assert(held == 1, "a directory is used under its lock");
        int i = 0;
        if (X.pl[1].dir)
        {
            if (X.pl[0].dir != X.pl[1].dir)
                i = this == X.pl[1].dir;
            else
                i = !X.same && irv_split(name.size() > 0 && name.data()[0] == X.pl[1].name.p[0]);
        }
        Place& p = X.pl[i];
        irv_assert(this == p.dir, "the directory of the path");
        Name& m = p.name;
        bool eq = name.size() == m.n && (X.x >= m.n || name[X.x] == m.p[X.x]);
        if (X.same)
        {
            Name& o = X.pl[1].name;
            eq = eq || (name.size() == o.n && (X.x >= o.n || name[X.x] == o.p[X.x]));
        }
        irv_assert(eq, "the last component of the path");
        if (irv_split(p.lng || (X.same && X.pl[1].lng)))
            throw VFSException(ENAMETOOLONG);
        return p;
    }
    std::optional<std::string_view> get_entry_impl(std::string_view name, id_type& id, int& type) override
    {
        Place& p = place(name);
        if (!irv_split(p.there))
            return {};
        id = p.id;
        type = p.type;
        return std::string_view(p.name.p, p.name.n);
    }
    bool add_entry_impl(std::string_view name, const id_type& id, int type) override
    {
        Place& p = place(name);
        if (irv_split(p.there))
            return false;
        ++X.changes;
        p.there = true;
        p.id = id;
        p.type = type;
        if (X.same)
            irv_assert(name.size() == X.pl[1].name.n && (X.x >= name.size() || name[X.x] == X.pl[1].name.p[X.x]), "the new spelling is kept");
        return true;
    }
    bool remove_entry_impl(std::string_view name, id_type& id, int& type) override
    {
        Place& p = place(name);
        if (!irv_split(p.there))
            return false;
        ++X.changes;
        p.there = false;
        id = p.id;
        type = p.type;
        return true;
    }
    void iterate_over_entries_impl(const callback& cb) override
    {
        irv_assert(held == 1, "a directory is used under its lock");
        ++X.iterations;
        if (irv_split(X.kids != 0))
        {
            id_type k;
            irv_havoc(&k, sizeof(k), "kid");
            std::string n((const char*)irv_array("kidname", 17), 17);
            cb(n, k, (int)irv_var("kidtype", 0, 15));
        }
    }
    bool empty() override
    {
        irv_assert(held == 1, "a directory is used under its lock");
        return X.kids == 0;
    }
};
static SpecDirectory* make(int t)
{
    auto* d = new SpecDirectory;
    d->t = t;
    d->held = 0;
    d->parents = 0;
    irv_havoc(const_cast<id_type*>(&d->m_id), sizeof(id_type), "id");
    uint32_t mode = irv_var("mode", 0, 0xFFFFFFFFu);
    irv_assume((mode & S_IFMT) == FileBase::mode_for_type(t));
    d->m_flags[0] = mode;
    d->m_flags[1] = (uint32_t)irv_var("uid", 0, 0xFFFFFFFFu);
    d->m_flags[2] = (uint32_t)irv_var("gid", 0, 0xFFFFFFFFu);
    d->m_flags[3] = (uint32_t)irv_var("nlink", 1, 0xFFFFFFFEu);
    d->m_dirty = false;
    *const_cast<bool*>(&d->m_store_time) = irv_var("store", 0, 1);
    return d;
}
static bool eq(const id_type& a, const id_type& b) { return !memcmp(a.data(), b.data(), 32); }
static int some_type() { return irv_split(irv_var("isdir", 0, 1)) ? S_IFDIR >> 12 : irv_split(irv_var("islink", 0, 1)) ? S_IFLNK >> 12 : S_IFREG >> 12; }
static void name_path(int i)
{
    X.path[i] = (char*)irv_array("path", irv_var("len", 2, 1u << 20));
    X.len[i] = irv_size_of(X.path[i]) - 1;
    irv_assume(X.path[i][X.len[i]] == 0 && X.path[i][0] == '/' && X.path[i][1] != 0);
    X.pl[i].name.n = irv_var("last", 1, 1u << 20);
    X.pl[i].name.p = (char*)irv_array("name", X.pl[i].name.n);
    X.pl[i].lng = irv_var("long", 0, 1);
    X.no_base[i] = irv_var("nobase", 0, 1);
}
static FuseHighLevelOps* world(int paths, bool relate = true)
{
    memset(&X, 0, sizeof X);
    X.ops = (FuseHighLevelOps*)malloc(sizeof(FuseHighLevelOps));
    X.ft = (FileTable*)malloc(1);
    memset(X.ops, 0, sizeof(FuseHighLevelOps));
    *(FileTable**)&X.ops->ft_ = X.ft;
    X.x = irv_var("x", 0, 1u << 20);
    irv_focus(X.x);
    X.base_err = irv_var("base_err", 1, 130);
    X.kids = irv_var("kids", 0, 1);
    for (int i = 0; i < paths; ++i)
    {
        name_path(i);
        Place& p = X.pl[i];
        if (i == 1 && irv_split(irv_var("same_dir", 0, 1)))
            p.dir = X.pl[0].dir;
        else
            p.dir = make(irv_split(irv_var("parent_is_dir", 0, 1)) ? S_IFDIR >> 12 : S_IFREG >> 12);
        p.there = irv_split(irv_var("there", 0, 1));
    }
    if (paths == 2 && X.pl[0].dir == X.pl[1].dir)
    {
        X.same = irv_split(irv_var("same_place", 0, 1));
        if (X.same)
            X.pl[1].there = X.pl[0].there;
        else
            irv_assume(X.pl[0].name.p[0] != X.pl[1].name.p[0]);
    }
    for (int i = 0; i < paths; ++i)
    {
        Place& p = X.pl[i];
        if (i == 1 && (X.same || irv_split(irv_var("same_file", 0, 1))))
            X.obj[1] = X.obj[0];
        else if (i == 1 && relate && irv_split(irv_var("onto_parent", 0, 1)))
        {
            X.obj[1] = X.pl[0].dir;    // /a/b/c renamed to /a/b
            X.kids = 1;
            irv_assume(X.pl[0].dir != X.pl[1].dir);
        }
        else
            X.obj[i] = make(some_type());
        p.type = X.obj[i]->t;
        p.id = X.obj[i]->m_id;
    }
    // one object per id
    SpecDirectory* all[4] = {X.pl[0].dir, X.pl[1].dir, X.obj[0], X.obj[1]};
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < i; ++j)
            if (all[i] && all[j] && all[i] != all[j])
                irv_assume(!eq(all[i]->m_id, all[j]->m_id));
    X.was[0] = X.pl[0];
    X.was[1] = X.pl[1];
    return X.ops;
}

template <class F>
static int attempt(F f)
{
    try
    {
        return f();
    }
    catch (const ExceptionBase& e)
    {
        return -e.error_number();
    }
}
static bool unchanged(int i)
{
    Place &p = X.pl[i], &w = X.was[i];
    return p.there == w.there && (!p.there || (eq(p.id, w.id) && p.type == w.type));
}
static SpecDirectory* S(FileBase* f) { return static_cast<SpecDirectory*>(f); }
static FilePtrHolder hold(SpecDirectory* d)
{
    ++X.opened;
    return FilePtrHolder(d, FileTableCloser(X.ft));
}
extern "C"
{
    void c_base(FileBase*, void*, void*, const void*, const void*, bool, unsigned, unsigned, unsigned, bool) {}
    void c_lock(FileBase* f)
    {
        irv_assert(S(f)->held == 0, "nothing waits for a lock it has");
        ++S(f)->held;
    }
    bool c_try_lock(FileBase* f)
    {
        if (S(f)->held)
            return false;
        ++S(f)->held;
        return true;
    }
    void c_unlock(FileBase* f)
    {
        irv_assert(S(f)->held == 1, "a lock is released once");
        --S(f)->held;
    }
    void c_now(fuse_timespec* t) { irv_havoc(t, sizeof(*t), "now"); }
    FilePtrHolder c_open_as(FileTable* t, const id_type& id, int type)
    {
        irv_assert(t == X.ft, "the table of the file system");
        for (int i = 0; i < 2; ++i)
            if (X.obj[i] && irv_split(eq(id, X.obj[i]->m_id)))
            {
                irv_assert(type == X.obj[i]->t, "a file is opened as what it is");
                return hold(X.obj[i]);
            }
        irv_assert(X.root && eq(id, kRootId), "only files the path leads to are opened");
        irv_assert(type == (S_IFDIR >> 12), "the root is a directory");
        return hold(X.root);
    }
    FilePtrHolder c_create_as(FileTable* t, int type)
    {
        irv_assert(t == X.ft && X.creates++ == 0, "one file is made");
        X.fresh = make(type);
        X.created_type = type;
        X.fresh->m_flags[3] = 0;
        return hold(X.fresh);
    }
    void c_close(const FileTableCloser* c, FileBase* f)
    {
        if (f)
        {
            irv_assert(S(f)->held == 0, "a lock is released before the file is closed");
            ++X.closed;
        }
    }
    FuseHighLevelOps::OpenBaseResult c_open_base(FuseHighLevelOps* o, std::string_view path)
    {
        int i = X.path[1] && path.data() == X.path[1];
        irv_assert(o == X.ops && path.data() == X.path[i] && path.data()[path.size()] == 0 && (X.x >= path.size() || path[X.x] != 0), "the caller's path is looked up");
        if (irv_split(X.no_base[i]))
            throw VFSException(X.base_err);
        return {hold(X.pl[i].dir), std::string_view(X.pl[i].name.p, X.pl[i].name.n)};
    }
    std::optional<FilePtrHolder> c_generic_open(FuseHighLevelOps* o, id_type parent, FilePtrHolder base, absl::Span<const std::string_view> names, int depth)
    {
        irv_assert(o == X.ops && base.get() == X.pl[0].dir && eq(parent, X.pl[0].dir->m_id), "a link is resolved from the directory it is in");
        irv_assert(depth == 0, "the depth of links counts from the start");
        ++X.resolved;
        if (irv_split(X.lost))
            return {};
        return hold(X.obj[1]);
    }
    void c_init(FileBase* f, uint32_t mode, uint32_t uid, uint32_t gid)
    {
        irv_assert(f == X.fresh && X.inits++ == 0, "a new file is initialised once");
        irv_assert(S(f)->held == 1, "a file is initialised under its lock");
        irv_assert(mode == (uint32_t)((X.a & 0777) | FileBase::mode_for_type(X.created_type)), "the mode asked for");
        irv_assert(uid == (uint32_t)X.b && gid == (uint32_t)X.c, "it belongs to the caller");
        S(f)->m_flags[0] = mode;
        S(f)->m_flags[3] = 1;
    }
    static void on(FileBase* f, int code)
    {
        irv_assert(f == X.obj[0] && S(f)->held == 1, "the operation acts on the file of the path, under its lock");
        irv_assert(X.did == 0, "once");
        X.did = code;
    }
    void c_stat(FileBase* f, fuse_stat* st)
    {
        irv_assert(st == X.ptr, "the caller's buffer");
        on(f, 's');
        irv_havoc(st, sizeof(*st), "stat");
        X.a = st->st_uid;
        X.b = st->st_gid;
        X.c = st->st_size ^ st->st_mode ^ st->st_ino ^ st->st_nlink;
    }
    void c_utimens(FileBase* f, const fuse_timespec* ts)
    {
        irv_assert(ts == X.ptr, "the caller's times");
        on(f, 'u');
    }
    void c_flush(FileBase* f) { on(f, 'f'); }
    void c_fsync(FileBase* f) { on(f, 'y'); }
    ssize_t c_listxattr(FileBase* f, char* b, size_t n)
    {
        irv_assert(b == X.ptr && n == X.a, "the caller's buffer");
        on(f, 'l');
        return X.result;
    }
    ssize_t c_getxattr(FileBase* f, const char* name, char* b, size_t n)
    {
        irv_assert(name == X.ptr2 && b == X.ptr && n == X.a, "the caller's name and buffer");
        on(f, 'g');
        return X.result;
    }
    void c_setxattr(FileBase* f, const char* name, const char* b, size_t n, int flags)
    {
        irv_assert(name == X.ptr2 && b == X.ptr && n == X.a && (flags & 3) == (int)(X.b & 3), "the caller's name, value and flags");
        on(f, 'a');
    }
    void c_removexattr(FileBase* f, const char* name)
    {
        irv_assert(name == X.ptr2, "the caller's name");
        on(f, 'r');
    }
    size_t c_read(RegularFile* f, void* b, uint64_t off, size_t n)
    {
        irv_assert(b == X.ptr && off == X.a && n == X.b, "the caller's buffer and range");
        on(f, 'R');
        return X.result;
    }
    void c_write(RegularFile* f, const void* b, uint64_t off, size_t n)
    {
        irv_assert(b == X.ptr && off == X.a && n == X.b, "the caller's bytes and range");
        on(f, 'W');
    }
    void c_truncate(RegularFile* f, uint64_t n)
    {
        irv_assert(n == X.a, "the size asked for");
        on(f, 'T');
    }
    std::string c_target(Symlink* f)
    {
        irv_assert(((FileBase*)f) == X.obj[0] && S(f)->held == 1, "the link of the path is read under its lock");
        return std::string(X.target.p, X.target.n);
    }
    void c_set_target(Symlink* f, std::string_view t)
    {
        irv_assert(((FileBase*)f) == X.fresh && S(f)->held == 1, "the new link gets its target under its lock");
        irv_assert(t.data() == X.target.p && t.data()[t.size()] == 0 && (X.x >= t.size() || t[X.x] != 0), "the target asked for");
        ++X.did;
    }
}
static void all_closed() { irv_assert(X.opened == X.closed, "every file opened is closed"); }
// what the table says about looking up path i
static bool reaches(int i) { return !X.no_base[i] && X.pl[i].dir->t == (S_IFDIR >> 12); }
static int lookup_error(int i) { return X.no_base[i] ? X.base_err : X.pl[i].dir->t != (S_IFDIR >> 12) ? ENOTDIR : ENAMETOOLONG; }
static const fuse_context* context()
{
    auto* c = (fuse_context*)malloc(sizeof(fuse_context));
    c->uid = (uint32_t)irv_var("cuid", 0, 0xFFFFFFFFu);
    c->gid = (uint32_t)irv_var("cgid", 0, 0xFFFFFFFFu);
    X.b = c->uid;
    X.c = c->gid;
    return c;
}

PROOF(C11_unlink)
{
    auto* o = world(1);
    uint32_t links = X.obj[0]->get_nlink();
    int rc = attempt([&] { return o->FuseHighLevelOps::vunlink(X.path[0], context()); });
    all_closed();
    if (!reaches(0) || X.pl[0].lng)
        irv_assert(rc == -lookup_error(0), "the error of the lookup");
    else if (!X.was[0].there)
        irv_assert(rc == -ENOENT, "what is not there cannot be removed");
    else if (X.obj[0]->t == (S_IFDIR >> 12))
        irv_assert(rc == -EISDIR || rc == -EPERM, "a directory is not unlinked");
    else
    {
        irv_assert(rc == 0 && !X.pl[0].there && X.changes == 1, "exactly the entry is removed");
        irv_assert(X.obj[0]->get_nlink() == links - 1 && X.obj[0]->m_dirty, "the file has one link less");
        irv_cover("removed");
        return;
    }
    irv_assert(X.changes == 0 && X.obj[0]->get_nlink() == links, "a failing unlink changes nothing");
    irv_cover("refused");
}
PROOF(C11_rmdir)
{
    auto* o = world(1);
    uint32_t links = X.obj[0]->get_nlink();
    int rc = attempt([&] { return o->FuseHighLevelOps::vrmdir(X.path[0], context()); });
    all_closed();
    if (!reaches(0) || X.pl[0].lng)
        irv_assert(rc == -lookup_error(0), "the error of the lookup");
    else if (!X.was[0].there)
        irv_assert(rc == -ENOENT, "what is not there cannot be removed");
    else if (X.obj[0]->t != (S_IFDIR >> 12))
        irv_assert(rc == -ENOTDIR, "only a directory is removed");
    else if (X.kids)
        irv_assert(rc == -ENOTEMPTY, "a directory that is not empty stays");
    else
    {
        irv_assert(rc == 0 && !X.pl[0].there && X.changes == 1, "exactly the entry is removed");
        irv_assert(X.obj[0]->get_nlink() == links - 1 && X.obj[0]->m_dirty, "the directory has one link less");
        irv_cover("removed");
        return;
    }
    irv_assert(X.changes == 0 && X.obj[0]->get_nlink() == links, "a failing rmdir changes nothing");
    irv_cover("refused");
}
PROOF(C11_rename)
{
    auto* o = world(2);
    SpecDirectory *a = X.obj[0], *b = X.obj[1];
    irv_assume(a != X.pl[1].dir);
    uint32_t la = a->get_nlink(), lb = b->get_nlink();
    int rc = attempt([&] { return o->FuseHighLevelOps::vrename(X.path[0], X.path[1], context()); });
    all_closed();
    const int D = S_IFDIR >> 12;
    Place *f = &X.was[0], *t = &X.was[1];
    if (!reaches(0) || !reaches(1) || f->lng || t->lng || !f->there)
    {
        irv_assert(rc < 0, "a rename from or to nowhere fails");
        irv_assert((!reaches(0) && rc == -lookup_error(0)) || (!reaches(1) && rc == -lookup_error(1))
                       || ((f->lng || t->lng) && rc == -ENAMETOOLONG) || (!f->there && rc == -ENOENT), "with its error");
    }
    else if (t->there && a == b)
    {
        irv_assert(rc == 0, "a file is renamed to itself");
        irv_assert(X.pl[0].there && eq(X.pl[0].id, f->id) && X.pl[0].type == f->type, "and keeps its entry");
        irv_assert(X.same || unchanged(1), "as does its other link");
        irv_assert(a->get_nlink() == la, "and its links");
        irv_cover("itself");
        return;
    }
    else if (t->there && f->type == D && t->type != D)
        irv_assert(rc == -ENOTDIR, "a directory does not replace a file");
    else if (t->there && f->type != D && t->type == D)
        irv_assert(rc == -EISDIR || rc == -ENOTEMPTY || rc == -EEXIST, "a file does not replace a directory");
    else if (t->there && t->type == D && X.kids)
        irv_assert(rc == -ENOTEMPTY || rc == -EEXIST, "a directory that is not empty is not replaced");
    else
    {
        irv_assert(rc == 0, "the rename succeeds");
        irv_assert(!X.pl[0].there, "the old name is gone");
        irv_assert(X.pl[1].there && eq(X.pl[1].id, f->id) && X.pl[1].type == f->type, "the new name leads to the file");
        irv_assert(a->get_nlink() == la, "the file keeps its links");
        if (t->there)
        {
            irv_assert(b->get_nlink() == lb - 1 && b->m_dirty, "what was replaced has one link less");
            irv_cover("replaced");
        }
        else
            irv_cover("renamed");
        return;
    }
    irv_assert(unchanged(0) && unchanged(1) && X.changes == 0 && a->get_nlink() == la && b->get_nlink() == lb, "a failing rename changes nothing");
    irv_cover("refused");
}
static void creation(int kind)
{
    auto* o = world(1);
    auto* c = context();
    X.a = kind == 2 ? 0644 : irv_var("newmode", 0, 0xFFFFFFFFu);
    fuse_file_info fi{};
    if (kind == 2)
    {
        uint64_t n = irv_var("targetlen", 1, 1u << 20);
        X.target.p = (char*)irv_array("target", n);
        irv_assume(X.target.p[n - 1] == 0);
    }
    int rc = attempt([&] { return kind == 0 ? o->FuseHighLevelOps::vcreate(X.path[0], X.a, &fi, c) : kind == 1 ? o->FuseHighLevelOps::vmkdir(X.path[0], X.a, c) : o->FuseHighLevelOps::vsymlink(X.target.p, X.path[0], c); });
    if (X.pl[0].dir->t != (S_IFDIR >> 12) && !X.no_base[0])
        irv_assert(rc == -ENOTDIR, "files are made in directories");
    else if (X.no_base[0] || X.pl[0].lng)
        irv_assert(rc == -lookup_error(0), "the error of the lookup");
    else if (X.was[0].there)
        irv_assert(rc == -EEXIST, "what exists is not made again");
    else
    {
        irv_assert(rc == 0 && X.changes == 1 && X.creates == 1 && X.inits == 1, "one entry is made");
        irv_assert(X.pl[0].there && eq(X.pl[0].id, X.fresh->m_id), "it leads to the new file");
        int t = kind == 0 ? S_IFREG >> 12 : kind == 1 ? S_IFDIR >> 12 : S_IFLNK >> 12;
        irv_assert(X.pl[0].type == t && X.created_type == t, "which has the type asked for");
        irv_assert(X.fresh->get_nlink() == 1, "and one link");
        irv_assert(eq(X.fresh->get_parent_id(), X.pl[0].dir->m_id), "and knows its parent");
        if (kind == 2)
            irv_assert(X.did == 1, "and its target");
        if (kind == 0)
            irv_assert(fi.fh == (uint64_t)(FileBase*)X.fresh && X.opened == X.closed + 1, "it stays open for the caller");
        else
            all_closed();
        irv_cover("made");
        return;
    }
    all_closed();
    irv_assert(X.changes == 0 && unchanged(0), "a failing creation leaves the tree alone");
    irv_assert(!X.fresh || X.fresh->get_nlink() == 0, "and the new file without a link");
    irv_cover("refused");
}
PROOF(C11_create) { creation(0); }
PROOF(C11_mkdir) { creation(1); }
PROOF(C11_symlink) { creation(2); }
PROOF(C11_link)
{
    auto* o = world(2, false);
    SpecDirectory *a = X.obj[0];
    irv_assume(a->t != (S_IFDIR >> 12) && a->t != (S_IFLNK >> 12));    // a link is followed; the kernel refuses directories
    uint32_t la = a->get_nlink();
    int rc = attempt([&] { return o->FuseHighLevelOps::vlink(X.path[0], X.path[1], context()); });
    all_closed();
    if (!reaches(0) || !reaches(1) || X.was[0].lng || X.was[1].lng || !X.was[0].there)
    {
        irv_assert(rc < 0, "a link from or to nowhere fails");
        irv_assert((!reaches(0) && rc == -lookup_error(0)) || (!reaches(1) && rc == -lookup_error(1))
                       || ((X.was[0].lng || X.was[1].lng) && rc == -ENAMETOOLONG) || (!X.was[0].there && rc == -ENOENT), "with its error");
    }
    else if (X.was[1].there)
        irv_assert(rc == -EEXIST, "what exists is not replaced by a link");
    else
    {
        irv_assert(rc == 0 && unchanged(0) && X.changes == 1, "one entry is made");
        irv_assert(X.pl[1].there && eq(X.pl[1].id, a->m_id) && X.pl[1].type == a->t, "it leads to the file");
        irv_assert(a->get_nlink() == la + 1, "which has one link more");
        irv_cover("linked");
        return;
    }
    irv_assert(unchanged(0) && unchanged(1) && X.changes == 0 && a->get_nlink() == la, "a failing link changes nothing");
    irv_cover("refused");
}
// the operations on what a path leads to
static int by_path(int rc, bool (*what)(), bool needs_reg = false)
{
    all_closed();
    irv_assert(X.changes == 0, "the tree stays as it is");
    if (!reaches(0) || X.pl[0].lng)
        irv_assert(rc == -lookup_error(0) && !X.did, "the error of the lookup");
    else if (!X.was[0].there)
        irv_assert(rc == -ENOENT && !X.did, "what is not there is reported");
    else if (needs_reg && X.obj[0]->t != (S_IFREG >> 12))
        irv_assert(rc < 0 && !X.did, "only a regular file has contents");
    else
    {
        irv_assert(eq(X.obj[0]->get_parent_id(), X.pl[0].dir->m_id), "the file knows its parent");
        irv_cover("done");
        return 1;
    }
    irv_cover("refused");
    return 0;
}
PROOF(C11_getattr)
{
    auto* o = world(1);
    fuse_stat st;
    X.ptr = &st;
    bool u = irv_split(irv_var("uo", 0, 1)), g = irv_split(irv_var("go", 0, 1));
    int ou = irv_var("ou", 0, 0x7FFFFFFF), og = irv_var("og", 0, 0x7FFFFFFF);
    if (u)
        o->owner_override_.uid_override = ou;
    if (g)
        o->owner_override_.gid_override = og;
    int rc = attempt([&] { return o->FuseHighLevelOps::vgetattr(X.path[0], &st, nullptr); });
    if (by_path(rc, nullptr))
    {
        irv_assert(rc == 0 && X.did == 's', "the attributes of the file");
        irv_assert(st.st_uid == (u ? (uint32_t)ou : (uint32_t)X.a) && st.st_gid == (g ? (uint32_t)og : (uint32_t)X.b), "its owner, unless overridden");
        irv_assert((st.st_size ^ st.st_mode ^ st.st_ino ^ st.st_nlink) == X.c, "the rest as it is");
    }
}
// the root: "" and "/"
PROOF(C11_root)
{
    auto* o = world(1);
    X.path[0][0] = irv_split(irv_var("slash", 0, 1)) ? '/' : 0;
    X.path[0][1] = 0;
    X.obj[0] = nullptr;
    X.root = make(S_IFDIR >> 12);
    memcpy(const_cast<uint8_t*>(X.root->m_id.data()), kRootId.data(), 32);
    irv_assume(!eq(X.pl[0].dir->m_id, kRootId));
    fuse_file_info fi{};
    int rc = attempt([&] { return o->FuseHighLevelOps::vopendir(X.path[0], &fi, nullptr); });
    irv_assert(rc == 0 && fi.fh == (uint64_t)(FileBase*)X.root && X.root->held == 0, "the root is opened");
    irv_assert(X.opened == 1 && X.closed == 0 && X.changes == 0, "and stays open for the caller");
    irv_cover("root");
}
PROOF(C11_chmod)
{
    auto* o = world(1);
    uint32_t m = irv_var("m", 0, 0xFFFFFFFFu), was = X.obj[0]->get_mode();
    uint32_t u = X.obj[0]->get_uid(), g = X.obj[0]->get_gid(), l = X.obj[0]->get_nlink();
    int rc = attempt([&] { return o->FuseHighLevelOps::vchmod(X.path[0], m, nullptr); });
    if (by_path(rc, nullptr))
        irv_assert(rc == 0 && X.obj[0]->get_mode() == ((was & ~0777u) | (m & 0777)), "the permissions are set and the rest kept");
    else
        irv_assert(X.obj[0]->get_mode() == was, "nothing is set");
    irv_assert(X.obj[0]->get_uid() == u && X.obj[0]->get_gid() == g && X.obj[0]->get_nlink() == l, "owner and links stay");
}
PROOF(C11_chown)
{
    auto* o = world(1);
    uint32_t a = irv_var("a", 0, 0xFFFFFFFFu), b = irv_var("b", 0, 0xFFFFFFFFu), m = X.obj[0]->get_mode();
    uint32_t u = X.obj[0]->get_uid(), g = X.obj[0]->get_gid();
    int rc = attempt([&] { return o->FuseHighLevelOps::vchown(X.path[0], a, b, nullptr); });
    if (by_path(rc, nullptr))
    {
        irv_assert(rc == 0 && X.obj[0]->get_uid() == (a == 0xFFFFFFFFu ? u : a), "the owner is set unless it is -1");
        irv_assert(X.obj[0]->get_gid() == (b == 0xFFFFFFFFu ? g : b), "the group is set unless it is -1");
    }
    else
        irv_assert(X.obj[0]->get_uid() == u && X.obj[0]->get_gid() == g, "nothing is set");
    irv_assert(X.obj[0]->get_mode() == m, "the mode stays");
}
PROOF(C11_utimens)
{
    auto* o = world(1);
    fuse_timespec ts[2];
    X.ptr = irv_split(irv_var("null", 0, 1)) ? nullptr : ts;
    int rc = attempt([&] { return o->FuseHighLevelOps::vutimens(X.path[0], (const fuse_timespec*)X.ptr, nullptr); });
    if (by_path(rc, nullptr))
        irv_assert(rc == 0 && X.did == 'u', "the times are set");
}
PROOF(C11_truncate)
{
    auto* o = world(1);
    irv_assume(X.obj[0]->t != (S_IFLNK >> 12));
    X.a = irv_var("to", 0, 1ull << 60);
    int rc = attempt([&] { return o->FuseHighLevelOps::vtruncate(X.path[0], X.a, nullptr); });
    if (by_path(rc, nullptr, true))
        irv_assert(rc == 0 && X.did == 'T', "the file is resized");
}
PROOF(C11_open)
{
    auto* o = world(1);
    irv_assume(X.obj[0]->t == (S_IFREG >> 12));
    fuse_file_info fi{};
    fi.flags = irv_var("flags", 0, 0x7FFFFFFF);
    X.a = 0;
    int rc = attempt([&] { return o->FuseHighLevelOps::vopen(X.path[0], &fi, nullptr); });
    if (rc == 0)
        ++X.closed;    // left open for the caller
    if (by_path(rc, nullptr))
    {
        irv_assert(rc == 0 && fi.fh == (uint64_t)(FileBase*)X.obj[0], "the file is open for the caller");
        irv_assert((X.did == 'T') == !!(fi.flags & O_TRUNC), "it is emptied exactly if asked");
    }
}
PROOF(C11_opendir)
{
    auto* o = world(1);
    irv_assume(X.obj[0]->t != (S_IFLNK >> 12));
    fuse_file_info fi{};
    int rc = attempt([&] { return o->FuseHighLevelOps::vopendir(X.path[0], &fi, nullptr); });
    if (rc == 0)
        ++X.closed;
    if (by_path(rc, nullptr))
    {
        if (X.obj[0]->t == (S_IFDIR >> 12))
            irv_assert(rc == 0 && fi.fh == (uint64_t)(FileBase*)X.obj[0], "the directory is open for the caller");
        else
            irv_assert(rc == -ENOTDIR, "only a directory is opened as one");
    }
}
PROOF(C11_readlink)
{
    auto* o = world(1);
    X.target.n = irv_var("tn", 16, 1u << 20);
    X.target.p = (char*)irv_array("target", X.target.n);
    uint64_t n = irv_var("room", 0, 1u << 20);
    uint8_t* buf = (uint8_t*)irv_array("buf", n);
    int rc = attempt([&] { return o->FuseHighLevelOps::vreadlink(X.path[0], (char*)buf, n, nullptr); });
    if (n == 0)
    {
        irv_assert(rc < 0, "a link is not read into nothing");
        return;
    }
    if (by_path(rc, nullptr))
    {
        if (X.obj[0]->t != (S_IFLNK >> 12))
        {
            irv_assert(rc == -EINVAL, "only a link has a target");
            return;
        }
        uint64_t k = irv_var("k", 0, 1u << 20);
        irv_assert(rc == 0, "the link is read");
        if (k < n)
            irv_assert(buf[k] == (k < X.target.n && k < n - 1 ? (uint8_t)X.target.p[k] : 0), "the target, as much as fits, ended by a NUL");
        irv_cover("target");
    }
}
PROOF(C11_xattr)
{
    auto* o = world(1);
    char name[4], value[4];
    X.ptr = value;
    X.ptr2 = name;
    X.a = irv_var("n", 0, 1u << 20);
    X.b = irv_var("flags", 0, 0x7FFFFFFF);
    X.result = (int)irv_var("result", 0, 0x7FFFFFFF);
    uint32_t pos = irv_var("pos", 0, 0xFFFFFFFFu);
    int which = irv_split(irv_var("w1", 0, 1)) * 2 + irv_split(irv_var("w0", 0, 1));
    int rc = attempt([&] { return which == 0 ? o->FuseHighLevelOps::vlistxattr(X.path[0], value, X.a, nullptr)
                                  : which == 1 ? o->FuseHighLevelOps::vgetxattr(X.path[0], name, value, X.a, pos, nullptr)
                                  : which == 2 ? o->FuseHighLevelOps::vsetxattr(X.path[0], name, value, X.a, X.b, pos, nullptr)
                                               : o->FuseHighLevelOps::vremovexattr(X.path[0], name, nullptr); });
    if (pos && (which == 1 || which == 2))
    {
        irv_assert(rc == -EINVAL && !X.did, "attributes have no positions");
        return;
    }
    if (by_path(rc, nullptr))
    {
        irv_assert(X.did == "lgar"[which], "the attribute operation is done on the file");
        irv_assert(rc == (which < 2 ? (int)X.result : 0), "and its result returned");
    }
}
PROOF(C11_handle)
{
    auto* o = world(1);
    fuse_file_info fi{};
    fi.fh = (uint64_t)(FileBase*)X.obj[0];
    char buf[4];
    fuse_stat st;
    int op = irv_split(irv_var("o2", 0, 1)) * 4 + irv_split(irv_var("o1", 0, 1)) * 2 + irv_split(irv_var("o0", 0, 1));
    X.ptr = op == 0 ? (void*)&st : (void*)buf;
    X.a = irv_var("off", 0, 1ull << 60);
    X.b = irv_var("n", 0, 0x7FFFFFFF);
    X.result = irv_var("result", 0, 0x7FFFFFFF);
    bool reg = X.obj[0]->t == (S_IFREG >> 12);
    uint64_t n = X.b;
    int rc = attempt([&]
                     {
                         switch (op)
                         {
                         case 0:
                             return o->FuseHighLevelOps::vfgetattr(X.path[0], &st, &fi, nullptr);
                         case 1:
                             return o->FuseHighLevelOps::vread(X.path[0], buf, X.b, X.a, &fi, nullptr);
                         case 2:
                             return o->FuseHighLevelOps::vwrite(X.path[0], buf, X.b, X.a, &fi, nullptr);
                         case 3:
                             return o->FuseHighLevelOps::vftruncate(X.path[0], X.a, &fi, nullptr);
                         case 4:
                             return o->FuseHighLevelOps::vflush(X.path[0], &fi, nullptr);
                         case 5:
                             return o->FuseHighLevelOps::vfsync(X.path[0], 0, &fi, nullptr);
                         case 6:
                             return o->FuseHighLevelOps::vrelease(X.path[0], &fi, nullptr);
                         default:
                             return o->FuseHighLevelOps::vreleasedir(X.path[0], &fi, nullptr);
                         }
                     });
    irv_assert(X.changes == 0 && X.obj[0]->held == 0, "the tree stays as it is");
    if (op >= 6)
    {
        bool ok = op == 6 ? reg : X.obj[0]->t == (S_IFDIR >> 12);
        irv_assert((rc == 0) == ok && X.closed == (ok ? 1 : 0), "a handle is closed once");
        irv_cover("closed");
        return;
    }
    irv_assert(X.opened == 0 && X.closed == 0, "the handle stays open");
    if ((op == 1 || op == 2 || op == 3) && !reg)
    {
        irv_assert(rc < 0 && !X.did, "only a regular file has contents");
        return;
    }
    irv_assert(X.did == "sRWTfy"[op], "the operation is done on the open file");
    irv_assert(rc == (op == 1 ? (int)X.result : op == 2 ? (int)n : 0), "and its result returned");
    irv_cover("done");
}
struct Fill
{
    int calls, rc;
    fuse_stat st[3];
};
static Fill L;
extern "C" int c11_fill(void* b, const char* name, const fuse_stat* st, fuse_off_t off)
{
    irv_assert(b == X.ptr && off == 0, "the caller's buffer");
    if (L.calls == 0)
        irv_assert(name[0] == '.' && name[1] == 0, "a directory lists itself");
    if (L.calls == 1)
        irv_assert(name[0] == '.' && name[1] == '.' && name[2] == 0, "and its parent");
    if (L.calls == 2)
        irv_assert(X.x >= X.target.n || name[X.x] == X.target.p[X.x], "an entry is listed by its name");
    irv_assert(L.calls < 3, "once");
    L.st[L.calls++] = *st;
    return L.calls == 3 ? L.rc : 0;
}
struct ListDir : public SpecDirectory
{
    id_type kid;
    int kt;
    void iterate_over_entries_impl(const callback& cb) override
    {
        irv_assert(held == 1, "a directory is used under its lock");
        std::string n(X.target.p, X.target.n);
        cb(n, kid, kt);
    }
};
// listing: what is passed on for an arbitrary entry
PROOF(C11_readdir)
{
    auto* o = world(1);
    auto* d = new ListDir;
    d->t = S_IFDIR >> 12;
    d->held = 0;
    d->m_flags[0] = S_IFDIR | 0700;
    *const_cast<bool*>(&d->m_store_time) = irv_var("store", 0, 1);
    irv_havoc(const_cast<id_type*>(&d->m_id), sizeof(id_type), "id");
    irv_havoc(&d->kid, sizeof(id_type), "kid");
    irv_havoc(&d->parent_id, sizeof(id_type), "parent");
    d->kt = some_type();
    X.target.n = irv_var("tn", 16, 255);
    X.target.p = (char*)irv_array("entry", X.target.n);
    memset(&L, 0, sizeof L);
    L.rc = (int)irv_var("full", 0, 0x7FFFFFFF);
    char buf[4];
    X.ptr = buf;
    fuse_file_info fi{};
    fi.fh = (uint64_t)(FileBase*)d;
    int rc = attempt([&] { return o->FuseHighLevelOps::vreaddir(X.path[0], buf, &c11_fill, 0, &fi, nullptr); });
    irv_assert(d->held == 0 && L.calls == 3, "every entry is passed on");
    irv_assert((rc == 0) == (L.rc == 0), "a full buffer is reported");
    irv_assert((L.st[0].st_mode & S_IFMT) == S_IFDIR && (L.st[1].st_mode & S_IFMT) == S_IFDIR, "directories");
    irv_assert((L.st[2].st_mode & S_IFMT) == FileBase::mode_for_type(d->kt), "the type of the entry");
    irv_assert(L.st[0].st_ino == to_inode_number(d->m_id) && L.st[1].st_ino == to_inode_number(d->parent_id) && L.st[2].st_ino == to_inode_number(d->kid), "the number of each");
    irv_cover("listed");
}
#endif
