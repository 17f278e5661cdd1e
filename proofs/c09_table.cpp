// C09: the table of open files, over contracts of the storage and the file objects; the hash map of open files is a
// stand-in that knows one key: the id the operation is about.
// irv: contract ^securefs::FileBase::FileBase\(.*StrongType => c_base
// irv: contract ^securefs::FileBase::~FileBase => c_destroy
// irv: contract ^securefs::FileBase::lock\( => c_lock
// irv: contract ^securefs::FileBase::unlock\( => c_unlock
// irv: contract ^securefs::FileBase::flush\( => c_flush
// irv: contract ^securefs::FileBase::initialize_empty\( => c_init
// irv: contract ^securefs::full_format::FileTable::find_shard\( => c_shard
// irv: contract ^securefs::generate_random\( => c_random
// irv: contract ^securefs::OSService::get(u|g)id\( => c_id
// irv: assumes a hash map keeps what is stored under one id apart from what is stored under others
// irv: assumes random ids of new files do not collide with an open file unless storage refuses them
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include "absl/shim.h"
#include <array>
#include <map>
#include <optional>
#include <thread>
#include <atomic>
#include <chrono>
static void c09_key(const void* id);
namespace absl
{
template <class K, class V, class H>
class TrackedMap
{
    using E = std::pair<const K, V>;
    E* slot_;

public:
    using iterator = E*;
    using value_type = E;
    TrackedMap() : slot_(nullptr) {}
    ~TrackedMap() { clear(); }
    E* begin() { return slot_; }
    E* end() { return slot_ ? slot_ + 1 : nullptr; }
    E* find(const K& k)
    {
        c09_key(&k);
        return slot_ ? slot_ : end();
    }
    bool contains(const K& k) { return find(k) != end(); }
    size_t count(const K& k) { return contains(k); }
    size_t size() const { return slot_ != nullptr; }
    bool empty() const { return !slot_; }
    template <class W>
    std::pair<E*, bool> emplace(const K& k, W&& v)
    {
        c09_key(&k);
        if (slot_)
            return {slot_, false};
        slot_ = new E(k, std::forward<W>(v));
        return {slot_, true};
    }
    template <class W>
    std::pair<E*, bool> try_emplace(const K& k, W&& v)
    {
        return emplace(k, std::forward<W>(v));
    }
    V& operator[](const K& k)
    {
        c09_key(&k);
        if (!slot_)
            slot_ = new E(k, V());
        return slot_->second;
    }
    void erase(E* it)
    {
        irv_assert(it == slot_ && slot_, "what is erased is in the map");
        delete slot_;
        slot_ = nullptr;
    }
    size_t erase(const K& k)
    {
        c09_key(&k);
        if (!slot_)
            return 0;
        erase(slot_);
        return 1;
    }
    void clear()
    {
        if (slot_)
            erase(slot_);
    }
    template <class W>
    void irv_put(const K& k, W* w)
    {
        slot_ = new E(k, V(w));
    }
    E* irv_get() const { return slot_; }
};
}
#define flat_hash_map TrackedMap
#define private public
#define protected public
#include "file_table_v2.cpp"
#undef private
#undef protected
#undef flat_hash_map
using namespace securefs;
using namespace securefs::full_format;
struct SpecFile;
static struct
{
    FileTable* ft;
    id_type id;
    SpecFile *file, *root, *kept[FileTable::kMaxCached + 2];
    FileTable::Shard* shard;
    uint64_t n, at;
    int where;    // 0 open, 1 kept, 2 neither
    bool exists, io_fails, flush_fails;
    int ios, unlinks, made, inits, destroyed;
    int type;
    FileStream *data, *meta;
    int err;
    SpecFile* dead[FileTable::kMaxCached + 8];
} X;
struct SpecFile : public FileBase
{
    int t, held, flushes;
    SpecFile()
        : FileBase(std::shared_ptr<FileStream>(), std::shared_ptr<FileStream>(), StrongType<key_type, tMasterKey>(key_type()), id_type(),
                   StrongType<bool, tVerify>(true), StrongType<unsigned, tBlockSize>(4096u), StrongType<unsigned, tIvSize>(12u),
                   StrongType<unsigned, tMaxPaddingSize>(0u), StrongType<bool, tStoreTimeWithinFs>(true))
    {
    }
    int type() const noexcept override { return t; }
};
static bool eq(const id_type& a, const id_type& b) { return !memcmp(a.data(), b.data(), 32); }
static SpecFile* make(const id_type& id, int type)
{
    auto* f = new SpecFile;
    f->t = type;
    f->held = f->flushes = 0;
    f->m_refcount = 0;
    memcpy(const_cast<byte*>(f->m_id.data()), id.data(), 32);
    f->m_flags[3] = 1;
    return f;
}
// destroyed: the memory is released, only the address may be used
static bool gone(SpecFile* f)
{
    for (int i = 0; i < X.destroyed; ++i)
        if (X.dead[i] == f)
            return true;
    return false;
}
static SpecFile* S(FileBase* f) { return static_cast<SpecFile*>(f); }
static void c09_key(const void* id) { irv_assert(!memcmp(id, X.id.data(), 32), "the map is asked about the id of the operation"); }
static FileStreamPtrPair streams()
{
    // no ownership: only the identity of the streams matters here
    FileStreamPtrPair p;
    *(FileStream**)&p.first = X.data;
    *(FileStream**)&p.second = X.meta;
    return p;
}
struct SpecIO : public FileTableIO
{
    FileStreamPtrPair open(const id_type& id) override
    {
        irv_assert(eq(id, X.id) && X.ios++ == 0, "the storage of the id is opened once");
        if (irv_split(!X.exists || X.io_fails))
            throw VFSException(X.err);
        return streams();
    }
    FileStreamPtrPair create(const id_type& id) override
    {
        irv_assert(eq(id, X.id) && (X.ios++ == 0 || eq(id, kRootId)), "storage for the id is made once");
        if (irv_split(X.exists || X.io_fails))
            throw VFSException(X.err);
        X.exists = true;
        return streams();
    }
    void unlink(const id_type& id) noexcept override
    {
        irv_assert(eq(id, X.id), "only the storage of the file is removed");
        ++X.unlinks;
        X.exists = false;
    }
};
template <class T>
static std::unique_ptr<T> build(int type, const std::shared_ptr<FileStream>& d, const std::shared_ptr<FileStream>& m, const id_type& id)
{
    irv_assert(d.get() == X.data && m.get() == X.meta && eq(id, X.id), "the object is made of the storage of its id");
    irv_assert(X.made++ == 0, "one object");
    X.type = type;
    X.file = make(id, type);
    return std::unique_ptr<T>(reinterpret_cast<T*>(X.file));
}
extern "C"
{
    void c_base(FileBase*, void*, void*, const void*, const void*, bool, unsigned, unsigned, unsigned, bool) {}
    void c_destroy(FileBase* f)
    {
        irv_assert(!gone(S(f)) && S(f)->getref() <= 0, "an object in use is not destroyed");
        irv_assert(S(f)->m_flags[3] == 0 || S(f)->flushes > 0 || X.made, "nor before it is flushed, unless it has no link");
        X.dead[X.destroyed++] = S(f);
    }
    void c_lock(FileBase* f)
    {
        irv_assert(S(f)->held == 0, "nothing waits for a lock it has");
        ++S(f)->held;
    }
    void c_unlock(FileBase* f) { --S(f)->held; }
    void c_flush(FileBase* f)
    {
        irv_assert(!gone(S(f)), "an object that exists is flushed");
        if (irv_split(X.flush_fails))
            throw VFSException(X.err);
        ++S(f)->flushes;
    }
    void c_init(FileBase* f, uint32_t mode, uint32_t, uint32_t)
    {
        irv_assert(f == X.file && (mode & S_IFMT) == S_IFDIR && S(f)->held == 1, "a new root directory is initialised");
        ++X.inits;
    }
    FileTable::Shard* c_shard(FileTable*, const id_type& id)
    {
        irv_assert(eq(id, X.id), "the shard of the id");
        return X.shard;
    }
    void c_random(void* p, size_t n)
    {
        irv_assert(n == 32, "an id is random");
        memcpy(p, X.id.data(), 32);
    }
    uint32_t c_id() { return 7; }
}
static FileTable* base_world()
{
    memset(&X, 0, sizeof X);
    irv_havoc(X.id.data(), 32, "id");
    irv_assume(!eq(X.id, kRootId));
    X.ft = (FileTable*)malloc(sizeof(FileTable));
    memset(X.ft, 0, sizeof(FileTable));
    *(FileTableIO**)&X.ft->io_ = new SpecIO;
    new (&X.ft->regular_file_factory_) FileTable::Factory<RegularFile>([](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& i) { return build<RegularFile>(S_IFREG >> 12, d, m, i); });
    new (&X.ft->directory_factory_) FileTable::Factory<Directory>([](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& i) { return build<Directory>(S_IFDIR >> 12, d, m, i); });
    new (&X.ft->symlink_factory_) FileTable::Factory<Symlink>([](std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& i) { return build<Symlink>(S_IFLNK >> 12, d, m, i); });
    X.shard = &X.ft->shards[5];
    X.root = make(kRootId, S_IFDIR >> 12);
    new (&X.ft->root_) std::unique_ptr<FileBase>(X.root);
    X.err = (int)irv_var("err", 1, 130);
    X.exists = irv_var("exists", 0, 1);
    X.io_fails = irv_var("io_fails", 0, 1);
    X.flush_fails = irv_var("flush_fails", 0, 1);
    X.data = (FileStream*)malloc(8);
    X.meta = (FileStream*)malloc(8);
    return X.ft;
}
// n closed files are kept, none of which is the id, except possibly the one at `at`
static void keep(uint64_t n)
{
    X.n = n;
    X.shard->cache.reserve(FileTable::kMaxCached + 2);
    for (uint64_t i = 0; i < n; ++i)
    {
        id_type other;
        irv_havoc(other.data(), 32, "other");
        irv_assume(!eq(other, X.id));
        X.kept[i] = make(X.where == 1 && i == X.at ? X.id : other, S_IFREG >> 12);
        X.kept[i]->flushes = 1;
        X.shard->cache.emplace_back(X.kept[i]);
    }
}
static bool in_cache(SpecFile* f, uint64_t* at = nullptr)
{
    bool r = false;
    auto& c = X.shard->cache;
    for (uint64_t i = 0; i < c.size(); ++i)
        if (c[i].get() == f)
        {
            irv_assert(!r, "an object is kept once");
            r = true;
        }
    return r;
}
template <class F>
static int attempt(F f)
{
    try
    {
        f();
        return 0;
    }
    catch (const ExceptionBase& e)
    {
        return e.error_number();
    }
    catch (const std::exception&)
    {
        return 1000;
    }
}
static int some_type() { return irv_split(irv_var("isdir", 0, 1)) ? S_IFDIR >> 12 : irv_split(irv_var("islink", 0, 1)) ? S_IFLNK >> 12 : S_IFREG >> 12; }
static void others_unharmed()
{
    for (uint64_t i = 0; i < X.n; ++i)
        if (X.kept[i] != X.file)
            irv_assert(!gone(X.kept[i]) && X.kept[i]->getref() == 0 && in_cache(X.kept[i]), "other files stay as they are");
}
// the rest of the table: [n] closed files are kept
static void opening(uint64_t n, uint64_t at = ~0ull)
{
    auto* ft = base_world();
    X.where = irv_split(irv_var("open", 0, 1)) ? 0 : n && irv_split(irv_var("kept", 0, 1)) ? 1 : 2;
    if (X.where == 1)
        X.at = at != ~0ull ? at : irv_concretize(irv_var("at", 0, n - 1));
    int type = some_type();
    int64_t refs = X.where == 0 ? (int64_t)irv_var("refs", 0, 1u << 30) : 0;
    keep(n);
    SpecFile* f = nullptr;
    if (X.where == 0)
    {
        f = make(X.id, type);
        f->setref(refs);
        X.shard->live_map.irv_put(X.id, f);
    }
    else if (X.where == 1)
        f = X.kept[X.at];
    X.file = f;
    FileBase* got = nullptr;
    int rc = attempt([&] { got = ft->open_as(X.id, type).release(); });
    irv_assert(X.unlinks == 0 && X.destroyed == 0, "opening removes nothing");
    others_unharmed();
    if (rc)
    {
        irv_assert(!f && rc == X.err && !X.made && !X.shard->live_map.irv_get(), "an error of the storage is passed on");
        irv_cover("error");
        return;
    }
    if (f)
        irv_assert(got == f && X.ios == 0 && X.made == 0, "a file that is known is the same object");
    else
        irv_assert(X.made == 1 && X.type == type && got == X.file, "a file is opened from its storage as what it is");
    auto* e = X.shard->live_map.irv_get();
    irv_assert(e && e->second.get() == got && eq(e->first, X.id), "it is open");
    irv_assert(!in_cache(X.file) && !gone(X.file), "and in use");
    irv_assert(got->getref() == refs + 1, "by one holder more");
    irv_cover("opened");
}
PROOF(C09_open) { opening(irv_split(irv_var("s0", 0, 1)) ? 0 : irv_split(irv_var("s1", 0, 1)) ? 1 : 6); }
PROOF_DEEP(C09_open_all)
{
    uint64_t n = irv_concretize(irv_var("cached", 1, FileTable::kMaxCached));
    opening(n, irv_split(irv_var("first", 0, 1)) ? 0 : irv_split(irv_var("last", 0, 1)) ? n - 1 : n / 2);
}
PROOF_DEEP(C09_open_full) { opening(FileTable::kMaxCached); }
static void closing(uint64_t n)
{
    auto* ft = base_world();
    X.where = 0;
    keep(n);
    SpecFile* f = make(X.id, S_IFREG >> 12);
    X.file = f;
    int64_t refs = irv_var("refs", 1, 1u << 30);
    f->setref(refs);
    f->m_flags[3] = (uint32_t)irv_var("nlink", 0, 0xFFFFFFFFu);
    bool dead = irv_split(f->m_flags[3] == 0);
    X.exists = true;
    X.shard->live_map.irv_put(X.id, f);
    FilePtrHolder h(f, FileTableCloser(ft));
    int rc = attempt([&] { h.reset(); });
    irv_assert(rc == 0, "closing does not fail");
    auto* e = X.shard->live_map.irv_get();
    auto& c = X.shard->cache;
    if (refs > 1)
    {
        irv_assert(e && e->second.get() == f && !gone(f) && f->getref() == refs - 1 && !X.unlinks, "a file others hold stays open");
        others_unharmed();
        irv_cover("still held");
        return;
    }
    if (dead)
    {
        irv_assert(!e && gone(f) && X.unlinks == 1 && !X.exists && !in_cache(f), "a file without links goes with its storage");
        others_unharmed();
        irv_cover("removed");
        return;
    }
    irv_assert(X.unlinks == 0 && X.exists, "the storage of a file with links is kept");
    if (X.flush_fails)
    {
        irv_assert(e && e->second.get() == f && !gone(f), "a file that cannot be flushed is not lost");
        others_unharmed();
        irv_cover("not flushed");
        return;
    }
    irv_assert(f->flushes >= 1 && !e, "the last close flushes");
    irv_assert(gone(f) != in_cache(f), "the file is kept in memory or not");
    irv_assert(c.size() <= FileTable::kMaxCached, "not too many are kept");
    for (uint64_t i = 0; i < n; ++i)
        irv_assert(gone(X.kept[i]) != in_cache(X.kept[i]), "those kept are those not destroyed");
    irv_cover("kept");
}
PROOF(C09_close) { closing(irv_concretize(irv_var("cached", 0, FileTable::kMaxCached))); }
PROOF(C09_create)
{
    auto* ft = base_world();
    X.where = irv_split(irv_var("open", 0, 1)) ? 0 : 2;
    keep(irv_split(irv_var("s0", 0, 1)) ? 0 : 2);
    SpecFile* f = nullptr;
    if (X.where == 0)
    {
        f = make(X.id, S_IFREG >> 12);
        f->setref(irv_var("refs", 0, 1u << 30));
        X.shard->live_map.irv_put(X.id, f);
        irv_assume(X.exists);
    }
    bool existed = X.exists;
    int type = some_type();
    FileBase* got = nullptr;
    int rc = attempt([&] { got = ft->create_as(type).release(); });
    others_unharmed();
    irv_assert(!X.unlinks, "creating removes nothing");
    if (existed || X.io_fails)
    {
        irv_assert(rc == X.err && !X.made, "an id that exists is refused");
        auto* e = X.shard->live_map.irv_get();
        irv_assert(f ? e && e->second.get() == f && !gone(f) : !e, "and nothing changes");
        irv_cover("refused");
        return;
    }
    auto* e = X.shard->live_map.irv_get();
    irv_assert(rc == 0 && X.made == 1 && got == X.file && X.type == type && got->getref() == 1, "a new object with one holder");
    irv_assert(e && e->second.get() == got && eq(e->first, X.id) && eq(got->get_id(), X.id), "which is open under its id");
    irv_cover("created");
}
PROOF(C09_root)
{
    auto* ft = base_world();
    X.id = kRootId;
    X.file = X.root;
    int type = some_type();
    int64_t refs = irv_var("refs", 0, 1u << 30);
    X.root->setref(refs);
    FileBase* got = nullptr;
    int rc = attempt([&] { got = ft->open_as(kRootId, type).release(); });
    if (type != S_IFDIR >> 12)
    {
        irv_assert(rc != 0 && X.root->getref() == refs, "the root is a directory");
        irv_cover("wrong type");
        return;
    }
    irv_assert(rc == 0 && got == X.root && got->getref() == refs + 1 && !X.ios, "the root is always open");
    rc = attempt([&] { FileTableCloser c(ft); c(got); });
    irv_assert(X.root->getref() == refs && !gone(X.root) && !X.unlinks && X.root->held == 0, "it is never closed");
    if (refs == 0)
        irv_assert(rc || X.root->flushes == 1, "but flushed");
    irv_cover("root");
}
PROOF(C09_init)
{
    auto* ft = base_world();
    X.id = kRootId;
    X.root = nullptr;
    new (&ft->root_) std::unique_ptr<FileBase>();
    bool existed = X.exists;
    if (existed)
        X.io_fails = false;
    int rc = attempt([&] { ft->init(); });
    irv_assert(!X.unlinks, "nothing is removed");
    if (rc)
    {
        irv_assert(!existed && X.io_fails && rc == X.err, "only an error of the storage stops the table");
        irv_cover("error");
        return;
    }
    irv_assert(X.made == 1 && ft->root_.get() == X.file && X.type == (S_IFDIR >> 12), "the root is opened as a directory");
    irv_assert(X.inits == (existed ? 0 : 1) && X.file->held == 0, "and initialised exactly if it is new");
    irv_cover("root");
}
PROOF(C09_destroy)
{
    auto* ft = base_world();
    X.where = irv_split(irv_var("open", 0, 1)) ? 0 : 2;
    keep(irv_split(irv_var("s0", 0, 1)) ? 0 : 2);
    X.flush_fails = false;
    for (uint64_t i = 0; i < X.n; ++i)
        X.kept[i]->flushes = 0;
    SpecFile* f = nullptr;
    if (X.where == 0)
    {
        f = make(X.id, S_IFREG >> 12);
        X.shard->live_map.irv_put(X.id, f);
    }
    SpecFile* root = X.root;
    ft->~FileTable();
    // destruction asserts that what is destroyed has been flushed
    irv_assert(gone(root) && (!f || gone(f)) && X.destroyed == 1 + (f != nullptr) + (int)X.n, "every object is closed");
    irv_cover("closed");
}
#endif
