// C17, C18: the layers between libfuse and the file-system implementations.
// irv: assumes clean_exit_fuse and the idle timer do not touch the operation being served
#include "irv.h"
#include "nolog.h"
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
#endif
#include "fuse_tracer_v2.cpp"
#include "fuse_high_level_ops_base.cpp"
#include "fuse_hook.h"
#include <new>
#include <tuple>
using namespace securefs;

#define OPS(X) \
    X(statfs, (const char* a, fuse_statvfs* b), (a, b)) \
    X(getattr, (const char* a, fuse_stat* b), (a, b)) \
    X(fgetattr, (const char* a, fuse_stat* b, fuse_file_info* c), (a, b, c)) \
    X(opendir, (const char* a, fuse_file_info* b), (a, b)) \
    X(releasedir, (const char* a, fuse_file_info* b), (a, b)) \
    X(readdir, (const char* a, void* b, fuse_fill_dir_t c, fuse_off_t d, fuse_file_info* e), (a, b, c, d, e)) \
    X(create, (const char* a, fuse_mode_t b, fuse_file_info* c), (a, b, c)) \
    X(open, (const char* a, fuse_file_info* b), (a, b)) \
    X(release, (const char* a, fuse_file_info* b), (a, b)) \
    X(read, (const char* a, char* b, size_t c, fuse_off_t d, fuse_file_info* e), (a, b, c, d, e)) \
    X(write, (const char* a, const char* b, size_t c, fuse_off_t d, fuse_file_info* e), (a, b, c, d, e)) \
    X(flush, (const char* a, fuse_file_info* b), (a, b)) \
    X(ftruncate, (const char* a, fuse_off_t b, fuse_file_info* c), (a, b, c)) \
    X(unlink, (const char* a), (a)) \
    X(mkdir, (const char* a, fuse_mode_t b), (a, b)) \
    X(rmdir, (const char* a), (a)) \
    X(chmod, (const char* a, fuse_mode_t b), (a, b)) \
    X(chown, (const char* a, fuse_uid_t b, fuse_gid_t c), (a, b, c)) \
    X(symlink, (const char* a, const char* b), (a, b)) \
    X(link, (const char* a, const char* b), (a, b)) \
    X(readlink, (const char* a, char* b, size_t c), (a, b, c)) \
    X(rename, (const char* a, const char* b), (a, b)) \
    X(fsync, (const char* a, int b, fuse_file_info* c), (a, b, c)) \
    X(truncate, (const char* a, fuse_off_t b), (a, b)) \
    X(utimens, (const char* a, const fuse_timespec* b), (a, b)) \
    X(listxattr, (const char* a, char* b, size_t c), (a, b, c)) \
    X(getxattr, (const char* a, const char* b, char* c, size_t d, uint32_t e), (a, b, c, d, e)) \
    X(setxattr, (const char* a, const char* b, const char* c, size_t d, int e, uint32_t f), (a, b, c, d, e, f)) \
    X(removexattr, (const char* a, const char* b), (a, b)) \
    X(getpath, (const char* a, char* b, size_t c, fuse_file_info* d), (a, b, c, d)) \
    X(ioctl, (const char* a, int b, void* c, fuse_file_info* d, unsigned e, void* f), (a, b, c, d, e, f))
#define STRIP(...) __VA_ARGS__
enum Op
{
#define X(name, params, args) OP_##name,
    OPS(X)
#undef X
        NOPS
};

static fuse_context ctx0;
extern "C" fuse_context* fuse_get_context() { return &ctx0; }
#ifdef IRV
namespace securefs
{
void clean_exit_fuse();
}
int exits;
void securefs::clean_exit_fuse() { ++exits; }
// (defined in unix.cpp; C18_special checks natively that they are these)
unsigned OSService::get_cmd_for_query_ioctl() noexcept { return _IOR('s', 1, unsigned); }
unsigned OSService::get_cmd_for_trigger_unmount_ioctl() noexcept { return _IO('s', 2); }
#else
static int exits;
namespace securefs
{
void clean_exit_fuse() { ++exits; }
}
#endif

// what the implementation under the layers does and what it was given
static struct
{
    int calls, op, kind, err, rc, missing;
    bool has_ioctl, sensitive;
} G;
static int behave()
{
    switch (G.kind)
    {
    case 1:
        throw VFSException(G.err);
    case 2:
        throw POSIXException(G.err, "system");
    case 3:
        throw InvalidArgumentException("argument");
    case 4:
        throw LiteMessageVerificationException();
    case 5:
        throw StreamTooLongException(1, 2);
    case 6:
        throw std::runtime_error("runtime");
    case 7:
        throw std::bad_alloc();
    case 8:
        throw FileTypeInconsistencyException();
    case 9:
        throw InvalidCastException("a", "b");
    }
    return G.rc;
}
static int expected_rc()
{
    switch (G.kind)
    {
    case 1:
    case 2:
        return -G.err;
    case 3:
        return -EINVAL;
    case 5:
        return -EFBIG;
    case 0:
        return G.rc;
    }
    return -EPERM;
}
struct Probe final : public FuseHighLevelOpsBase
{
    bool allow_sensitive_logging() const override { return G.sensitive; }
    void initialize(fuse_conn_info* info) override {}
    template <class... T>
    static int got(int op, T... t)
    {
        G.calls++;
        irv_assert(op == G.op, "the operation called is the one requested");
        irv_assert(want<T...>() == std::tuple<T...>(t...), "every argument is passed on unchanged");
        return behave();
    }
    template <class... T>
    static std::tuple<T...>& want()
    {
        static std::tuple<T...> w;
        return w;
    }
#define X(name, params, args) \
    bool has_##name() const override { return G.missing != OP_##name; } \
    int v##name(STRIP params, const fuse_context* ctx) override { return got(OP_##name, STRIP args, ctx); }
    OPS(X)
#undef X
};

static int filler(void*, const char*, const struct stat*, off_t) { return 0; }
template <class T>
struct Arb
{
    static T make(const char* n) { return (T)irv_var(n, 0, ~0ull); }
};
template <class T>
struct Arb<T*>
{
    static T* make(const char* n)
    {
        NATIVE_ONLY(if (std::is_same<T, const char>::value && irv_rand(6) == 0) return nullptr;)
        char* p = (char*)irv_array(n, 512);
        NATIVE_ONLY(if (irv_rand(2)) memset(p, 0, 512); p[511] = 0;)
        return (T*)p;
    }
};
template <>
struct Arb<fuse_fill_dir_t>
{
    static fuse_fill_dir_t make(const char*) { return filler; }
};
template <>
struct Arb<const fuse_context*>
{
    static const fuse_context* make(const char*) { return &ctx0; }
};
#ifndef IRV
template <>
struct Arb<size_t>
{
    static size_t make(const char* n) { return irv_var(n, 0, 500); }
};
#endif
static const char* const NM[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6"};
template <class... T, size_t... I>
std::tuple<T...> arb_(std::index_sequence<I...>)
{
    return std::tuple<T...>{Arb<T>::make(NM[I])...};
}
template <class... T>
std::tuple<T...> arb()
{
    return arb_<T...>(std::index_sequence_for<T...>());
}
// the requests that a layer answers itself are not part of these checks
template <class... T>
void not_special(int layer, const std::tuple<T...>& t)
{
    if constexpr (sizeof...(T) >= 1)
        if (layer == 4 && (G.op == OP_getattr || G.op == OP_rmdir))
            if (const char* p = (const char*)std::get<0>(t))
            {
                irv_assume(p[0] != '/' || p[1] != '\xf4');
                IRV_ONLY(irv_assume(p[511] == 0); irv_focus(0);)
            }
    if constexpr (sizeof...(T) >= 6)
        if constexpr (std::is_same_v<std::tuple_element_t<1, std::tuple<T...>>, int>)
            irv_assume(std::get<1>(t) != (int)OSService::get_cmd_for_query_ioctl()
                       && std::get<1>(t) != (int)OSService::get_cmd_for_trigger_unmount_ioctl());
}
template <class... T>
int via_v(FuseHighLevelOpsBase& o, int (FuseHighLevelOpsBase::*f)(T...), int layer)
{
    std::tuple<T...> t = arb<T...>();
    not_special(layer, t);
    Probe::want<T...>() = t;
    return std::apply([&](T... x) { return (o.*f)(x...); }, t);
}
template <class... T>
int via_table(int (*f)(T...), int layer)
{
    std::tuple<T...> t = arb<T...>();
    not_special(layer, t);
    Probe::want<T..., const fuse_context*>() = std::tuple_cat(t, std::tuple<const fuse_context*>(&ctx0));
    return std::apply([&](T... x) { return f(x...); }, t);
}
// the two calls that have a position on some systems only
template <class... T>
int via_table_pos(int (*f)(T...), int layer)
{
    std::tuple<T...> t = arb<T...>();
    Probe::want<T..., uint32_t, const fuse_context*>()
        = std::tuple_cat(t, std::tuple<uint32_t, const fuse_context*>(0, &ctx0));
    return std::apply([&](T... x) { return f(x...); }, t);
}
struct Hook final : public FuseHook
{
    int n = 0;
    void notify_activity() override { ++n; }
};
static std::shared_ptr<Hook> hook;
static std::shared_ptr<FuseHighLevelOpsBase> layers(int layer)
{
    std::shared_ptr<FuseHighLevelOpsBase> p = std::make_shared<Probe>();
    hook = std::make_shared<Hook>();
    switch (layer)
    {
    case 1:
        return std::make_shared<AllowSensitiveLoggingFuseHighLevelOps>(p);
    case 2:
        return std::make_shared<HookedFuseHighLevelOps>(p, hook);
    case 3:
        return std::make_shared<SpecialIoctlFuseHighLevelOps>(p);
    case 4:
        return std::make_shared<SpecialFiledFuseHighLevelOps>(p);
    case 5:
        p = std::make_shared<AllowSensitiveLoggingFuseHighLevelOps>(p);
        p = std::make_shared<SpecialIoctlFuseHighLevelOps>(p);
        return std::make_shared<HookedFuseHighLevelOps>(p, hook);
    }
    return p;
}
static int outcome(int rc, int layer)
{
    return (layer == 3 || layer == 5) && G.op == OP_ioctl && rc == -ENOSYS ? -ENOTSUP : rc;
}
static void setup(FuseHighLevelOpsBase* top)
{
    ctx0.private_data = top;
    ctx0.uid = 1;
    G.calls = 0;
    G.rc = (int)irv_var("rc", 0, 0xffffffffu);
    NATIVE_ONLY(if (irv_rand(8) == 0) G.rc = -ENOSYS;)
    G.missing = -1;
    G.sensitive = irv_var("sensitive", 0, 1);
    G.kind = 0;
}
// each operation through each layer
PROOF(C18_layers)
{
    int layer = (int)irv_concretize(irv_var("layer", 1, 5));
    G.op = (int)irv_concretize(irv_var("op", 0, NOPS - 1));
    auto o = layers(layer);
    setup(o.get());
    int rc = 0;
    switch (G.op)
    {
#define X(name, params, args) \
    case OP_##name: \
        rc = via_v(*o, &FuseHighLevelOpsBase::v##name, layer); \
        break;
        OPS(X)
#undef X
    }
    irv_assert(G.calls == 1, "the implementation is called exactly once");
    irv_assert(rc == outcome(G.rc, layer), "the result is passed back unchanged");
    irv_assert(layer != 2 && layer != 5 || hook->n == 1, "the activity hook is told");
    irv_cover("called");
}
// the two calls have a position on some systems
static bool at_position() { return irv_concretize(irv_var("at a position", 0, 1)) != 0; }
// the table handed to libfuse
static int through_table(FuseHighLevelOpsBase* o, int layer, bool& present)
{
    fuse_operations t = FuseHighLevelOpsBase::build_ops(o);
    present = true;
    switch (G.op)
    {
    case OP_statfs:
        present = t.statfs != nullptr;
        return present ? via_table(t.statfs, layer) : 0;
    case OP_getattr:
        present = t.getattr != nullptr;
        return present ? via_table(t.getattr, layer) : 0;
    case OP_fgetattr:
        present = t.fgetattr != nullptr;
        return present ? via_table(t.fgetattr, layer) : 0;
    case OP_opendir:
        present = t.opendir != nullptr;
        return present ? via_table(t.opendir, layer) : 0;
    case OP_releasedir:
        present = t.releasedir != nullptr;
        return present ? via_table(t.releasedir, layer) : 0;
    case OP_readdir:
        present = t.readdir != nullptr;
        return present ? via_table(t.readdir, layer) : 0;
    case OP_create:
        present = t.create != nullptr;
        return present ? via_table(t.create, layer) : 0;
    case OP_open:
        present = t.open != nullptr;
        return present ? via_table(t.open, layer) : 0;
    case OP_release:
        present = t.release != nullptr;
        return present ? via_table(t.release, layer) : 0;
    case OP_read:
        present = t.read != nullptr;
        return present ? via_table(t.read, layer) : 0;
    case OP_write:
        present = t.write != nullptr;
        return present ? via_table(t.write, layer) : 0;
    case OP_flush:
        present = t.flush != nullptr;
        return present ? via_table(t.flush, layer) : 0;
    case OP_ftruncate:
        present = t.ftruncate != nullptr;
        return present ? via_table(t.ftruncate, layer) : 0;
    case OP_unlink:
        present = t.unlink != nullptr;
        return present ? via_table(t.unlink, layer) : 0;
    case OP_mkdir:
        present = t.mkdir != nullptr;
        return present ? via_table(t.mkdir, layer) : 0;
    case OP_rmdir:
        present = t.rmdir != nullptr;
        return present ? via_table(t.rmdir, layer) : 0;
    case OP_chmod:
        present = t.chmod != nullptr;
        return present ? via_table(t.chmod, layer) : 0;
    case OP_chown:
        present = t.chown != nullptr;
        return present ? via_table(t.chown, layer) : 0;
    case OP_symlink:
        present = t.symlink != nullptr;
        return present ? via_table(t.symlink, layer) : 0;
    case OP_link:
        present = t.link != nullptr;
        return present ? via_table(t.link, layer) : 0;
    case OP_readlink:
        present = t.readlink != nullptr;
        return present ? via_table(t.readlink, layer) : 0;
    case OP_rename:
        present = t.rename != nullptr;
        return present ? via_table(t.rename, layer) : 0;
    case OP_fsync:
        present = t.fsync != nullptr;
        return present ? via_table(t.fsync, layer) : 0;
    case OP_truncate:
        present = t.truncate != nullptr;
        return present ? via_table(t.truncate, layer) : 0;
    case OP_utimens:
        present = t.utimens != nullptr;
        return present ? via_table(t.utimens, layer) : 0;
    case OP_listxattr:
        present = t.listxattr != nullptr;
        return present ? via_table(t.listxattr, layer) : 0;
    case OP_getxattr:
        present = t.getxattr != nullptr;
        if (present && at_position())
            return via_table((int (*)(const char*, const char*, char*, size_t, uint32_t))&FuseHighLevelOpsBase::static_getxattr, layer);
        return present ? via_table_pos(t.getxattr, layer) : 0;
    case OP_setxattr:
        present = t.setxattr != nullptr;
        if (present && at_position())
            return via_table((int (*)(const char*, const char*, const char*, size_t, int, uint32_t))&FuseHighLevelOpsBase::static_setxattr, layer);
        return present ? via_table_pos(t.setxattr, layer) : 0;
    case OP_removexattr:
        present = t.removexattr != nullptr;
        return present ? via_table(t.removexattr, layer) : 0;
    case OP_ioctl:
        present = t.ioctl != nullptr;
        return present ? via_table(t.ioctl, layer) : 0;
    }
    return 0;
}
PROOF(C18_table)
{
    int layer = NATIVE_ONLY((int)irv_var("layer", 0, 5)) IRV_ONLY(0);
    G.op = (int)irv_concretize(irv_var("op", 0, NOPS - 1));
    if (G.op == OP_getpath)
        return;
    auto o = layers(layer);
    setup(o.get());
    if (irv_split(irv_var("missing", 0, 1)))
        G.missing = G.op;
    bool present;
    int rc = through_table(o.get(), layer, present);
    bool has = G.missing != G.op || (layer == 4 && (G.op == OP_getattr || G.op == OP_rmdir))
        || ((layer == 3 || layer == 5) && G.op == OP_ioctl);
    irv_assert(present == has, "an operation is offered to libfuse exactly when it is supported");
    if (present)
    {
        irv_assert(G.calls == 1, "the implementation is called exactly once");
        irv_assert(rc == outcome(G.rc, layer), "the result is passed back unchanged");
    }
    irv_cover("called");
}
// what the special layers answer themselves
PROOF(C18_special)
{
    setup(nullptr);
    bool f = irv_split(irv_var("filed", 0, 1));
    auto o = layers(f ? 4 : 3);
    int before = exits;
    if (f)
    {
        char path[2 + SpecialFiledFuseHighLevelOps::kSpecialFileName.size()];
        path[0] = '/';
        memcpy(path + 1, SpecialFiledFuseHighLevelOps::kSpecialFileName.data(), sizeof(path) - 2);
        path[sizeof(path) - 1] = 0;
        if (irv_split(irv_var("rmdir", 0, 1)))
        {
            irv_assert(o->vrmdir(path, &ctx0) == 0 && exits == before + 1, "removing the special directory unmounts");
        }
        else
        {
            fuse_stat st;
            irv_havoc(&st, sizeof(st), "st");
            irv_assert(o->vgetattr(path, &st, &ctx0) == 0 && exits == before, "the special directory is there");
            irv_assert(st.st_mode == (S_IFDIR | 0777) && st.st_nlink == 2 && st.st_uid == ctx0.uid && st.st_gid == ctx0.gid
                           && st.st_size == 0,
                       "as an empty directory of the caller");
        }
    }
    else
    {
        unsigned data = 0;
        irv_assert(OSService::get_cmd_for_query_ioctl() == _IOR('s', 1, unsigned)
                       && OSService::get_cmd_for_trigger_unmount_ioctl() == _IO('s', 2),
                   "the two requests");
        if (irv_split(irv_var("unmount", 0, 1)))
            irv_assert(o->vioctl("/", OSService::get_cmd_for_trigger_unmount_ioctl(), nullptr, nullptr, 0, &data, &ctx0) == 0
                           && exits == before + 1,
                       "the unmount request is served");
        else
            irv_assert(o->vioctl("/", OSService::get_cmd_for_query_ioctl(), nullptr, nullptr, 0, &data, &ctx0) == 0
                           && data == OSService::get_magic_for_mounted_status() && exits == before,
                       "the mount query is answered");
    }
    irv_assert(G.calls == 0, "the implementation is not asked");
    irv_cover("special");
}
// C17: whatever the implementation throws
PROOF(C17_errno)
{
    int layer = NATIVE_ONLY((int)irv_var("layer", 0, 5)) IRV_ONLY(0);
    G.op = (int)irv_concretize(irv_var("op", 0, NOPS - 1));
    if (G.op == OP_getpath)
        return;
#ifndef IRV
    static bool once = [] { global_logger = Logger::create_file_logger("/dev/null"); return true; }();
    global_logger->set_level((LoggingLevel)irv_var("level", 0, 4));
#endif
    auto o = layers(layer);
    setup(o.get());
    G.kind = (int)irv_concretize(irv_var("kind", 0, 9));
    G.err = (int)irv_var("errno", 1, 4095);
    NATIVE_ONLY(if (irv_rand(3)) G.err = (const int[]){ENOENT, EEXIST, ENODATA, EPERM, EIO, ENOSYS, ENOSPC}[irv_rand(7)];)
    bool present, thrown = false;
    int rc = 0;
    try
    {
        rc = through_table(o.get(), layer, present);
    }
    catch (...)
    {
        thrown = true;
    }
    irv_assert(!thrown, "no exception crosses the boundary");
    irv_assert(rc == (G.kind ? expected_rc() : outcome(G.rc, layer)), "the result is the negative errno of the exception");
    irv_assert(G.calls == 1, "the implementation is called exactly once");
    irv_cover(G.kind ? "exception" : "result");
}
// the errno every exception class of the repository stands for
PROOF(C17_classes)
{
    int e = (int)irv_var("errno", 0, 0xffffffffu);
    id_type id;
    irv_havoc(id.data(), 32, "id");
    irv_assert(VFSException(e).error_number() == e, "VFSException");
    irv_assert(POSIXException(e, "x").error_number() == e, "POSIXException");
    irv_assert(InvalidArgumentException("x").error_number() == EINVAL, "InvalidArgumentException");
    irv_assert(StreamTooLongException(e, e).error_number() == EFBIG, "StreamTooLongException");
    irv_assert(CorruptedMetaDataException(id, "x").error_number() == EPERM, "CorruptedMetaDataException");
    irv_assert(MessageVerificationException(id, e).error_number() == EPERM, "MessageVerificationException");
    irv_assert(XattrVerificationException(id, "n").error_number() == EPERM, "XattrVerificationException");
    irv_assert(LiteMessageVerificationException().error_number() == EPERM, "LiteMessageVerificationException");
    irv_assert(InvalidCastException("a", "b").error_number() == EPERM, "InvalidCastException");
    irv_assert(FileTypeInconsistencyException().error_number() == EPERM, "FileTypeInconsistencyException");
    int c = 0;
    try
    {
        throwVFSException(e);
    }
    catch (const VFSException& x)
    {
        c = x.error_number() == e;
    }
    irv_assert(c == 1, "throwVFSException");
    try
    {
        THROW_POSIX_EXCEPTION(e, "x");
    }
    catch (const SystemException& x)
    {
        c = x.error_number() == e ? 2 : 0;
    }
    irv_assert(c == 2, "THROW_POSIX_EXCEPTION");
    irv_cover("classes");
}
