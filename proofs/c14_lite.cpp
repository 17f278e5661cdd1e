// C14: extended attributes of the lite format.
// irv: contract ^securefs::generate_random\( => c_random
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::ThreadLocal<securefs::lite_format::XattrCryptor::Cryptor>::get\( => c_cryptor
// irv: contract ^securefs::ThreadLocal<securefs::AES_SIV>::get\( => c_siv_of
// irv: contract ^securefs::ThreadLocalBase::ThreadLocalBase\( => c_tl_begin
// irv: contract ^securefs::ThreadLocalBase::~ThreadLocalBase\( => c_tl_end
// irv: contract ^securefs::generic_xattr::encrypt_xattr_name => c_wrap
// irv: contract ^securefs::generic_xattr::wrapped_listxattr => c_wlist
// irv: contract ^securefs::OSService::getxattr\( => c_os_get
// irv: contract ^securefs::OSService::setxattr\( => c_os_set
// irv: contract ^securefs::OSService::removexattr\( => c_os_remove
// irv: contract ^securefs::OSService::listxattr\( => c_os_list
// irv: assumes AES-GCM of the library: decryption accepts what was encrypted and nothing else (the bounded check runs the real one)
// irv: assumes ThreadLocal::get returns an object its initializer made (one per thread)
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include "lite_format.cpp"
using namespace securefs;
using lite_format::XattrCryptor;

static struct
{
    XattrCryptor::Cryptor* cr;
    uint8_t key[32];
    unsigned ivs;
    bool verify;
    uint64_t k, x, y;
    uint8_t* iv;    // ivs bytes
    uint8_t* ct;
    uint8_t mac[16];
    const uint8_t* val;
    uint8_t* pt;
    uint64_t n;
    bool verdict;
    int randoms, encs, decs;
    // operations
    const char *path, *name;
    uint8_t *p, *w;
    uint64_t pn, wn;
    lite_format::FuseHighLevelOps* ops;
    OSService* root;
    int64_t rc;
    int flags, sets, gets, removes;
    const void* buf;
    uint64_t bufn;
    uint8_t* blob;    // what the file system stores for the attribute
    uint64_t blobn;
    bool query;
} X;
extern "C"
{
    void c_nowarn(const void*, size_t, const char*, int) {}
    void c_tl_begin(void*) {}
    void c_tl_end(void*) {}
    void* c_cryptor(void*) { return X.cr; }
    void* c_siv_of(void*) { return &X; }
    void c_random(void* p, size_t n)
    {
        irv_assert(n == X.ivs && X.randoms == 0, "a nonce of the configured size");
        memcpy(p, X.iv, n);
        ++X.randoms;
    }
    void c_gcm_encrypt(const void* key, size_t kl, void* ct, void* mac, size_t ml, const void* iv, int il, const void* ad, size_t an,
                       const void* msg, size_t mn)
    {
        irv_assert(kl == 32 && ((const uint8_t*)key)[X.k] == X.key[X.k], "values are encrypted under the attribute key");
        irv_assert(X.randoms == 1 && il == (int)X.ivs && (X.x >= X.ivs || ((const uint8_t*)iv)[X.x] == X.iv[X.x]), "a fresh nonce");
        irv_assert(ml == 16 && an == 0, "a whole tag, no associated data");
        irv_assert(mn == X.n && (X.y >= mn || ((const uint8_t*)msg)[X.y] == X.val[X.y]), "the value is encrypted");
        memcpy(ct, X.ct, mn);
        memcpy(mac, X.mac, 16);
        ++X.encs;
    }
    bool c_gcm_decrypt(const void* key, size_t kl, void* msg, const void* mac, size_t ml, const void* iv, int il, const void* ad,
                       size_t an, const void* ct, size_t cn)
    {
        irv_assert(kl == 32 && ((const uint8_t*)key)[X.k] == X.key[X.k], "values are decrypted under the attribute key");
        irv_assert(X.blobn >= X.ivs + 16 && cn == X.blobn - X.ivs - 16, "everything between nonce and tag is verified");
        irv_assert(il == (int)X.ivs && (X.x >= X.ivs || ((const uint8_t*)iv)[X.x] == X.blob[X.x]), "the stored nonce");
        irv_assert(ml == 16 && an == 0 && ((const uint8_t*)mac)[X.k & 15] == X.blob[X.blobn - 16 + (X.k & 15)], "the stored tag");
        irv_assert(X.y >= cn || ((const uint8_t*)ct)[X.y] == X.blob[X.ivs + X.y], "the stored ciphertext");
        memcpy(msg, X.pt, cn);
        ++X.decs;
        return X.verdict;
    }
    std::string c_wrap(AES_SIV& siv, std::string_view name)
    {
        irv_assert((void*)&siv == &X, "the attribute name key");
        irv_assert(name.data() == X.name && X.name[name.size()] == 0 && (X.x >= name.size() || X.name[X.x] != 0), "the caller's name is wrapped");
        return std::string((char*)X.w, X.wn);
    }
    static void where(const OSService* o, const char* path)
    {
        irv_assert(o == X.root, "the underlying directory");
        irv_assert(X.x > X.pn || (uint8_t)path[X.x] == (X.x == X.pn ? 0 : X.p[X.x]), "the translated path");
    }
    static void what(const char* n) { irv_assert(X.x > X.wn || (uint8_t)n[X.x] == (X.x == X.wn ? 0 : X.w[X.x]), "the stored name"); }
    int64_t c_os_get(const OSService* o, const char* path, const char* name, void* buf, size_t n)
    {
        where(o, path);
        what(name);
        ++X.gets;
        if (X.rc < 0)
            return X.rc;
        if (n == 0)
            return X.blobn;
        if (n < X.blobn)
            return -ERANGE;
        memcpy(buf, X.blob, X.blobn);
        return X.blobn;
    }
    int c_os_set(const OSService* o, const char* path, const char* name, void* buf, size_t n, int flags)
    {
        where(o, path);
        what(name);
        ++X.sets;
        const uint8_t* b = (const uint8_t*)buf;
        irv_assert(flags == X.flags, "the caller's flags");
        irv_assert(X.encs == 1 && n == X.n + X.ivs + 16, "nonce, ciphertext and tag are stored");
        irv_assert(X.x >= X.ivs || b[X.x] == X.iv[X.x], "the nonce comes first");
        irv_assert(X.y >= X.n || b[X.ivs + X.y] == X.ct[X.y], "then the ciphertext");
        irv_assert(b[n - 16 + (X.k & 15)] == X.mac[X.k & 15], "then the tag");
        return (int)X.rc;
    }
    int c_os_remove(const OSService* o, const char* path, const char* name)
    {
        where(o, path);
        what(name);
        ++X.removes;
        return (int)X.rc;
    }
    int64_t c_os_list(const OSService* o, const char* path, char* buf, size_t n)
    {
        where(o, path);
        irv_assert((void*)buf == &X.flags && n == 3, "the buffer of the listing");
        return X.rc;
    }
    int c_wlist(absl::FunctionRef<int(char*, size_t)> f, AES_SIV& siv, char* b, size_t n)
    {
        irv_assert((void*)&siv == &X, "the attribute name key");
        irv_assert((void*)b == X.buf && n == X.bufn, "the caller's buffer");
        irv_assert(f((char*)&X.flags, 3) == (int)X.rc, "the listing is that of the underlying object");
        return 99;
    }
}
struct Translator : public lite_format::NameTranslator
{
    std::string encrypt_full_path(std::string_view path, std::string* last) override
    {
        irv_assert(path.data() == X.path && X.path[path.size()] == 0 && (X.x >= path.size() || X.path[X.x] != 0) && !last,
                   "the caller's path is translated");
        return std::string((char*)X.p, X.pn);
    }
    std::variant<lite_format::InvalidNameTag, lite_format::LongNameTag, std::string> decrypt_path_component(std::string_view) override { return lite_format::InvalidNameTag{}; }
    std::string encrypt_path_for_symlink(std::string_view) override { return {}; }
    std::string decrypt_path_from_symlink(std::string_view) override { return {}; }
    unsigned max_virtual_path_component_size(unsigned n) override { return n; }
};
static XattrCryptor* cryptor()
{
    memset(&X, 0, sizeof(X));
    irv_havoc(X.key, 32, "key");
    X.ivs = (unsigned)irv_len("iv", 1, 256, 32);
    X.verify = irv_var("verify", 0, 1);
    X.k = irv_var("k", 0, 31);
    X.x = irv_var("x", 0, 1 << 18);
    X.y = irv_var("y", 0, 1ull << 40);
    irv_focus(X.x);
    X.iv = (uint8_t*)irv_array("nonce", X.ivs);
    irv_havoc(X.mac, 16, "tag");
    X.verdict = irv_var("verdict", 0, 1);
    key_type k;
    memcpy(k.data(), X.key, 32);
    X.cr = new XattrCryptor::Cryptor(k);
    return new XattrCryptor(StrongType<key_type, tXattrMasterKey>(k), StrongType<unsigned, tIvSize>(X.ivs), StrongType<bool, tVerify>(X.verify));
}
static char* text(const char* what)
{
    uint64_t n = irv_len(what, 0, 1 << 16, 100);
    char* p = (char*)irv_array(what, n + 1);
    p[n] = 0;
    return p;
}
static lite_format::FuseHighLevelOps* ops(XattrCryptor* c)
{
    X.path = text("path");
    X.name = text("name");
    X.pn = irv_len("ppath", 16, 1 << 17, 200);
    X.p = (uint8_t*)irv_array("stored path", X.pn);
    X.wn = irv_len("wname", 27, 1 << 17, 200);
    X.w = (uint8_t*)irv_array("stored name", X.wn);
    X.root = (OSService*)irv_array("root", sizeof(OSService));
    key_type k;
    memcpy(k.data(), X.key, 32);
    std::shared_ptr<void> none;
    return new lite_format::FuseHighLevelOps(std::shared_ptr<OSService>(none, X.root), std::shared_ptr<lite_format::StreamOpener>(),
                                             std::shared_ptr<lite_format::NameTranslator>(none, new Translator), std::shared_ptr<XattrCryptor>(none, c),
                                             StrongType<key_type, tXattrMasterKey>(k), StrongType<bool, tEnableXattr>(true));
}
// what is written is nonce, ciphertext, tag; the two size formulas are inverse
PROOF(C14_lite_encrypt)
{
    XattrCryptor* c = cryptor();
    X.n = irv_len("size", 0, 1ull << 39, 3000);
    X.val = (const uint8_t*)irv_array("value", X.n);
    X.ct = (uint8_t*)irv_array("ciphertext", X.n);
    std::vector<byte> r = c->encrypt((const char*)X.val, X.n);
    irv_assert(X.encs == 1, "one encryption");
    irv_assert(r.size() == X.n + X.ivs + 16, "stored length");
    irv_assert(X.x >= X.ivs || r[X.x] == X.iv[X.x], "the nonce comes first");
    irv_assert(X.y >= X.n || r[X.ivs + X.y] == X.ct[X.y], "then the ciphertext");
    irv_assert(r[X.ivs + X.n + (X.k & 15)] == X.mac[X.k & 15], "then the tag");
    irv_assert(c->infer_encrypted_size(X.n) == r.size() && c->infer_decrypted_size(r.size()) == X.n, "the sizes determine each other");
    uint64_t any = irv_var("any", 0, 1ull << 40);
    irv_assert(c->infer_decrypted_size(any) == (any < X.ivs + 16 ? 0 : any - X.ivs - 16), "plain size of any stored size");
    irv_cover("encrypt");
}
PROOF(C14_lite_set)
{
    XattrCryptor* c = cryptor();
    auto* f = ops(c);
    X.n = irv_len("size", 0, 1ull << 39, 3000);
    X.val = (const uint8_t*)irv_array("value", X.n);
    X.ct = (uint8_t*)irv_array("ciphertext", X.n);
    X.flags = (int)irv_var("flags", 0, 3);
    X.rc = (int)irv_var("rc", 0, 4095) * -1;
    uint32_t pos = (uint32_t)irv_var("position", 0, 1);
    int r = f->vsetxattr(X.path, X.name, (const char*)X.val, X.n, X.flags, pos, nullptr);
    if (pos)
    {
        irv_assert(r == -EINVAL && X.sets == 0, "positions are refused");
        irv_cover("position");
        return;
    }
    irv_assert(r == (int)X.rc && X.sets == 1 && X.removes == 0, "the attribute is set once, the result returned");
    irv_cover("set");
}
PROOF(C14_lite_get)
{
    XattrCryptor* c = cryptor();
    auto* f = ops(c);
    bool query = irv_split(irv_var("query", 0, 1));
    X.blobn = irv_len("stored", 0, 1ull << 39, 3000);
    X.blob = (uint8_t*)irv_array("blob", X.blobn);
    X.n = X.blobn < X.ivs + 16 ? 0 : X.blobn - X.ivs - 16;
    X.pt = (uint8_t*)irv_array("plaintext", X.n);
    X.bufn = query ? 0 : irv_len("size", 0, 1ull << 39, 3000);
    uint8_t* out = query ? nullptr : (uint8_t*)irv_array("buffer", X.bufn);
    X.rc = (int)irv_var("rc", 0, 4095) * -1;
    uint8_t old = X.y < X.bufn ? out[X.y] : 0;
    bool thrown = false;
    int64_t r = 0;
    try
    {
        r = f->vgetxattr(X.path, X.name, (char*)out, X.bufn, 0, nullptr);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    irv_assert(X.sets + X.removes == 0, "reading changes nothing");
    if (X.rc < 0)
    {
        irv_assert(!thrown && r == X.rc && X.decs == 0, "an error is returned");
        irv_cover("error");
        return;
    }
    if (query)
    {
        irv_assert(!thrown && r == (int)X.n, "the size query gives the length of the value");
        irv_cover("query");
        return;
    }
    if (X.blobn > X.bufn + X.ivs + 16)
    {
        irv_assert(!thrown && r == -ERANGE, "a short buffer is refused");
        irv_assert(X.y >= X.bufn || out[X.y] == old, "a refused read leaves the buffer alone");
        irv_cover("short");
        return;
    }
    if (X.blobn < X.ivs + 16 || (X.verify && !X.verdict))
    {
        irv_assert(thrown, "an altered value is refused");
        irv_cover("altered");
        return;
    }
    irv_assert(!thrown && r == (int)X.n && X.decs == 1, "length of the value");
    irv_assert(X.y >= X.bufn || out[X.y] == (X.y < X.n ? X.pt[X.y] : old), "exactly the value is returned");
    irv_cover("read");
}
PROOF(C14_lite_remove_list)
{
    XattrCryptor* c = cryptor();
    auto* f = ops(c);
    X.rc = (int)irv_var("rc", 0, 8191) - 4095;
    if (irv_split(irv_var("list", 0, 1)))
    {
        X.bufn = irv_var("size", 0, 1 << 20);
        X.buf = irv_array("buffer", X.bufn);
        irv_assert(f->vlistxattr(X.path, (char*)X.buf, X.bufn, nullptr) == 99, "the result of the listing");
        irv_cover("list");
        return;
    }
    irv_assert(f->vremovexattr(X.path, X.name, nullptr) == (int)X.rc && X.removes == 1 && X.sets == 0, "the attribute is removed");
    irv_cover("removed");
}
#endif
