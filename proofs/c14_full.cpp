// C14: extended attributes of full-format file objects.
// irv: contract ^securefs::generate_random\( => c_random
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::hkdf\( => c_hkdf
// irv: contract ^securefs::AES_SIV::AES_SIV\( => c_siv
// irv: contract ^securefs::AES_SIV::~AES_SIV\( => c_siv_end
// irv: contract ^securefs::make_cryptstream_aes_gcm\( => c_make
// irv: contract ^securefs::OSService::get_current_time\( => c_now
// irv: contract ^securefs::OSService::getuid => c_getuid
// irv: contract ^securefs::OSService::getgid => c_getgid
// irv: contract ^securefs::OSService::get_default\( => c_os
// irv: contract ^securefs::generic_xattr::encrypt_xattr_name => c_wrap
// irv: contract ^securefs::generic_xattr::wrapped_listxattr => c_wlist
// irv: assumes AES-GCM of the library: decryption accepts what was encrypted and nothing else (the bounded check runs the real one)
#include "stream_spec.h"
#include "nolog.h"
#ifdef IRV
#include <map>
#include "streams.cpp"
#include "files.cpp"
using namespace securefs;
using spec::SpecStream;
#define FILE_ENV_RANDOM
#include "file_env.h"

static struct
{
    const char* name;     // the caller's name
    uint8_t* w;           // the stored name
    uint64_t wn, x, y;    // its length; arbitrary positions in it and in the value
    uint8_t iv[16];
    const uint8_t* val;
    uint64_t n;
    uint8_t* ct;    // ghost: the stored ciphertext
    uint8_t mac[16];
    uint8_t* pt;
    bool verdict;
    int randoms, encs, decs, wraps, flags;
    int dsets, msets, drems, mrems, dgets, mgets;
    SpecFile *d, *m;
    uint64_t meta_rc;
    char* out;
    uint64_t outn;
    bool data_fails;
} X;
extern "C"
{
    void c_random(void* p, size_t n)
    {
        irv_assert(n == 16, "a nonce of 16 bytes");
        irv_havoc(X.iv, 16, "nonce");
        memcpy(p, X.iv, 16);
        ++X.randoms;
    }
    std::string c_wrap(AES_SIV& siv, std::string_view name)
    {
        irv_assert(name.data() == X.name && X.name[name.size()] == 0 && (X.x >= name.size() || X.name[X.x] != 0), "the caller's name is wrapped");
        ++X.wraps;
        return std::string((char*)X.w, X.wn);
    }
    static void aad(const void* p, size_t n)
    {
        const uint8_t* a = (const uint8_t*)p;
        irv_assert(n == 32 + X.wn, "associated data: the file id and the stored name");
        irv_assert(a[G.k] == G.id[G.k], "the file id is bound");
        irv_assert(X.x >= X.wn || a[32 + X.x] == X.w[X.x], "the attribute name is bound");
    }
    void c_gcm_encrypt(const void* key, size_t kl, void* ct, void* mac, size_t ml, const void* iv, int il, const void* ad, size_t an,
                       const void* msg, size_t mn)
    {
        irv_assert(kl == 32 && ((const uint8_t*)key)[G.k] == G.gen[64 + G.k], "values are encrypted under the third derived key");
        irv_assert(X.randoms == 1 && il == 16 && ((const uint8_t*)iv)[G.k & 15] == X.iv[G.k & 15], "a fresh nonce");
        irv_assert(ml == 16, "a whole tag");
        aad(ad, an);
        irv_assert(mn == X.n && (X.y >= mn || ((const uint8_t*)msg)[X.y] == X.val[X.y]), "the value is encrypted");
        X.ct = (uint8_t*)irv_array("ciphertext", mn);
        irv_havoc(X.mac, 16, "tag");
        memcpy(ct, X.ct, mn);
        memcpy(mac, X.mac, 16);
        ++X.encs;
    }
    bool c_gcm_decrypt(const void* key, size_t kl, void* msg, const void* mac, size_t ml, const void* iv, int il, const void* ad,
                       size_t an, const void* ct, size_t cn)
    {
        irv_assert(kl == 32 && ((const uint8_t*)key)[G.k] == G.gen[64 + G.k], "values are decrypted under the third derived key");
        irv_assert(il == 16 && ((const uint8_t*)iv)[G.k & 15] == X.iv[G.k & 15], "the stored nonce");
        irv_assert(ml == 16 && ((const uint8_t*)mac)[G.k & 15] == X.mac[G.k & 15], "the stored tag");
        aad(ad, an);
        irv_assert(cn == X.n && (X.y >= cn || ((const uint8_t*)ct)[X.y] == X.ct[X.y]), "the stored ciphertext is verified");
        memcpy(msg, X.pt, cn);
        ++X.decs;
        return X.verdict;
    }
    int c_wlist(absl::FunctionRef<int(char*, size_t)> f, AES_SIV& siv, char* b, size_t n)
    {
        irv_assert(b == X.out && n == X.outn, "the caller's buffer");
        char q[4];
        irv_assert(f(q, 3) == 4 * 3 + 1, "the listing is that of the data file");
        return 99;
    }
}
struct Hooks : public XattrHooks
{
    static void name(const char* p)
    {
        irv_assert(X.x > X.wn || (uint8_t)p[X.x] == (X.x == X.wn ? 0 : X.w[X.x]), "the stored name is used");
    }
    ssize_t list(SpecFile* f, char* b, size_t n) override
    {
        irv_assert(f == X.d, "names are listed from the data file");
        return 4 * n + 1;
    }
    ssize_t get(SpecFile* f, const char* k, void* b, size_t n) override
    {
        name(k);
        if (f == X.d)
        {
            ++X.dgets;
            irv_assert(b == X.out && n == X.outn, "the ciphertext is read into the caller's buffer");
            if (X.data_fails || (n && X.n > n))
                throwVFSException(X.data_fails ? ENODATA : ERANGE);
            if (b && n)
                memcpy(b, X.ct, X.n);
            return X.n;
        }
        irv_assert(f == X.m, "nonce and tag come from the metadata file");
        ++X.mgets;
        irv_assert(n >= 32, "nonce and tag");
        memcpy(b, X.iv, 16);
        memcpy((uint8_t*)b + 16, X.mac, 16);
        return X.meta_rc;
    }
    void set(SpecFile* f, const char* k, void* b, size_t n, int fl) override
    {
        name(k);
        irv_assert(fl == X.flags, "the caller's flags");
        const uint8_t* v = (const uint8_t*)b;
        if (f == X.d)
        {
            ++X.dsets;
            irv_assert(X.encs == 1 && n == X.n && (X.y >= n || v[X.y] == X.ct[X.y]), "the ciphertext is stored in the data file");
            return;
        }
        irv_assert(f == X.m, "nonce and tag go to the metadata file");
        ++X.msets;
        irv_assert(X.encs == 1 && n == 32 && v[G.k] == (G.k < 16 ? X.iv[G.k & 15] : X.mac[G.k & 15]), "nonce and tag are stored in the metadata file");
    }
    void remove(SpecFile* f, const char* k) override
    {
        name(k);
        ++(f == X.d ? X.drems : X.mrems);
    }
};
static FileBase* start(Env& e, Hooks& h)
{
    memset(&X, 0, sizeof(X));
    FileBase* f = open<RegularFile>(e);
    e.d.x = e.m.x = &h;
    X.d = &e.d;
    X.m = &e.m;
    uint64_t nl = irv_len("namelen", 0, 1 << 16, 100);
    X.name = (const char*)irv_array("name", nl + 1);
    ((char*)X.name)[nl] = 0;
    X.wn = irv_len("wrapped", 27, 1 << 17, 200);
    X.w = (uint8_t*)irv_array("stored name", X.wn);
    X.x = irv_var("x", 0, 1 << 18);
    X.y = irv_var("y", 0, 1ull << 41);
    irv_focus(X.x);
    X.randoms = X.encs = X.decs = X.wraps = 0;
    return f;
}
PROOF(C14_full_set)
{
    Env e;
    Hooks h;
    FileBase* f = start(e, h);
    X.n = irv_len("size", 0, 1ull << 40, 3000);
    X.val = (const uint8_t*)irv_array("value", X.n);
    X.flags = (int)irv_var("flags", 0, 3);
    f->setxattr(X.name, (const char*)X.val, X.n, X.flags);
    irv_assert(X.wraps >= 1 && X.encs == 1 && X.dsets == 1 && X.msets == 1, "the value and its nonce and tag are stored once");
    irv_assert(X.drems + X.mrems == 0 && e.s.writes == 0 && e.s.resizes == 0 && e.h.writes == 0, "nothing else changes");
    irv_cover("set");
}
PROOF(C14_full_get)
{
    Env e;
    Hooks h;
    FileBase* f = start(e, h);
    bool query = irv_split(irv_var("query", 0, 1));
    X.n = irv_len("stored", 0, 1ull << 40, 3000);
    X.outn = query ? 0 : irv_len("size", 1, 1ull << 40, 3000);
    X.out = query ? nullptr : (char*)irv_array("buffer", X.outn);
    X.ct = (uint8_t*)irv_array("ciphertext", X.n);
    X.pt = (uint8_t*)irv_array("plaintext", X.n);
    irv_havoc(X.iv, 16, "nonce");
    irv_havoc(X.mac, 16, "tag");
    X.meta_rc = irv_var("meta_rc", 0, 32);
    X.verdict = irv_var("verdict", 0, 1);
    X.data_fails = irv_var("absent", 0, 1);
    uint8_t old = X.y < X.outn ? (uint8_t)X.out[X.y] : 0;
    int64_t r = 0;
    bool thrown = false;
    try
    {
        r = f->getxattr(X.name, X.out, X.outn);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    if (X.data_fails || (X.outn && X.n > X.outn))
    {
        irv_assert(thrown && X.decs == 0, "an absent attribute or a short buffer is refused");
        irv_assert(X.y >= X.outn || (uint8_t)X.out[X.y] == old, "a refused read leaves the buffer alone");
        irv_cover("refused");
        return;
    }
    if (query)
    {
        irv_assert(!thrown && r == (int64_t)X.n, "the size query gives the length of the value");
        irv_cover("query");
        return;
    }
    if (X.meta_rc != 32 || (G.check && !X.verdict))
    {
        irv_assert(thrown, "an altered value is refused");
        irv_cover("altered");
        return;
    }
    irv_assert(!thrown && r == (int64_t)X.n, "length of the value");
    irv_assert(X.y >= X.outn || (uint8_t)X.out[X.y] == (X.y < X.n ? X.pt[X.y] : old), "exactly the value is returned");
    irv_assert(X.dsets + X.msets + X.drems + X.mrems == 0 && e.s.writes == 0 && e.h.writes == 0, "reading changes nothing");
    irv_cover("read");
}
PROOF(C14_full_remove_list)
{
    Env e;
    Hooks h;
    FileBase* f = start(e, h);
    if (irv_split(irv_var("list", 0, 1)))
    {
        X.outn = irv_var("size", 0, 1 << 20);
        X.out = (char*)irv_array("buffer", X.outn);
        irv_assert(f->listxattr(X.out, X.outn) == 99, "the result of the listing");
        irv_cover("list");
        return;
    }
    f->removexattr(X.name);
    irv_assert(X.drems == 1 && X.mrems == 1 && X.dsets + X.msets == 0, "the attribute is removed from both files");
    irv_cover("removed");
}
#endif
