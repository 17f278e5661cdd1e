// C14: encrypted attribute names.
// irv: contract ^securefs::AES_SIV::encrypt_and_authenticate\( => c_siv_enc
// irv: contract ^securefs::AES_SIV::decrypt_and_verify\( => c_siv_dec
// irv: contract ^absl::WebSafeBase64Escape => c_b64
// irv: contract ^absl::WebSafeBase64Unescape\( => c_unb64
// irv: assumes URL-safe base64 of absl is the standard one and refuses malformed text (bounded check: a stand-in of absl)
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <numeric>
#include "xattr_name.cpp"
using namespace securefs;

static struct
{
    const uint8_t* name;
    uint64_t n, x, k;
    uint8_t iv[16];
    uint8_t *ct, *text, *raw;
    uint64_t m, rawn, plain;
    bool okb, oks;
    uint8_t* pt;
    int encs, decs, b64s;
} X;
extern "C"
{
    void c_siv_enc(AES_SIV* s, const void* p, size_t n, const void* ad, size_t an, void* ct, void* iv)
    {
        irv_assert((void*)s == &X, "the given key");
        irv_assert(n == X.n && (X.x >= n || ((const uint8_t*)p)[X.x] == X.name[X.x]), "the name is encrypted");
        irv_assert(an == 0, "no associated data");
        memcpy(ct, X.ct, n);
        memcpy(iv, X.iv, 16);
        ++X.encs;
    }
    bool c_siv_dec(AES_SIV* s, const void* ct, size_t n, const void* ad, size_t an, void* pt, const void* iv)
    {
        irv_assert((void*)s == &X, "the given key");
        irv_assert(X.okb && n == X.rawn - 16 && (X.x >= n || ((const uint8_t*)ct)[X.x] == X.raw[16 + X.x]), "everything after the tag is verified");
        irv_assert(((const uint8_t*)iv)[X.k] == X.raw[X.k], "the tag comes first");
        irv_assert(an == 0, "no associated data");
        memcpy(pt, X.pt, n);
        ++X.decs;
        return X.oks;
    }
    std::string c_b64(std::string_view s)
    {
        irv_assert(X.encs == 1 && s.size() == X.n + 16, "tag and ciphertext are encoded");
        irv_assert((uint8_t)s[X.k] == X.iv[X.k], "the tag comes first");
        irv_assert(X.x >= X.n || (uint8_t)s[16 + X.x] == X.ct[X.x], "then the ciphertext");
        ++X.b64s;
        return std::string((char*)X.text, X.m);
    }
    bool c_unb64(std::string_view s, std::string* out)
    {
        irv_assert(s.size() == X.n - 5 && (X.x < 5 || X.x >= X.n || (uint8_t)s[X.x - 5] == X.name[X.x]), "everything after the prefix is decoded");
        if (!X.okb)
        {
            out->clear();
            return false;
        }
        *out = std::string((char*)X.raw, X.rawn);
        return true;
    }
}
PROOF(C14_name_encrypt)
{
    memset(&X, 0, sizeof(X));
    X.n = irv_len("name", 0, 1ull << 30, 300);
    X.name = (uint8_t*)irv_array("name", X.n);
    X.m = irv_len("text", 22, 1ull << 31, 400);
    X.text = (uint8_t*)irv_array("text", X.m);
    X.ct = (uint8_t*)irv_array("ciphertext", X.n);
    irv_havoc(X.iv, 16, "tag");
    X.x = irv_var("x", 0, 1ull << 31);
    X.k = irv_var("k", 0, 15);
    std::string r = generic_xattr::encrypt_xattr_name(*(AES_SIV*)&X, std::string_view((const char*)X.name, X.n));
    irv_assert(r.size() == X.m + 5 && X.b64s == 1, "prefix and encoding");
    irv_assert(X.x >= 5 || r[X.x] == "user."[X.x], "the prefix");
    irv_assert(X.x >= X.m || (uint8_t)r[5 + X.x] == X.text[X.x], "the encoding");
    irv_cover("encrypt");
}
PROOF(C14_name_decrypt)
{
    memset(&X, 0, sizeof(X));
    X.n = irv_len("name", 0, 1ull << 30, 300);
    X.name = (uint8_t*)irv_array("name", X.n);
    if (irv_split(irv_var("tiny", 0, 1)))
        X.rawn = irv_concretize(irv_var("raw", 0, 31));
    else
        X.rawn = irv_len("raw", 32, 1ull << 30, 300);
    X.raw = (uint8_t*)irv_array("raw", X.rawn);
    X.pt = (uint8_t*)irv_array("plain", X.rawn);
    X.okb = irv_split(irv_var("okb", 0, 1));
    X.oks = irv_split(irv_var("oks", 0, 1));
    X.x = irv_var("x", 0, 1ull << 31);
    X.k = irv_var("k", 0, 15);
    uint64_t pn = X.rawn >= 16 ? X.rawn - 16 : 0;
    bool prefix = X.n >= 5 && X.name[0] == 'u' && X.name[1] == 's' && X.name[2] == 'e' && X.name[3] == 'r' && X.name[4] == '.';
    auto r = generic_xattr::decrypt_xattr_name(*(AES_SIV*)&X, std::string_view((const char*)X.name, X.n));
    if (!prefix || !X.okb || X.rawn <= 16 || !X.oks)
    {
        irv_assert(!r.has_value(), "what was not encrypted does not decrypt");
        irv_cover("refused");
        return;
    }
    irv_assert(r.has_value() && X.decs == 1, "a stored name decrypts");
    irv_assert(r->size() == pn && (X.x >= pn || (uint8_t)(*r)[X.x] == X.pt[X.x]), "the name is what was decrypted");
    irv_cover("decrypted");
}
#endif
