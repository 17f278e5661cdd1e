// C13: the parameters of a volume, sealed under a password and a key file.
// irv: contract ^securefs::generate_random\( => c_rng
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::parse_hex(\[abi:cxx11\])?\(std:: => c_unhex
// irv: contract ::hmac_sha256\(absl::Span => c_keyfile
// irv: original ::hmac_sha256\(absl::Span => orig_keyfile
// irv: contract ^argon2id_hash_raw$ => c_argon
// irv: assumes the key derivations and AES-GCM of the libraries: a decryption is accepted exactly for the key, nonce, text and tag of an encryption (the bounded check runs the real ones)
// irv: assumes protobuf: parsing gives back what was serialised (a stand-in for the generated classes here, the real ones natively)
#include "irv.h"
#ifdef IRV
#include "nolog.h"
#include "crypto.h"
#include "mystring.h"
#include "myutils.h"
#include "stream_spec.h"
#define GOOGLE_PROTOBUF_INCLUDED_params_2eproto
#define GOOGLE_PROTOBUF_INCLUDED_params_2eproto_2epb_2eh
#define GOOGLE_PROTOBUF_UTIL_JSON_UTIL_H__
namespace securefs
{
struct LegacySecurefsJsonParams
{
    uint32_t version_ = 0, block_size_ = 0, iv_size_ = 0, iterations_ = 0, scrypt_r_ = 0, scrypt_p_ = 0, argon2_m_cost_ = 0, argon2_p_ = 0, max_padding_ = 0;
    bool hb = false, hi = false, lnc = false;
    std::string salt_, pbkdf_;
    struct EncryptedMasterKey
    {
        std::string iv_, mac_, ciphertext_;
        const std::string& iv() const { return iv_; }
        const std::string& mac() const { return mac_; }
        const std::string& ciphertext() const { return ciphertext_; }
    } key_;
    uint32_t version() const { return version_; }
    bool has_block_size() const { return hb; }
    uint32_t block_size() const { return block_size_; }
    bool has_iv_size() const { return hi; }
    uint32_t iv_size() const { return iv_size_; }
    const std::string& salt() const { return salt_; }
    const EncryptedMasterKey& encrypted_key() const { return key_; }
    uint32_t iterations() const { return iterations_; }
    const std::string& pbkdf() const { return pbkdf_; }
    uint32_t scrypt_r() const { return scrypt_r_; }
    uint32_t scrypt_p() const { return scrypt_p_; }
    uint32_t argon2_m_cost() const { return argon2_m_cost_; }
    uint32_t argon2_p() const { return argon2_p_; }
    uint32_t max_padding() const { return max_padding_; }
    bool long_name_component() const { return lnc; }
};
struct DecryptedSecurefsParams
{
    struct SizeParams
    {
        uint32_t block_size_ = 0, iv_size_ = 0, max_padding_size_ = 0;
        void set_block_size(uint32_t v) { block_size_ = v; }
        void set_iv_size(uint32_t v) { iv_size_ = v; }
        void set_max_padding_size(uint32_t v) { max_padding_size_ = v; }
        uint32_t block_size() const { return block_size_; }
        uint32_t iv_size() const { return iv_size_; }
        uint32_t max_padding_size() const { return max_padding_size_; }
    } size_;
    struct LiteFormatParams
    {
        std::string n_, c_, x_, p_;
        uint32_t threshold_ = 0;
        bool ht = false;
        std::string* mutable_name_key() { return &n_; }
        std::string* mutable_content_key() { return &c_; }
        std::string* mutable_xattr_key() { return &x_; }
        std::string* mutable_padding_key() { return &p_; }
        const std::string& name_key() const { return n_; }
        const std::string& content_key() const { return c_; }
        const std::string& xattr_key() const { return x_; }
        const std::string& padding_key() const { return p_; }
        void set_long_name_threshold(uint32_t v)
        {
            threshold_ = v;
            ht = true;
        }
    } lite_;
    struct FullFormatParams
    {
        std::string m_;
        bool store_time_ = false, legacy_ = false;
        std::string* mutable_master_key() { return &m_; }
        const std::string& master_key() const { return m_; }
        void set_store_time(bool b) { store_time_ = b; }
        void set_legacy_file_table_io(bool b) { legacy_ = b; }
    } full_;
    int which = 0;
    bool parsed = false;
    SizeParams* mutable_size_params() { return &size_; }
    const SizeParams& size_params() const { return size_; }
    LiteFormatParams* mutable_lite_format_params()
    {
        if (which != 2)
            lite_ = LiteFormatParams();
        which = 2;
        return &lite_;
    }
    FullFormatParams* mutable_full_format_params()
    {
        if (which != 3)
            full_ = FullFormatParams();
        which = 3;
        return &full_;
    }
    const LiteFormatParams& lite_format_params() const { return lite_; }
    const FullFormatParams& full_format_params() const { return full_; }
    bool has_lite_format_params() const { return which == 2; }
    bool has_full_format_params() const { return which == 3; }
    bool ParseFromArray(const void* p, int n);
    bool ParseFromString(const std::string& s) { return ParseFromArray(s.data(), s.size()); }
    std::string SerializeAsString() const;
};
struct EncryptedSecurefsParams
{
    std::string salt_, iv_, mac_, ciphertext_;
    struct Argon2idParams
    {
        uint32_t t_ = 0, m_ = 0, p_ = 0;
        uint32_t time_cost() const { return t_; }
        uint32_t memory_cost() const { return m_; }
        uint32_t parallelism() const { return p_; }
        void CopyFrom(const Argon2idParams& o) { *this = o; }
    } a_;
    const std::string& salt() const { return salt_; }
    const std::string& iv() const { return iv_; }
    const std::string& mac() const { return mac_; }
    const std::string& ciphertext() const { return ciphertext_; }
    std::string* mutable_salt() { return &salt_; }
    std::string* mutable_iv() { return &iv_; }
    std::string* mutable_mac() { return &mac_; }
    std::string* mutable_ciphertext() { return &ciphertext_; }
    const Argon2idParams& argon2id_params() const { return a_; }
    Argon2idParams* mutable_argon2id_params() { return &a_; }
    bool ParseFromString(const std::string& s);
};
}    // namespace securefs
namespace google::protobuf::util
{
struct Status
{
    bool v;
    bool ok() const { return v; }
};
Status JsonStringToMessage(std::string_view s, securefs::LegacySecurefsJsonParams* out);
}
#include "params_io.cpp"
using namespace securefs;
using spec::SpecStream;

enum
{
    PKCS5, NONE, SCRYPT, ARGON, OTHER
};
static struct
{
    uint64_t x, y;
    const uint8_t* pw;
    uint64_t pwn;
    SpecStream* ks;
    const uint8_t *salt, *iv, *mac, *ct, *pt;
    uint64_t saltn, ivn, macn, ctn;
    uint32_t t, m, p, r;
    int alg, rc;
    bool legacy, sealing, is_proto, is_json, parse;
    int kdfs, keyfiles, gcms, randoms, parses, encs;
    uint8_t K[2][32], F[2][32];
    bool verdict[2];
    uint32_t version;
    uint8_t riv[12], rsalt[32], tag[16];
    const char* content;
    uint64_t contentn;
    LegacySecurefsJsonParams* js;
    EncryptedSecurefsParams* en;
    // hashing
    uint8_t hkey[32];
    const uint8_t* hk;
    uint64_t hkn, fed;
    void* h;
    bool done;
    uint8_t digest[32];
} X;
static bool same(const void* a, uint64_t n, const void* b, uint64_t m)
{
    return n == m && (X.x >= n || ((const uint8_t*)a)[X.x] == ((const uint8_t*)b)[X.x]);
}
static void kdf(int alg, void* out, size_t on, const void* pw, size_t pn, const void* salt, size_t sn)
{
    int i = X.kdfs++;
    irv_assert(alg == X.alg, "the derivation that is asked for");
    irv_assert(same(pw, pn, X.pw, X.pwn), "the whole password is used");
    irv_assert(i <= 1 && on == 32, "a key of 32 bytes");
    if (X.ks && i == 0)
        irv_assert(same(salt, sn, X.F[0], 32) && X.keyfiles >= 1, "the key file is part of the salt");
    else
        irv_assert(same(salt, sn, X.salt, X.saltn), "the stored salt");
    memcpy(out, X.K[i], 32);
}
extern "C"
{
    void c_nowarn(const void*, size_t, const char*, int) {}
    void c_rng(void* p, size_t n)
    {
        irv_assert(X.sealing && (n == 12 || n == 32), "a nonce and a salt are drawn");
        memcpy(p, n == 12 ? X.riv : X.rsalt, n);
        X.randoms += n == 12 ? 1 : 16;
    }
    key_type c_keyfile(absl::Span<const byte> base, StreamBase& s)
    {
        int i = X.keyfiles++;
        irv_assert(&s == X.ks, "the key file");
        if (i == 0)
            irv_assert(same(base.data(), base.size(), X.salt, X.saltn), "the stored salt is mixed with the key file");
        else
            irv_assert(i == 1 && X.legacy && X.kdfs == 2 && same(base.data(), base.size(), X.K[1], 32), "the derived key is mixed with the key file");
        key_type r;
        memcpy(r.data(), X.F[i], 32);
        return r;
    }
    int c_argon(uint32_t t, uint32_t m, uint32_t p, const void* pw, size_t pn, const void* salt, size_t sn, void* out, size_t on)
    {
        irv_assert(t == X.t && m == X.m && p == X.p, "the stored costs");
        kdf(ARGON, out, on, pw, pn, salt, sn);
        return X.rc;
    }
    void c_scrypt(void* out, size_t n, const void* pw, size_t pn, const void* salt, size_t sn, uint64_t cost, uint64_t r, uint64_t p)
    {
        irv_assert(cost == X.t && r == X.r && p == X.p, "the stored costs");
        kdf(SCRYPT, out, n, pw, pn, salt, sn);
    }
    void c_pbkdf2(void* out, size_t n, const void* pw, size_t pn, const void* salt, size_t sn, unsigned iter)
    {
        irv_assert(iter == X.t, "the stored costs");
        kdf(X.alg == NONE ? NONE : PKCS5, out, n, pw, pn, salt, sn);
    }
    void c_gcm_encrypt(const void* key, size_t kl, void* ct, void* mac, size_t ml, const void* iv, int il, const void* ad, size_t an,
                       const void* msg, size_t mn)
    {
        irv_assert(kl == 32 && X.kdfs == 1 && same(key, 32, X.K[0], 32), "sealed under the derived key");
        irv_assert(ml == 16 && an == 0, "a whole tag, nothing else authenticated");
        irv_assert(il == 12 && same(iv, il, X.riv, 12), "a fresh nonce");
        irv_assert(same(msg, mn, X.pt, X.ctn), "the parameters are sealed");
        memcpy(ct, X.ct, mn);
        memcpy(mac, X.tag, 16);
        ++X.encs;
    }
    bool c_gcm_decrypt(const void* key, size_t kl, void* msg, const void* mac, size_t ml, const void* iv, int il, const void* ad,
                       size_t an, const void* ct, size_t cn)
    {
        int i = X.gcms++;
        irv_assert(i == 0 || (i == 1 && X.legacy && X.ks && !X.verdict[0]), "one attempt, another one for old key files");
        irv_assert(kl == 32 && same(key, 32, i == 0 ? X.K[0] : X.F[1], 32) && X.kdfs == i + 1, "opened with the derived key");
        irv_assert(same(mac, ml, X.mac, X.macn), "the stored tag is verified");
        irv_assert(ml == 16, "tags that are cut off are not accepted");
        irv_assert(same(iv, il, X.iv, X.ivn), "the stored nonce");
        irv_assert(same(ct, cn, X.ct, X.ctn), "all of the stored text");
        if (X.legacy)
            irv_assert(an == 9 && memcmp(ad, X.version == 4 ? "version=4" : "version=1", 9) == 0, "the version is authenticated");
        else
            irv_assert(an == 0, "nothing else is authenticated");
        memcpy(msg, X.pt, cn);
        return irv_split(X.verdict[i]);
    }
    std::vector<byte> c_unhex(std::string_view s)
    {
        const uint8_t* p = nullptr;
        uint64_t n = 0;
        if (s.data() == X.js->salt_.data())
            p = X.salt, n = X.saltn;
        else if (s.data() == X.js->key_.iv_.data())
            p = X.iv, n = X.ivn;
        else if (s.data() == X.js->key_.mac_.data())
            p = X.mac, n = X.macn;
        else
        {
            irv_assert(s.data() == X.js->key_.ciphertext_.data(), "a stored text is decoded");
            p = X.ct, n = X.ctn;
        }
        std::vector<byte> r(n);
        memcpy(r.data(), p, n);
        return r;
    }
    void c_hash_begin(void* h, int alg, const void* key, size_t kl, size_t dl)
    {
        irv_assert(alg == 1 && dl == 32 && same(key, kl, X.hk, X.hkn) && !X.h, "HMAC-SHA256 under the given key");
        X.h = h;
    }
    void c_hash_update(void* h, int, const void* in, size_t n)
    {
        irv_assert(h == X.h, "the object keyed before");
        if (X.y >= X.fed && X.y - X.fed < n)
        {
            X.done = true;
            irv_assert(((const uint8_t*)in)[X.y - X.fed] == X.ks->d[X.y], "the key file is hashed in order");
        }
        X.fed += n;
    }
    void c_hash_final(void* h, int, void* out, size_t n)
    {
        irv_assert(h == X.h && n == 32, "the whole code is taken");
        irv_assert(X.fed == X.ks->sz && (X.y >= X.ks->sz || X.done), "the whole key file is hashed, and only that");
        memcpy(out, X.digest, 32);
        X.h = nullptr;
    }
    key_type orig_keyfile(absl::Span<const byte> base, StreamBase& s);
}
namespace securefs
{
bool DecryptedSecurefsParams::ParseFromArray(const void* p, int n)
{
    irv_assert(same(p, n, X.pt, X.ctn), "the opened text is parsed");
    ++X.parses;
    parsed = true;
    return X.parse;
}
std::string DecryptedSecurefsParams::SerializeAsString() const { return std::string((const char*)X.pt, X.ctn); }
bool EncryptedSecurefsParams::ParseFromString(const std::string& s)
{
    irv_assert(same(s.data(), s.size(), X.content, X.contentn), "the whole file is parsed");
    if (!irv_split(X.is_proto))
        return false;
    *this = *X.en;
    return true;
}
}    // namespace securefs
namespace google::protobuf::util
{
Status JsonStringToMessage(std::string_view s, LegacySecurefsJsonParams* out)
{
    irv_assert(same(s.data(), s.size(), X.content, X.contentn), "the whole file is parsed");
    if (!irv_split(X.is_json))
        return {false};
    std::swap(*out, *X.js);
    X.js = out;
    return {true};
}
}
static std::string str(const uint8_t* p, uint64_t n) { return std::string((const char*)p, n); }
static void begin(bool keyfile)
{
    memset(&X, 0, sizeof(X));
    X.x = irv_var("x", 0, 1 << 18);
    irv_focus(X.x);
    X.pwn = irv_var("pwn", 0, 1 << 16);
    X.pw = (uint8_t*)irv_array("pw", X.pwn);
    irv_havoc(X.K, sizeof(X.K), "derived");
    irv_havoc(X.F, sizeof(X.F), "mixed");
    X.ks = keyfile ? new SpecStream : nullptr;
    X.t = (uint32_t)irv_var("t", 0, 0xffffffff);
    X.m = (uint32_t)irv_var("m", 0, 0xffffffff);
    X.p = (uint32_t)irv_var("p", 0, 0xffffffff);
    X.r = (uint32_t)irv_var("r", 0, 0xffffffff);
    X.ivn = irv_var("ivn", 1, 64);
    X.iv = (uint8_t*)irv_array("iv", X.ivn);
    X.ctn = irv_var("ctn", 16, 1 << 16);
    X.ct = (uint8_t*)irv_array("ct", X.ctn);
    X.pt = (uint8_t*)irv_array("pt", X.ctn);
    X.verdict[0] = irv_var("verdict", 0, 1);
    X.verdict[1] = irv_var("verdict2", 0, 1);
    X.parse = irv_var("parses", 0, 1);
    X.contentn = irv_var("contentn", 16, 1 << 17);
    X.content = (const char*)irv_array("content", X.contentn);
}
// 0: result, 1: the password is wrong, 2: another error
template <class F>
static int run(F f)
{
    try
    {
        f();
    }
    catch (const PasswordOrKeyfileIncorrectException&)
    {
        return 1;
    }
    catch (const std::exception&)
    {
        return 2;
    }
    return 0;
}
PROOF(C13_seal)
{
    begin(irv_split(irv_var("key file", 0, 1)));
    X.sealing = true;
    X.alg = ARGON;
    X.rc = irv_var("rc", 0, 1) ? -1 : 0;
    irv_havoc(X.riv, 12, "nonce");
    irv_havoc(X.rsalt, 32, "salt");
    irv_havoc(X.tag, 16, "tag");
    X.salt = X.rsalt;
    X.saltn = 32;
    EncryptedSecurefsParams::Argon2idParams a;
    a.t_ = X.t, a.m_ = X.m, a.p_ = X.p;
    DecryptedSecurefsParams d;
    EncryptedSecurefsParams r;
    int e = run([&] { r = encrypt(d, a, absl::Span<const byte>(X.pw, X.pwn), X.ks); });
    if (X.rc)
    {
        irv_assert(e == 2 && X.encs == 0, "a failing derivation is reported");
        irv_cover("failed");
        return;
    }
    irv_assert(e == 0 && X.encs == 1 && X.randoms == 17 && X.keyfiles == (X.ks != nullptr), "sealed once, with a nonce and a salt of its own");
    irv_assert(same(r.iv().data(), r.iv().size(), X.riv, 12), "the nonce is stored");
    irv_assert(same(r.salt().data(), r.salt().size(), X.rsalt, 32), "the salt is stored");
    irv_assert(same(r.mac().data(), r.mac().size(), X.tag, 16), "the tag is stored");
    irv_assert(same(r.ciphertext().data(), r.ciphertext().size(), X.ct, X.ctn), "the text is stored");
    irv_assert(r.a_.t_ == X.t && r.a_.m_ == X.m && r.a_.p_ == X.p, "the costs are stored");
    irv_cover("sealed");
}
PROOF(C13_open)
{
    begin(irv_split(irv_var("key file", 0, 1)));
    X.alg = ARGON;
    X.is_proto = true;
    X.rc = irv_var("rc", 0, 1) ? -1 : 0;
    X.saltn = 32;
    X.salt = (uint8_t*)irv_array("salt", 32);
    X.macn = irv_concretize(irv_var("macn", 14, 18));
    X.mac = (uint8_t*)irv_array("mac", X.macn);
    X.ivn = 16;
    EncryptedSecurefsParams en;
    en.salt_ = str(X.salt, 32), en.mac_ = str(X.mac, X.macn), en.ciphertext_ = str(X.ct, X.ctn);
    X.iv = (uint8_t*)irv_array("iv", 16);
    en.iv_ = str(X.iv, 16);
    en.a_.t_ = X.t, en.a_.m_ = X.m, en.a_.p_ = X.p;
    X.en = &en;
    DecryptedSecurefsParams d;
    int e = run([&] { d = decrypt(std::string_view(X.content, X.contentn), absl::Span<const byte>(X.pw, X.pwn), X.ks); });
    if (e == 0)
    {
        irv_assert(X.gcms == 1 && X.verdict[0] && X.macn == 16 && X.rc == 0, "parameters come out only if the tag is that of the derived key");
        irv_assert(d.parsed && X.parse && X.parses == 1 && X.keyfiles == (X.ks != nullptr), "they are those that were sealed");
        irv_cover("opened");
    }
    else
    {
        irv_assert(!X.parses || !X.parse, "nothing is lost");
        irv_assert(X.rc || X.macn != 16 || !X.verdict[0] || !X.parse, "what was sealed is opened");
        if (X.rc == 0 && X.macn == 16 && !X.verdict[0])
            irv_assert(e == 1, "a wrong password is reported as such");
        irv_cover("refused");
    }
}
PROOF(C13_neither)
{
    begin(false);
    int e = run([&] { decrypt(std::string_view(X.content, X.contentn), absl::Span<const byte>(X.pw, X.pwn), nullptr); });
    irv_assert(e == 2 && !X.kdfs && !X.gcms, "a file that is neither is refused");
    irv_cover("refused");
}
static void legacy(bool keyfile, uint32_t version, int alg, int keys = -1)
{
    begin(keyfile);
    X.legacy = X.is_json = true;
    X.version = version;
    X.alg = alg;
    X.rc = 0;
    X.saltn = irv_var("saltn", 0, 64);
    X.salt = (uint8_t*)irv_array("salt", X.saltn);
    X.macn = irv_split(irv_var("whole tag", 0, 1)) ? 16 : irv_var("macn", 0, 15);
    X.mac = (uint8_t*)irv_array("mac", X.macn);
    const uint64_t sizes[] = {96, 128, 64};
    X.ctn = version == 4 ? sizes[keys >= 0 ? keys : irv_concretize(irv_var("keys", 0, 2))] : irv_var("key", 16, 256);
    X.ct = (uint8_t*)irv_array("ct", X.ctn);
    X.pt = (uint8_t*)irv_array("pt", X.ctn);
    const char* algs[] = {"pkcs5-pbkdf2-hmac-sha256", "", "scrypt", "argon2id", "unknown"};
    LegacySecurefsJsonParams js;
    js.pbkdf_ = algs[X.alg];
    js.version_ = X.version;
    js.iterations_ = X.t;
    js.scrypt_r_ = X.r;
    js.scrypt_p_ = X.p;
    js.argon2_m_cost_ = X.m;
    js.argon2_p_ = X.p;
    // (that the sizes may be absent does not depend on the rest)
    bool vary = version != 4 && alg == ARGON;
    js.hb = vary && irv_var("has bs", 0, 1), js.hi = vary && irv_var("has iv", 0, 1), js.lnc = irv_var("long", 0, 1);
    uint32_t bs = js.hb ? (js.block_size_ = irv_var("bs", 0, 1 << 24)) : 4096, ivs = js.hi ? (js.iv_size_ = irv_var("ivs", 0, 64)) : 32;
    uint32_t pad = js.max_padding_ = irv_var("pad", 0, 1 << 24);
    bool lnc = js.lnc;
    // texts, told apart by where they are
    js.salt_ = str((uint8_t*)irv_array("h1", 20), 20);
    js.key_.iv_ = str((uint8_t*)irv_array("h2", 20), 20);
    js.key_.mac_ = str((uint8_t*)irv_array("h3", 20), 20);
    js.key_.ciphertext_ = str((uint8_t*)irv_array("h4", 20), 20);
    X.js = &js;
    DecryptedSecurefsParams d;
    int e = run([&] { d = decrypt(std::string_view(X.content, X.contentn), absl::Span<const byte>(X.pw, X.pwn), X.ks); });
    if (X.alg == OTHER)
    {
        irv_assert(e == 2 && !X.gcms, "an unknown derivation is refused");
        irv_cover("unknown");
        return;
    }
    if (e == 0)
    {
        irv_assert(X.macn == 16 && (X.gcms == 2 ? X.verdict[1] : X.gcms == 1 && X.verdict[0]), "parameters come out only if the tag is that of a derived key");
        irv_assert(d.size_.block_size_ == bs && d.size_.iv_size_ == ivs && d.size_.max_padding_size_ == pad, "sizes");
        if (X.version == 4)
        {
            irv_assert(X.ctn == 96 || X.ctn == 128, "three or four keys");
            irv_assert(d.which == 2 && same(d.lite_.n_.data(), d.lite_.n_.size(), X.pt, 32) && same(d.lite_.c_.data(), d.lite_.c_.size(), X.pt + 32, 32)
                           && same(d.lite_.x_.data(), d.lite_.x_.size(), X.pt + 64, 32),
                       "the keys of the lite format");
            irv_assert(X.ctn == 96 ? d.lite_.p_.size() == 0 : same(d.lite_.p_.data(), d.lite_.p_.size(), X.pt + 96, 32), "the key of the padding");
            irv_assert(d.lite_.ht == lnc && (!lnc || d.lite_.threshold_ == 128), "long names");
        }
        else
        {
            irv_assert(d.which == 3 && same(d.full_.m_.data(), d.full_.m_.size(), X.pt, X.ctn), "the key of the full format");
            irv_assert(d.full_.legacy_ == (X.version == 1) && d.full_.store_time_ == (X.version == 3), "what the version means");
        }
        irv_cover("opened");
    }
    else
    {
        irv_assert(!(X.verdict[0] && X.macn == 16 && !(X.version == 4 && X.ctn != 96 && X.ctn != 128)), "what was sealed is opened");
        irv_assert(!(X.ks && X.verdict[1] && X.macn == 16 && !(X.version == 4 && X.ctn != 96 && X.ctn != 128)), "what was sealed the old way is opened");
        if (X.macn == 16 && !X.verdict[0] && (!X.ks || !X.verdict[1]))
            irv_assert(e == 1, "a wrong password is reported as such");
        irv_cover("refused");
    }
}
PROOF(C13_legacy_1) { legacy(irv_split(irv_var("key file", 0, 1)), (uint32_t)irv_concretize(irv_var("version", 1, 3)), ARGON); }
PROOF(C13_legacy_4) { legacy(false, 4, ARGON); }
PROOF(C13_legacy_4_three_keys) { legacy(true, 4, ARGON, 0); }
PROOF(C13_legacy_4_four_keys) { legacy(true, 4, ARGON, 1); }
PROOF(C13_legacy_4_no_keys) { legacy(true, 4, ARGON, 2); }
PROOF(C13_legacy_kdf) { legacy(false, 2, (int)irv_concretize(irv_var("alg", 0, 4))); }
PROOF(C13_legacy_kdf_1) { legacy(true, 2, (int)irv_concretize(irv_var("alg", 0, 1))); }
PROOF(C13_legacy_kdf_2) { legacy(true, 2, (int)irv_concretize(irv_var("alg", 2, 4))); }
static uint64_t t_fed(void*, uint64_t n) { return n * 4096 <= X.ks->sz ? n * 4096 : X.ks->sz; }
static uint64_t t_got(void*, uint64_t) { return X.ks->last_rc; }
static bool p_done(void*, uint64_t n) { return X.done == (X.y < X.ks->sz && X.y < n * 4096); }
static bool p_buf(void*, uint64_t)
{
    uint64_t k = X.y - X.fed;
    return k >= X.ks->last_rc || X.ks->last_out[k] == X.ks->d[X.y];
}
PROOF(C13_keyfile)
{
    begin(true);
    X.y = irv_var("y", 0, 1ull << 43);
    irv_focus(X.y);
    X.ks->sz = irv_var("size", 0, 1ull << 43);
    X.hkn = irv_var("hkn", 0, 64);
    X.hk = (uint8_t*)irv_array("hk", X.hkn);
    irv_havoc(X.digest, 32, "digest");
    irv_track(t_fed, nullptr);
    irv_track(t_got, nullptr);
    irv_inv(p_done, nullptr);
    irv_inv(p_buf, nullptr);
    key_type r = orig_keyfile(absl::Span<const byte>(X.hk, X.hkn), *X.ks);
    irv_inv_clear();
    irv_assert(same(r.data(), 32, X.digest, 32), "the code is the result");
    irv_assert(!X.ks->writes && !X.ks->resizes, "the key file is only read");
    irv_cover("hashed");
}
#endif
