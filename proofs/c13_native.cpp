// C13, bounded part: parameters sealed by this code and by an independent implementation of both formats (AES-GCM,
// argon2id, scrypt, PBKDF2 and HMAC of the libraries called directly), opened with the right and with wrong secrets.
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
#include "params_io.h"
#include <argon2.h>
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/pwdbased.h>
#include <cryptopp/scrypt.h>
#include <cryptopp/sha.h>
#include <google/protobuf/util/json_util.h>
using namespace nat;
using namespace securefs;
namespace
{
typedef absl::Span<const unsigned char> Sp;
Sp sp(const Bytes& b) { return Sp(b.data(), b.size()); }
std::string st(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes by(const std::string& s) { return Bytes(s.begin(), s.end()); }
Bytes bs(uint64_t n)
{
    Bytes r(n);
    for (auto& b : r)
        b = irv_rand(256);
    return r;
}
std::string hex(const Bytes& b)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (auto c : b)
        for (int k : {c >> 4, c & 15})
            r += d[k];
    return r;
}
Bytes mac(const Bytes& key, const Bytes& data)
{
    CryptoPP::HMAC<CryptoPP::SHA256> h(key.data(), key.size());
    Bytes r(32);
    h.CalculateDigest(r.data(), data.data(), data.size());
    return r;
}
struct Costs
{
    unsigned t, m, p, r;
};
Bytes derive(int alg, const Bytes& pw, const Bytes& salt, const Costs& c)
{
    Bytes r(32);
    if (alg == 3)
        check(argon2id_hash_raw(c.t, c.m, c.p, pw.data(), pw.size(), salt.data(), salt.size(), r.data(), 32) == 0, "harness: argon2");
    else if (alg == 2)
        CryptoPP::Scrypt().DeriveKey(r.data(), 32, pw.data(), pw.size(), salt.data(), salt.size(), c.t, c.r, c.p);
    else
        CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA256>().DeriveKey(r.data(), 32, 0, pw.data(), pw.size(), salt.data(), salt.size(), c.t);
    return r;
}
void seal(const Bytes& key, const Bytes& iv, const std::string& aad, const Bytes& text, Bytes& ct, Bytes& tag)
{
    ct.resize(text.size());
    tag.resize(16);
    CryptoPP::GCM<CryptoPP::AES>::Encryption e;
    e.SetKeyWithIV(key.data(), key.size(), iv.data(), iv.size());
    e.EncryptAndAuthenticate(ct.data(), tag.data(), 16, iv.data(), iv.size(), (const CryptoPP::byte*)aad.data(), aad.size(), text.data(), text.size());
}
bool unseal(const Bytes& key, const Bytes& iv, const std::string& aad, const Bytes& ct, const Bytes& tag, Bytes& text)
{
    if (tag.size() != 16)
        return false;
    text.resize(ct.size());
    CryptoPP::GCM<CryptoPP::AES>::Decryption e;
    e.SetKeyWithIV(key.data(), key.size(), iv.data(), iv.size());
    return e.DecryptAndVerify(text.data(), tag.data(), 16, iv.data(), iv.size(), (const CryptoPP::byte*)aad.data(), aad.size(), ct.data(), ct.size());
}
// a key file that is read through the stream interface
struct Key
{
    bool has = false;
    Bytes d;
    MemStream* s()
    {
        if (!has)
            return nullptr;
        m.pages.clear();
        m.sz = 0;
        m.write(d.data(), 0, d.size());
        return &m;
    }
    MemStream m;
};
uint64_t keysize()
{
    switch (irv_rand(6))
    {
    case 0:
        return irv_rand(3);
    case 1:
        return 4095 + irv_rand(3);
    case 2:
        return 8191 + irv_rand(3);
    case 3:
        return 4096 * irv_rand(5);
    }
    return irv_rand(10000);
}
void secrets(Bytes& pw, Key& k)
{
    pw = bs(irv_rand(8) ? irv_rand(40) : irv_rand(3000));
    k.has = irv_rand(2);
    k.d = bs(keysize());
}
// changes one of the secrets
void spoil(Bytes& pw, Key& k)
{
    int what = irv_rand(k.has ? 6 : 4);
    switch (what)
    {
    case 0:
        // PBKDF2 (of HMAC) does not tell apart passwords that differ in trailing zero bytes
        pw.push_back(1 + irv_rand(255));
        break;
    case 1:
        if (!pw.empty() && pw.back())
            pw.pop_back();
        else
            pw.push_back(1);
        break;
    case 2:
        if (!pw.empty())
            pw[irv_rand(pw.size())] ^= 1 << irv_rand(8);
        else
            pw.push_back(1);
        break;
    case 3:
        k.has = !k.has;
        break;
    case 4:
        if (!k.d.empty())
            k.d[irv_rand(3) ? irv_rand(k.d.size()) : k.d.size() - 1] ^= 1 << irv_rand(8);
        else
            k.d.push_back(0);
        break;
    default:
        if (!k.d.empty() && irv_rand(2))
            k.d.pop_back();
        else
            k.d.push_back(irv_rand(2) * irv_rand(256));
    }
}
void damage(std::string& s)
{
    switch (s.empty() ? 2 : irv_rand(4))
    {
    case 0:
        s[irv_rand(s.size())] ^= 1 << irv_rand(8);
        break;
    case 1:
        s.resize(irv_rand(s.size()));
        break;
    case 2:
        s += (char)irv_rand(256);
        break;
    case 3:
        s.erase(0, 1);
    }
}
template <class F>
int outcome(F f, DecryptedSecurefsParams& out)
{
    try
    {
        out = f();
        return 0;
    }
    catch (const PasswordOrKeyfileIncorrectException&)
    {
        return 1;
    }
    catch (const std::exception&)
    {
        return 2;
    }
}
DecryptedSecurefsParams params()
{
    DecryptedSecurefsParams d;
    if (irv_rand(8))
    {
        d.mutable_size_params()->set_block_size(irv_rand(1 << 20));
        d.mutable_size_params()->set_iv_size(irv_rand(33));
        d.mutable_size_params()->set_max_padding_size(irv_rand(5000));
    }
    if (irv_rand(2))
    {
        auto* l = d.mutable_lite_format_params();
        l->set_name_key(st(bs(32)));
        l->set_content_key(st(bs(32)));
        l->set_xattr_key(st(bs(32)));
        if (irv_rand(2))
            l->set_padding_key(st(bs(32)));
        if (irv_rand(2))
            l->set_long_name_threshold(irv_rand(256));
        if (irv_rand(2))
            l->set_long_name_suffix(".x");
    }
    else
    {
        auto* f = d.mutable_full_format_params();
        f->set_master_key(st(bs(irv_rand(3) ? 32 : irv_rand(200))));
        f->set_store_time(irv_rand(2));
        f->set_legacy_file_table_io(irv_rand(2));
        f->set_case_insensitive(irv_rand(2));
        f->set_unicode_normalization_agnostic(irv_rand(2));
    }
    return d;
}
bool equal(const DecryptedSecurefsParams& a, const DecryptedSecurefsParams& b) { return a.SerializeAsString() == b.SerializeAsString(); }
}    // namespace
BOUNDED(C13_new)
{
    given().clear();
    Bytes pw;
    Key k;
    secrets(pw, k);
    auto d = params();
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(1 + irv_rand(2));
    a.set_parallelism(1 + irv_rand(3));
    a.set_memory_cost(8 * a.parallelism() + irv_rand(20));
    EncryptedSecurefsParams e;
    bool ours = irv_rand(3);
    Costs c{a.time_cost(), a.memory_cost(), a.parallelism(), 0};
    if (ours)
    {
        e = encrypt(d, a, sp(pw), k.s());
        check(e.iv().size() >= 12 && e.salt().size() >= 16 && e.mac().size() == 16, "a nonce, a salt and a whole tag are stored");
        Bytes all;
        bool iv = false, salt = false;
        for (auto& g : given())
        {
            iv |= st(g.b) == e.iv();
            salt |= st(g.b) == e.salt();
        }
        check(iv && salt, "nonce and salt are drawn afresh");
        Bytes text, sl = by(e.salt());
        Bytes key = derive(3, pw, k.has ? mac(sl, k.d) : sl, {e.argon2id_params().time_cost(), e.argon2id_params().memory_cost(), e.argon2id_params().parallelism(), 0});
        check(unseal(key, by(e.iv()), "", by(e.ciphertext()), by(e.mac()), text), "sealed under the key that is derived from the secrets");
        check(st(text) == d.SerializeAsString(), "the parameters are sealed");
        check(e.argon2id_params().SerializeAsString() == a.SerializeAsString(), "the costs are stored");
    }
    else
    {
        Bytes salt = bs(32), iv = bs(12), ct, tag;
        seal(derive(3, pw, k.has ? mac(salt, k.d) : salt, c), iv, "", by(d.SerializeAsString()), ct, tag);
        e.set_salt(st(salt));
        e.set_iv(st(iv));
        e.set_mac(st(tag));
        e.set_ciphertext(st(ct));
        *e.mutable_argon2id_params() = a;
    }
    DecryptedSecurefsParams out;
    bool text = irv_rand(2);
    auto open = [&] { return text ? decrypt(e.SerializeAsString(), sp(pw), k.s()) : decrypt(e, sp(pw), k.s()); };
    check(outcome(open, out) == 0, "the right secrets open it");
    check(equal(out, d), "the parameters come back");
    if (irv_rand(2))
    {
        spoil(pw, k);
        check(outcome(open, out) == 1, "wrong secrets are refused, and reported as such");
        return;
    }
    text = false;
    switch (irv_rand(7))
    {
    case 0:
        damage(*e.mutable_salt());
        break;
    case 1:
        damage(*e.mutable_iv());
        break;
    case 2:
    case 3:
        damage(*e.mutable_mac());
        break;
    case 4:
        damage(*e.mutable_ciphertext());
        break;
    case 5:
        e.mutable_argon2id_params()->set_time_cost(c.t + 1);
        break;
    default:
        e.mutable_argon2id_params()->set_memory_cost(c.m + 1);
    }
    check(outcome(open, out) != 0, "an altered file is refused");
    irv_cover("compared");
}
BOUNDED(C13_old)
{
    Bytes pw;
    Key k;
    secrets(pw, k);
    LegacySecurefsJsonParams l;
    unsigned version = 1 + irv_rand(4);
    l.set_version(version);
    int alg = irv_rand(4);
    const char* names[] = {"pkcs5-pbkdf2-hmac-sha256", "", "scrypt", "argon2id"};
    l.set_pbkdf(names[alg]);
    Costs c;
    c.t = alg == 3 ? 1 + irv_rand(2) : alg == 2 ? 2 << irv_rand(4) : 1 + irv_rand(20);
    c.p = 1 + irv_rand(2);
    c.r = 1 + irv_rand(4);
    c.m = 8 * c.p + irv_rand(20);
    l.set_iterations(c.t);
    if (alg == 2)
    {
        l.set_scrypt_r(c.r);
        l.set_scrypt_p(c.p);
    }
    if (alg == 3)
    {
        l.set_argon2_m_cost(c.m);
        l.set_argon2_p(c.p);
    }
    Bytes salt = bs(32), iv = bs(irv_rand(2) ? 12 : 32), ct, tag;
    Bytes keys = bs(version == 4 ? (irv_rand(2) ? 96 : 128) : 32);
    bool second = k.has && irv_rand(2);
    Bytes wrap = !k.has ? derive(alg, pw, salt, c) : second ? mac(derive(alg, pw, salt, c), k.d) : derive(alg, pw, mac(salt, k.d), c);
    seal(wrap, iv, version == 4 ? "version=4" : "version=1", keys, ct, tag);
    l.set_salt(hex(salt));
    l.mutable_encrypted_key()->set_iv(hex(iv));
    l.mutable_encrypted_key()->set_mac(hex(tag));
    l.mutable_encrypted_key()->set_ciphertext(hex(ct));
    unsigned b = 4096, ivs = 32, pad = irv_rand(2) * irv_rand(9000);
    if (irv_rand(2))
        l.set_block_size(b = irv_rand(1 << 20));
    if (irv_rand(2))
        l.set_iv_size(ivs = irv_rand(33));
    if (pad)
        l.set_max_padding(pad);
    bool lnc = irv_rand(2);
    if (lnc)
        l.set_long_name_component(true);
    DecryptedSecurefsParams out;
    bool text = irv_rand(3);
    std::string js;
    auto open = [&]
    {
        if (!text)
            return decrypt(l, sp(pw), k.s());
        js.clear();
        check(google::protobuf::util::MessageToJsonString(l, &js).ok(), "harness: json");
        return decrypt(js, sp(pw), k.s());
    };
    check(outcome(open, out) == 0, "the right secrets open an old file");
    DecryptedSecurefsParams want;
    want.mutable_size_params()->set_block_size(b);
    want.mutable_size_params()->set_iv_size(ivs);
    want.mutable_size_params()->set_max_padding_size(pad);
    auto part = [&](int i) { return st(Bytes(keys.begin() + 32 * i, keys.begin() + 32 * i + 32)); };
    if (version == 4)
    {
        auto* p = want.mutable_lite_format_params();
        p->set_name_key(part(0));
        p->set_content_key(part(1));
        p->set_xattr_key(part(2));
        if (keys.size() == 128)
            p->set_padding_key(part(3));
        if (lnc)
            p->set_long_name_threshold(128);
    }
    else
    {
        want.mutable_full_format_params()->set_master_key(part(0));
        want.mutable_full_format_params()->set_legacy_file_table_io(version == 1);
        want.mutable_full_format_params()->set_store_time(version == 3);
    }
    check(equal(out, want), "the parameters of an old file");
    if (irv_rand(2))
    {
        spoil(pw, k);
        check(outcome(open, out) == 1, "wrong secrets are refused, and reported as such");
        return;
    }
    auto again = [&](Bytes v, bool sizes)
    {
        std::string s = st(v);
        if (sizes || irv_rand(2))
            damage(s);
        else if (!s.empty())
            s[irv_rand(s.size())] ^= 1 << irv_rand(8);
        return hex(by(s));
    };
    switch (irv_rand(6))
    {
    case 0:
        l.set_salt(again(salt, true));
        break;
    case 1:
        l.mutable_encrypted_key()->set_iv(again(iv, true));
        break;
    case 2:
        l.mutable_encrypted_key()->set_mac(again(tag, true));
        break;
    case 3:
        l.mutable_encrypted_key()->set_ciphertext(again(ct, true));
        break;
    case 4:
        l.set_iterations(alg == 2 ? c.t * 2 : c.t + 1);
        break;
    default:
        l.set_version(version == 4 ? 1 + irv_rand(3) : 4);
    }
    check(outcome(open, out) != 0, "an altered old file is refused");
    irv_cover("compared");
}
#endif
