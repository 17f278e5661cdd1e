prop = 'C13'
needs = 'a key file of more than 4096 bytes whose length is no multiple of 4096'
breaks = 'the last part of the key file does not count, so a key file that differs there opens the volume'
edits = [('sources/params_io.cpp', '            if (sz <= 0)\n            {\n                break;', '            if (sz < buffer.size() && off > 0)\n            {\n                break;')]
demo = r"""
#include "demo_util.h"
#include <cryptopp/pwdbased.h>
#include <cryptopp/sha.h>
#include <cryptopp/gcm.h>
#include <cryptopp/aes.h>

#include "params_io.h"
#include "params.pb.h"
typedef absl::Span<const byte> Sp;
static Sp sp(const std::string& s) { return Sp((const byte*)s.data(), s.size()); }
static std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        char b[3];
        snprintf(b, 3, "%02x", c);
        r += b;
    }
    return r;
}
// an older volume file, sealed by the library directly
static LegacySecurefsJsonParams legacy(unsigned version, const std::string& master, const std::string& pw, const std::string& keyfile)
{
    LegacySecurefsJsonParams l;
    l.set_version(version);
    std::string salt(32, 's'), iv(12, 'i'), ct(master.size(), 0), tag(16, 0), head = version == 4 ? "version=4" : "version=1";
    l.set_salt(hex(salt));
    l.set_iterations(3);
    byte k[32];
    CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA256>().DeriveKey(k, 32, 0, (const byte*)pw.data(), pw.size(), (const byte*)salt.data(), salt.size(), 3);
    if (keyfile.size())
    {
        byte m[32];
        hmac_sha256_calculate(keyfile.data(), keyfile.size(), k, 32, m, 32);
        memcpy(k, m, 32);
    }
    CryptoPP::GCM<CryptoPP::AES>::Encryption e;
    e.SetKeyWithIV(k, 32, (const byte*)iv.data(), iv.size());
    e.EncryptAndAuthenticate((byte*)&ct[0], (byte*)&tag[0], 16, (const byte*)iv.data(), iv.size(), (const byte*)head.data(), head.size(), (const byte*)master.data(), master.size());
    l.mutable_encrypted_key()->set_iv(hex(iv));
    l.mutable_encrypted_key()->set_mac(hex(tag));
    l.mutable_encrypted_key()->set_ciphertext(hex(ct));
    return l;
}
static std::string bytes(size_t n)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i)
        s[i] = i * 37 + i / 32;
    return s;
}

int main()
{
    DecryptedSecurefsParams p;
    p.mutable_full_format_params()->set_master_key(bytes(32));
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(1);
    a.set_memory_cost(16);
    a.set_parallelism(1);
    Mem k1, k2;
    std::string f = bytes(5000), g = f;
    g[4500] ^= 1;
    k1.write(f.data(), 0, f.size());
    k2.write(g.data(), 0, g.size());
    auto e = encrypt(p, a, sp("pw"), &k1);
    EXPECT(decrypt(e, sp("pw"), &k1).full_format_params().master_key() == bytes(32));
    bool refused = false;
    try { decrypt(e, sp("pw"), &k2); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
