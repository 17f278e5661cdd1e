// C06, bounded part: hkdf against RFC 5869 written on SHA-256 alone.
#ifndef IRV
#include "nat.h"
#include <cryptopp/sha.h>
using namespace nat;
using namespace securefs;
static Bytes sha(const Bytes& m)
{
    Bytes r(32);
    CryptoPP::SHA256 h;
    h.CalculateDigest(r.data(), m.data(), m.size());
    return r;
}
static Bytes operator+(Bytes a, const Bytes& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
static Bytes hmac(Bytes k, const Bytes& m)
{
    if (k.size() > 64)
        k = sha(k);
    k.resize(64);
    Bytes i = k, o = k;
    for (int j = 0; j < 64; ++j)
        i[j] ^= 0x36, o[j] ^= 0x5c;
    return sha(o + sha(i + m));
}
BOUNDED(C06_rfc5869)
{
    Bytes key = bytes(irv_var("key", 0, 100)), salt = bytes(irv_var("s", 0, 3) ? irv_var("salt", 1, 90) : 0),
          info = bytes(irv_var("info", 0, 80));
    uint64_t n = irv_var("n", 0, irv_var("long", 0, 3) ? 200 : 8160);
    if (irv_var("over", 0, 15) == 0)
        n = irv_var("n2", 8150, 8200);
    if (irv_var("edge", 0, 3) == 0)
        n = n / 32 * 32;
    Bytes out(n + 8, 0xA5);
    bool thrown = false;
    try
    {
        hkdf(key.data(), key.size(), salt.empty() && irv_rand(2) ? nullptr : salt.data(), salt.size(), info.data(),
             info.size(), out.data(), n);
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    check(thrown == (n > 8160), "refused exactly when the standard does not allow the length");
    if (thrown)
        return;
    Bytes prk = salt.empty() ? key : hmac(salt, key), t, want;
    for (int c = 1; want.size() < n; ++c)
    {
        t = hmac(prk, t + info + Bytes{(unsigned char)c});
        want = want + t;
    }
    want.resize(n);
    check(Bytes(out.begin(), out.begin() + n) == want, "the output is that of RFC 5869");
    check(std::count(out.end() - 8, out.end(), 0xA5) == 8, "no byte past the output is written");
    // HMAC itself, full and truncated, and its verification
    Bytes m = hmac(key, info), g(32);
    hmac_sha256_calculate(info.data(), info.size(), key.data(), key.size(), g.data(), 32);
    check(g == m, "HMAC-SHA256");
    check(hmac_sha256_verify(info.data(), info.size(), key.data(), key.size(), m.data(), 32), "a right MAC is accepted");
    m[irv_rand(32)] ^= 1 << irv_rand(8);
    check(!hmac_sha256_verify(info.data(), info.size(), key.data(), key.size(), m.data(), 32), "a wrong MAC is refused");
    irv_cover("hkdf");
}
#endif
