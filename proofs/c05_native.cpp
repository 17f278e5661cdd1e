// C05, bounded part: the real AES-SIV against an independent RFC 5297 on the block cipher.
#ifndef IRV
#include "nat.h"
#include <cryptopp/aes.h>
#include <cryptopp/modes.h>
using namespace nat;
using namespace securefs;
// RFC 5297 / RFC 4493 on the AES block cipher
struct Blk
{
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption e;
    Blk(const byte* k, size_t n) : e(k, n) {}
    Bytes operator()(const Bytes& b)
    {
        Bytes r(16);
        e.ProcessData(r.data(), b.data(), 16);
        return r;
    }
};
static Bytes dbl(Bytes b)
{
    int c = 0;
    for (int i = 15; i >= 0; --i)
    {
        int v = b[i] << 1 | c;
        c = v >> 8;
        b[i] = v;
    }
    if (c)
        b[15] ^= 0x87;
    return b;
}
static Bytes cmac(Blk& E, Bytes m)
{
    Bytes k1 = dbl(E(Bytes(16))), k2 = dbl(k1), x(16);
    bool full = !m.empty() && m.size() % 16 == 0;
    if (!full)
    {
        m.push_back(0x80);
        while (m.size() % 16)
            m.push_back(0);
    }
    for (size_t i = 0; i < m.size(); i += 16)
    {
        for (int j = 0; j < 16; ++j)
            x[j] ^= m[i + j] ^ (i + 16 == m.size() ? (full ? k1 : k2)[j] : 0);
        x = E(x);
    }
    return x;
}
static void siv(const Bytes& key, const Bytes& aad, const Bytes& t, Bytes& iv, Bytes& ct)
{
    Blk K1(key.data(), key.size() / 2), K2(key.data() + key.size() / 2, key.size() / 2);
    Bytes D = cmac(K1, Bytes(16));
    if (!aad.empty())
    {
        D = dbl(D);
        Bytes a = cmac(K1, aad);
        for (int i = 0; i < 16; ++i)
            D[i] ^= a[i];
    }
    Bytes T = t;
    if (t.size() >= 16)
        for (int i = 0; i < 16; ++i)
            T[t.size() - 16 + i] ^= D[i];
    else
    {
        T.push_back(0x80);
        T.resize(16);
        D = dbl(D);
        for (int i = 0; i < 16; ++i)
            T[i] ^= D[i];
    }
    iv = cmac(K1, T);
    Bytes q = iv;
    q[8] &= 0x7f;
    q[12] &= 0x7f;
    ct = t;
    for (size_t i = 0; i < ct.size(); i += 16)
    {
        Bytes s = K2(q);
        for (size_t j = i; j < ct.size() && j < i + 16; ++j)
            ct[j] ^= s[j - i];
        for (int j = 15; j >= 0 && !++q[j]; --j)
            ;
    }
}
BOUNDED(C05_rfc5297)
{
    Bytes key = bytes(irv_var("keysize", 0, 1) ? 64 : 32), aad = bytes(irv_var("aad", 0, 3) ? irv_var("aadlen", 0, 70) : 0);
    Bytes t = bytes(irv_var("n", 0, irv_var("long", 0, 9) ? 70 : 5000));
    AES_SIV s(key.data(), key.size());
    int rounds = irv_var("rounds", 1, 3);
    while (rounds--)
    {
        Bytes iv, ct, out(t.size() + 8, 0xA5), giv(16), dec(t.size() + 8, 0xA5);
        siv(key, aad, t, iv, ct);
        bool place = irv_rand(2);
        if (place)
            std::copy(t.begin(), t.end(), out.begin());
        const void* ap = aad.empty() && irv_rand(2) ? nullptr : aad.data();
        s.encrypt_and_authenticate(place ? out.data() : t.data(), t.size(), ap, aad.size(), out.data(), giv.data());
        check(giv == iv, "the synthetic IV is that of RFC 5297");
        check(Bytes(out.begin(), out.end() - 8) == ct, "the ciphertext is that of RFC 5297");
        check(std::count(out.end() - 8, out.end(), 0xA5) == 8, "no byte past the text is written");
        if (irv_rand(2))
            std::copy(ct.begin(), ct.end(), dec.begin()), place = true;
        else
            place = false;
        check(s.decrypt_and_verify(place ? dec.data() : ct.data(), ct.size(), ap, aad.size(), dec.data(), iv.data()),
              "what was encrypted is accepted");
        check(Bytes(dec.begin(), dec.end() - 8) == t, "decryption inverts encryption");
        check(std::count(dec.end() - 8, dec.end(), 0xA5) == 8, "no byte past the text is written");
        // any alteration
        Bytes c2 = ct, a2 = aad, i2 = iv;
        int what = irv_rand(6);
        if (what == 0)
            i2[irv_rand(16)] ^= 1 << irv_rand(8);
        else if (what == 1 && !c2.empty())
            c2[irv_rand(c2.size())] ^= 1 << irv_rand(8);
        else if (what == 2 && !a2.empty())
            a2[irv_rand(a2.size())] ^= 1 << irv_rand(8);
        else if (what == 3 && !c2.empty())
            c2.pop_back();
        else if (what == 4)
            c2.push_back(irv_rand(256));
        else
            a2.push_back(irv_rand(256));
        Bytes d2(c2.size() + 1);
        if (c2 != ct || a2 != aad || i2 != iv)
            check(!s.decrypt_and_verify(c2.data(), c2.size(), a2.data(), a2.size(), d2.data(), i2.data()),
                  "an altered tag, ciphertext or associated data is refused");
        t.push_back(irv_rand(256));
    }
    irv_cover("siv");
}
#endif
