prop = 'C05'
needs = 'a message of at least two blocks and a synthetic iv whose bit 63 is set'
breaks = 'the counter block is not masked on one side, so the text no longer decrypts'
edits = [('sources/crypto.cpp', 'modded_iv[12] &= 0x7fu;', 'modded_iv[12] &= 0xffu;')]
demo = r"""
#include "demo_util.h"
int main()
{
    key_type k(9);
    AES_SIV s(k.data(), 32);
    for (int i = 0; i < 64; ++i)
    {
        byte p[40], c[40], o[40], v[16];
        for (int j = 0; j < 40; ++j)
            p[j] = i + j;
        s.encrypt_and_authenticate(p, 40, nullptr, 0, c, v);
        // RFC 5297: CTR under the second half of the key, bits 31 and 63 of the counter cleared
        byte iv[16];
        memcpy(iv, v, 16);
        iv[8] &= 0x7f;
        iv[12] &= 0x7f;
        CryptoPP::CTR_Mode<CryptoPP::AES>::Encryption e;
        e.SetKeyWithIV(k.data() + 16, 16, iv, 16);
        e.ProcessData(o, p, 40);
        EXPECT(memcmp(o, c, 40) == 0);
        EXPECT(s.decrypt_and_verify(c, 40, nullptr, 0, o, v));
        EXPECT(memcmp(o, p, 40) == 0);
    }
}
"""
