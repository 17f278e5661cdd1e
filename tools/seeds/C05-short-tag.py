prop = 'C05'
needs = 'a tag altered in its last bytes'
breaks = 'only a part of the tag is compared when decrypting'
edits = [('sources/crypto.cpp', 'static_cast<const byte*>(siv), temp_iv, AES_SIV::IV_SIZE);', 'static_cast<const byte*>(siv), temp_iv, AES_SIV::IV_SIZE - 4);')]
demo = r"""
#include "demo_util.h"
int main()
{
    key_type k(9);
    AES_SIV s(k.data(), 32);
    byte p[40] = {7}, c[40], o[40], v[16];
    s.encrypt_and_authenticate(p, 40, "ad", 2, c, v);
    for (int i = 0; i < 16; ++i)
    {
        byte w[16];
        memcpy(w, v, 16);
        w[i] ^= 0x80;
        if (i == 8 || i == 12)
            w[i] = v[i] ^ 0x80;    // the bits cleared for the counter: the text stays, the tag must still be refused
        EXPECT(!s.decrypt_and_verify(c, 40, "ad", 2, o, w));
    }
    EXPECT(s.decrypt_and_verify(c, 40, "ad", 2, o, v));
}
"""
