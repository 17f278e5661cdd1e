prop = 'C06'
needs = 'an output longer than two hash lengths'
breaks = 'the blocks after the second one are chained to the first one'
edits = [('sources/crypto.cpp', 'calculator.Update(out + i, j);', 'calculator.Update(out, j);')]
demo = r"""
#include "demo_util.h"
int main()
{
    byte key[22], salt[13], info[10], out[96], t[32];
    memset(key, 0x0b, 22);
    for (int i = 0; i < 13; ++i) salt[i] = i;
    for (int i = 0; i < 10; ++i) info[i] = 0xf0 + i;
    hkdf(key, 22, salt, 13, info, 10, out, 96);
    byte prk[32];
    hmac_sha256_calculate(key, 22, salt, 13, prk, 32);
    for (int n = 0; n < 3; ++n)
    {
        std::vector<byte> m;
        if (n)
            m.assign(out + 32 * (n - 1), out + 32 * n);
        m.insert(m.end(), info, info + 10);
        m.push_back(n + 1);
        hmac_sha256_calculate(m.data(), m.size(), prk, 32, t, 32);
        EXPECT(memcmp(t, out + 32 * n, 32) == 0);
    }
}
"""
