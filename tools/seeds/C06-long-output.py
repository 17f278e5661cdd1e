prop = 'C06'
needs = 'an output of more than 255 hash lengths'
breaks = 'an output longer than the standard allows is given instead of refused, repeating its blocks'
edits = [('sources/crypto.cpp', 'if (out_len > 255 * hmac_type::DIGESTSIZE)', 'if (out_len > 256 * hmac_type::DIGESTSIZE)')]
demo = r"""
#include "demo_util.h"
int main()
{
    std::vector<byte> o(256 * 32);
    byte key[32] = {1};
    hkdf(key, 32, nullptr, 0, "x", 1, o.data(), 255 * 32);
    bool refused = false;
    try { hkdf(key, 32, nullptr, 0, "x", 1, o.data(), 255 * 32 + 1); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
