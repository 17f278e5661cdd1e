prop = "C02"
needs = "a file of more than 65536 blocks and a stored block moved by a multiple of 65536 positions"
breaks = "the block number in the associated data is cut to 16 bits on both sides, so a moved block is accepted"
edits = [("sources/lite_stream.cpp", "static_cast<std::uint32_t>(i / get_underlying_block_size() + start_block),\n                m_auxiliary", "static_cast<std::uint32_t>(static_cast<std::uint16_t>(i / get_underlying_block_size() + start_block)),\n                m_auxiliary"),
         ("sources/lite_stream.cpp", "static_cast<uint32_t>(start_block + i / get_underlying_block_size())", "static_cast<uint32_t>(static_cast<uint16_t>(start_block + i / get_underlying_block_size()))")]
demo = r'''
#include "demo_util.h"
#include "lite_stream.h"
int main()
{
    auto u = std::make_shared<Mem>();
    key_type k(7);
    lite::AESGCMCryptStream s(u, k, 64, 12);
    std::vector<byte> a(64, 1), b(64, 2), o(64);
    s.write(a.data(), 64 * 5, 64);
    s.write(b.data(), 64 * (65536ull + 5), 64);
    std::vector<byte> x(92);
    u->read(x.data(), 16 + 92 * (65536ull + 5), 92);
    u->write(x.data(), 16 + 92 * 5, 92);
    bool thrown = false;
    try
    {
        s.read(o.data(), 64 * 5, 64);
    }
    catch (const LiteMessageVerificationException&)
    {
        thrown = true;
    }
    EXPECT(thrown);
}
'''
