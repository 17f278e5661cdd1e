prop = "C02"
needs = "a write at a block whose stored offset is beyond 4 GiB"
breaks = "the stored offset of written blocks is computed in 32 bits, so the data lands on other blocks"
edits = [("sources/lite_stream.cpp", "                    start_block * get_underlying_block_size() + get_header_size(),", "                    static_cast<unsigned>(start_block) * static_cast<unsigned>(get_underlying_block_size())\n                        + get_header_size(),")]
demo = r'''
#include "demo_util.h"
#include "lite_stream.h"
int main()
{
    auto u = std::make_shared<Mem>();
    key_type k(7);
    lite::AESGCMCryptStream s(u, k, 4096, 12);
    std::vector<byte> a(4096, 1), o(4096);
    uint64_t off = 4096ull * (1ull << 21);
    s.write(a.data(), off, a.size());
    EXPECT(s.size() == off + 4096);
    EXPECT(s.read(o.data(), off, 4096) == 4096);
    EXPECT(o == a);
}
'''
