prop = "C01"
needs = "a write past the end whose gap to the old end is shorter than a block but which starts in a later block"
breaks = "the gap is not filled: a short block stays in the middle of the stream and the bytes after it move"
edits = [("sources/streams.cpp", "if (offset > current_size)\n", "if (offset >= current_size + m_block_size)\n")]
demo = r'''
#include "demo_util.h"
#include "lite_stream.h"
int main()
{
    auto u = std::make_shared<Mem>();
    key_type k(7);
    lite::AESGCMCryptStream s(u, k, 64, 12);
    s.write("0123456789", 0, 10);
    s.write("abc", 64, 3);
    EXPECT(s.size() == 67);
    std::vector<byte> b(67, 0xAA);
    EXPECT(s.read(b.data(), 0, 67) == 67);
    EXPECT(memcmp(b.data(), "0123456789", 10) == 0 && memcmp(b.data() + 64, "abc", 3) == 0);
    for (int i = 10; i < 64; ++i)
        EXPECT(b[i] == 0);
}
'''
