prop = "C01"
needs = "a read that starts past the end of the stream but inside its last, partial block, at an unaligned offset"
breaks = "the read reports bytes and copies bytes that are not in the stream"
edits = [("sources/streams.cpp", "if (read_len <= start_residue)", "if (read_len == 0)")]
srcs = "streams.cpp crypto.cpp exceptions.cpp mystring.cpp logger.cpp lite_stream.cpp"
srcs = "ALL"
demo = r'''
#include "demo_util.h"
#include "lite_stream.h"
int main()
{
    auto u = std::make_shared<Mem>();
    key_type k(7);
    lite::AESGCMCryptStream s(u, k, 64, 12);
    s.write("0123456789", 0, 10);
    std::vector<byte> b(64, 0xAA);
    EXPECT(s.read(b.data(), 10, 5) == 0);
    EXPECT(s.read(b.data(), 20, 5) == 0);
    EXPECT(b[0] == 0xAA);
}
'''
