prop = 'C14'
needs = 'the stored form of an empty attribute value, altered'
breaks = 'it is accepted as an empty value'
edits = [('sources/lite_format.cpp', 'if (!success && verify_)', 'if (!success && verify_ && out_size)')]
demo = r"""
#include "demo_fs.h"
int main()
{
    lite_format::XattrCryptor c(StrongType<key_type, tXattrMasterKey>(key_type(3)), StrongType<unsigned, tIvSize>(12), StrongType<bool, tVerify>(true));
    auto e = c.encrypt("", 0);
    char o[1];
    c.decrypt(e.data(), e.size(), (byte*)o, 0);
    e[3] ^= 1;
    bool refused = false;
    try { c.decrypt(e.data(), e.size(), (byte*)o, 0); } catch (const std::exception&) { refused = true; }
    EXPECT(refused);
}
"""
