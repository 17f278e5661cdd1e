prop = 'C10'
needs = 'a symbolic link target whose encrypted form is longer than one stored component'
breaks = 'the parts of a long target are cut differently when reading than when writing'
edits = [('sources/lite_format.cpp', 'buffer.data() + i, std::min(kComponentSizeInSymlink, buffer.size() - i), part);', 'buffer.data() + i, std::min(kComponentSizeInSymlink - (i > 0 ? 1 : 0), buffer.size() - i), part);')]
demo = r"""
#include "demo_fs.h"
static std::shared_ptr<lite_format::NameTranslator> tr(unsigned threshold, const char* suffix, bool legacy = false)
{
    lite_format::NameNormalizationFlags fl{};
    fl.long_name_threshold = threshold;
    fl.long_name_suffix = suffix;
    return lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(key_type(8)));
}

int main()
{
    auto t = tr(128, ".long");
    for (size_t n : {1u, 10u, 100u, 131u, 132u, 200u, 300u, 500u, 1000u})
    {
        std::string s(n, 'q');
        for (size_t i = 0; i < n; ++i)
            s[i] = i % 9 ? 'a' + i % 26 : '/';
        EXPECT(t->decrypt_path_from_symlink(t->encrypt_path_for_symlink(s)) == s);
    }
}
"""
