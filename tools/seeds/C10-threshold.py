prop = 'C10'
needs = 'a name of exactly the threshold length'
breaks = 'a name at the threshold is hashed although no table entry is kept for it'
edits = [('sources/lite_format.cpp', 'if (view.size() <= threshold_)', 'if (view.size() < threshold_)')]
demo = r"""
#include "demo_fs.h"
static std::shared_ptr<lite_format::NameTranslator> tr(unsigned threshold, const char* suffix, bool legacy = false)
{
    lite_format::NameNormalizationFlags fl{};
    fl.long_name_threshold = threshold;
    fl.long_name_suffix = suffix;
    return lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(key_type(8)));
}

int main(int, char** v)
{
    std::string d = v[1];
    ::mkdir((d + "/root").c_str(), 0755);
    Lite l(d + "/root");
    l.threshold = 20;
    l.suffix = ".long";
    l.start();
    std::string n(20, 'x');
    EXPECT(l.put("/" + n, "data") == 0);
    auto names = l.ls("/");
    EXPECT(names.names.size() == 1 && *names.names.begin() == n);
    EXPECT(l.get("/" + n) == "data");
}
"""
