// C10, bounded part: name translation of the lite format with real cryptography, against an independent oracle.
#ifndef IRV
#define NAT_RANDOM
#include "nat_file.h"
#include "lite_format.h"
#include <cryptopp/blake2.h>
#include <uni_algo/all.h>
using namespace nat;
using namespace securefs;
namespace
{
const char A32[] = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
std::string b32(const Bytes& b)
{
    std::string o;
    for (size_t bit = 0; bit < b.size() * 8; bit += 5)
    {
        unsigned v = 0;
        for (size_t k = bit; k < bit + 5; ++k)
            v = v * 2 + (k / 8 < b.size() ? b[k / 8] >> (7 - k % 8) & 1 : 0);
        o.push_back(A32[v]);
    }
    return o;
}
struct T10
{
    key_type key;
    lite_format::NameNormalizationFlags fl{};
    std::shared_ptr<lite_format::NameTranslator> t;
    explicit T10(int kind = -1)
    {
        for (int i = 0; i < 32; ++i)
            key.data()[i] = irv_rand(256);
        if (kind < 0)
            kind = irv_var("kind", 0, 3);
        fl.no_op = kind == 3;
        fl.long_name_threshold = kind == 0 ? 0 : kind == 1 ? irv_var("threshold", 1, 40) : irv_var("threshold", 100, 200);
        static const char* sfx[] = {"", "...", ".long", "\x01suffix", ".", "l0ng0"};
        fl.long_name_suffix = sfx[irv_var("suffix", 0, 5)];
        fl.should_case_fold = irv_var("fold", 0, 3) == 0;
        fl.should_normalize_nfc = irv_var("nfc", 0, 3) == 0;
        make();
    }
    void make() { t = lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(key)); }
    Bytes siv(const std::string& s) const
    {
        AES_SIV c(key.data(), 32);
        Bytes b(16 + s.size());
        c.encrypt_and_authenticate(s.data(), s.size(), nullptr, 0, b.data() + 16, b.data());
        return b;
    }
    bool is_long(const std::string& n) const { return fl.long_name_threshold && n.size() > fl.long_name_threshold; }
    std::string suffix() const { return fl.long_name_suffix.empty() ? "..." : fl.long_name_suffix; }
    std::string norm(std::string s) const
    {
        if (fl.no_op)
            return s;
        if (fl.should_normalize_nfc)
            s = una::norm::to_nfc_utf8(s);
        if (fl.should_case_fold)
            s = una::cases::to_casefold_utf8(s);
        return s;
    }
    // one component, normalised already
    std::string component(const std::string& n) const
    {
        if (n.empty())
            return n;
        if (!is_long(n))
            return b32(siv(n));
        CryptoPP::BLAKE2b h(key.data(), 32, nullptr, 0, nullptr, 0, false, 32);
        uint8_t d[32];
        h.Update((const uint8_t*)n.data(), n.size());
        h.TruncatedFinal(d, 32);
        return b32(siv(std::string((char*)d, 32))) + suffix();
    }
    std::string full(const std::string& path) const
    {
        if (fl.no_op)
            return path.empty() || path[0] != '/' ? "./" + path : "." + path;
        if (!fl.long_name_threshold && path.empty())
            return "";
        if (!fl.long_name_threshold && path == "/")
            return ".";
        std::string p = norm(path), r;
        size_t b = 0;
        for (;;)
        {
            size_t e = p.find('/', b);
            std::string n = p.substr(b, e == std::string::npos ? e : e - b);
            r += component(n);
            if (e == std::string::npos)
                break;
            r += '/';
            b = e + 1;
        }
        if (fl.long_name_threshold)
            return "./" + r;
        return r[0] == '/' ? r.substr(1) : r;
    }
};
std::string anycomponent(unsigned lo, unsigned hi)
{
    unsigned n = irv_var("len", lo, hi);
    int style = irv_var("style", 0, 3);
    std::string s;
    for (unsigned i = 0; i < n; ++i)
    {
        char c = style == 0 ? 'a' + irv_rand(26) : style == 1 ? "aAbB."[irv_rand(5)] : 1 + irv_rand(style == 2 ? 127 : 255);
        if (style == 2 && irv_rand(6) == 0)
        {
            // letters with a canonical decomposition, composed or not
            static const char* L[] = {"\xC3\x84", "A\xCC\x88", "\xC3\xA9", "e\xCC\x81", "\xC3\x9F", "\xC3\x91", "n\xCC\x83"};
            s += L[irv_rand(7)];
            continue;
        }
        s.push_back(c == '/' ? '_' : c);
    }
    return s;
}
std::string anypath(bool absolute)
{
    std::string p;
    unsigned k = irv_var("components", 1, 5);
    for (unsigned i = 0; i < k; ++i)
    {
        if (i || absolute)
            p += '/';
        if (irv_rand(8) == 0)
            p += '/';
        p += anycomponent(1, irv_rand(4) ? 30 : 300);
    }
    if (irv_rand(10) == 0)
        p += '/';
    return p;
}
std::string last_of(const std::string& p)
{
    size_t i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}
}    // namespace
// stored paths are the translation of every component in place, deterministically, and nothing of the plain text
BOUNDED(C10_paths)
{
    zero_draws() = 0;
    T10 T;
    std::string p;
    switch (irv_var("path", 0, 7))
    {
    case 0:
        p = "/";
        break;
    case 1:
        p = "";
        break;
    case 2:
        p = anypath(false);
        break;
    default:
        p = anypath(true);
    }
    std::string want = T.full(p);
    std::string last = "unset";
    std::string got = T.t->encrypt_full_path(p, &last);
    check(got == want, "the stored path");
    check(T.t->encrypt_full_path(p, nullptr) == want, "translation is deterministic");
    std::string n = last_of(T.norm(p));
    if (!T.fl.no_op && T.is_long(n))
        check(last == b32(T.siv(n)), "the table entry of a long last name");
    else
        check(last == "unset", "no table entry for a short name");
    check(T.t->is_no_op() == T.fl.no_op, "kind of translator");
    // a second translator with the same parameters agrees
    T.make();
    check(T.t->encrypt_full_path(p, nullptr) == want, "translation depends on the parameters only");
    using lite_format::NameTranslator;
    size_t i = p.rfind('/');
    check(NameTranslator::get_last_component(p) == last_of(p), "last component");
    check(NameTranslator::remove_last_component(p) == (i == std::string::npos ? "" : p.substr(0, i + 1)), "parent");
    irv_cover("compared");
}
// names decode to what was stored; long names are recognised; what was altered is refused
BOUNDED(C10_components)
{
    zero_draws() = 0;
    T10 T(irv_var("kind", 0, 2));
    std::string n = anycomponent(1, irv_rand(4) ? 60 : 400), m = anycomponent(1, 60);
    std::string nn = T.norm(n), nm = T.norm(m);
    std::string sn = last_of(T.t->encrypt_full_path("/" + n, nullptr)), sm = last_of(T.t->encrypt_full_path("/" + m, nullptr));
    check((sn == sm) == (nn == nm), "two names share a stored name only if they are the same");
    auto r = T.t->decrypt_path_component(sn);
    if (T.is_long(nn))
    {
        check(std::holds_alternative<lite_format::LongNameTag>(r), "long names are recognised");
        std::string entry;
        T.t->encrypt_full_path("/" + n, &entry);
        auto q = T.t->decrypt_path_component(entry);
        check(std::holds_alternative<std::string>(q) && std::get<std::string>(q) == nn, "the table entry decodes to the name");
        return;
    }
    check(std::holds_alternative<std::string>(r) && std::get<std::string>(r) == nn, "a stored name decodes to the name");
    irv_cover("a short name");
    Bytes raw = T.siv(nn), alt = raw;
    switch (irv_var("alter", 0, 3))
    {
    case 0:
        alt[irv_rand(alt.size())] ^= 1 << irv_rand(8);
        break;
    case 1:
        alt.resize(irv_rand(alt.size()));
        break;
    case 2:
        alt.push_back(irv_rand(256));
        break;
    default:
    {
        // a name of another key
        T10 U(1);
        alt = U.siv(nn);
    }
    }
    auto bad = T.t->decrypt_path_component(b32(alt));
    check(std::holds_alternative<lite_format::InvalidNameTag>(bad), "a name that was altered does not decode");
    if (T.fl.long_name_threshold)
    {
        // only the end of a stored name tells a long name
        std::string mid = b32(raw) + T.suffix() + "AAAA";
        bool is_long = false;
        try
        {
            is_long = std::holds_alternative<lite_format::LongNameTag>(T.t->decrypt_path_component(mid));
        }
        catch (const std::exception&)
        {
        }
        check(!is_long, "the suffix counts only at the end");
    }
    auto other = T.t->decrypt_path_component(b32(raw));
    check(std::holds_alternative<std::string>(other), "a name is not consumed by decoding");
}
// the announced limit: every name up to it has a stored form that the storage accepts
BOUNDED(C10_name_max)
{
    zero_draws() = 0;
    T10 T;
    T.fl.should_case_fold = T.fl.should_normalize_nfc = false;
    T.make();
    unsigned phys = irv_var("stored", 150, 400), n = T.t->max_virtual_path_component_size(phys);
    check(n > 0, "some names can be stored");
    if (T.fl.long_name_threshold && T.fl.long_name_threshold > phys * 5 / 8 - 16)
        n = std::min(n, T.fl.long_name_threshold);
    std::string s(std::min(n, 1u + (unsigned)irv_rand(irv_rand(2) ? 3000 : n)), 'x');
    if (irv_rand(2) && n < 2000)
        s.assign(n, 'y');
    check(last_of(T.t->encrypt_full_path("/" + s, nullptr)).size() <= phys, "a name within the announced limit fits into the storage");
    irv_cover("limit");
}
// the names of the older format have a limit, on both ways
BOUNDED(C10_legacy_limit)
{
    zero_draws() = 0;
    T10 T(0);
    T.fl.should_case_fold = T.fl.should_normalize_nfc = false;
    T.make();
    std::string n(irv_var("length", 1980, 2060), 'a' + irv_rand(26)), s;
    int err = 0;
    try
    {
        s = T.t->encrypt_path_for_symlink(n);
        check(T.t->encrypt_full_path(n, nullptr) == s, "the same name is stored");
    }
    catch (const ExceptionBase& e)
    {
        err = e.error_number();
    }
    check(err == (n.size() > 2000 ? ENAMETOOLONG : 0), "names up to 2000 bytes are stored, longer ones refused");
    if (!err)
        check(T.t->decrypt_path_from_symlink(s) == n, "a long name round-trips");
    irv_cover("compared");
}
BOUNDED(C10_symlinks)
{
    zero_draws() = 0;
    T10 T;
    std::string p;
    switch (irv_var("target", 0, 4))
    {
    case 0:
        p = "/";
        break;
    case 1:
        p = anypath(false);
        break;
    case 2:
        for (unsigned i = irv_var("long", 1, 1500); i; --i)
            p.push_back(irv_rand(9) ? 'a' + irv_rand(26) : '/');
        break;
    default:
        p = anypath(true);
    }
    std::string s = T.t->encrypt_path_for_symlink(p);
    check(s == T.t->encrypt_path_for_symlink(p), "symlink targets are translated deterministically");
    check(T.t->decrypt_path_from_symlink(s) == p, "symlink targets round-trip");
    if (T.fl.no_op)
    {
        check(s == p, "plain targets");
        return;
    }
    std::string want;
    if (T.fl.long_name_threshold)
    {
        Bytes b = T.siv(p);
        for (size_t i = 0; i < b.size(); i += 60)
            want += "/" + b32(Bytes(b.begin() + i, b.begin() + std::min(b.size(), i + 60)));
    }
    else if (p == "/")
        want = ".";
    else
    {
        size_t b = 0;
        for (;;)
        {
            size_t e = p.find('/', b);
            std::string n = p.substr(b, e == std::string::npos ? e : e - b);
            if (!n.empty())
                want += b32(T.siv(n));
            if (e == std::string::npos)
                break;
            want += '/';
            b = e + 1;
        }
    }
    check(s == want, "the stored target");
    irv_cover("a stored target");
    if (want == ".")
        return;
    // alterations
    std::string alt = s;
    size_t at = irv_rand(alt.size());
    if (alt[at] == '/')
        return;
    if (irv_var("cut", 0, 1))
    {
        // the component is cut to less than a tag
        size_t e = alt.find('/', at), b = alt.rfind('/', at);
        b = b == std::string::npos ? 0 : b + 1;
        e = e == std::string::npos ? alt.size() : e;
        if (!T.fl.long_name_threshold || alt.size() > 97)
            alt = alt.substr(0, b) + alt.substr(b, 1 + irv_rand(24)) + alt.substr(e);
    }
    else
    {
        size_t b = alt.rfind('/', at), e = alt.find('/', at);
        b = b == std::string::npos ? 0 : b + 1;
        e = e == std::string::npos ? alt.size() : e;
        if (at + 1 == e)
            return;    // the last letter holds unused bits
        char c = A32[irv_rand(32)];
        if (c == alt[at])
            return;
        alt[at] = c;
    }
    if (alt == s)
        return;
    bool refused = false;
    try
    {
        refused = T.t->decrypt_path_from_symlink(alt).empty();
    }
    catch (const std::exception&)
    {
        refused = true;
    }
    check(refused, "an altered target is refused");
}
#endif
