// Stand-in for the uni-algo dependency, which is not installed in this sandbox.
// It implements the entry points securefs calls over ASCII plus the Latin-1 letters
// (U+00C0..U+00FF and their canonical decompositions); every other code point is left as it is.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace una
{
namespace shim
{
    inline std::vector<uint32_t> decode(std::string_view s)
    {
        std::vector<uint32_t> out;
        for (size_t i = 0; i < s.size();)
        {
            unsigned char c = s[i];
            int n = c < 0x80 ? 1 : (c >= 0xC2 && c < 0xE0) ? 2 : (c >= 0xE0 && c < 0xF0) ? 3 : (c >= 0xF0 && c < 0xF5) ? 4 : 0;
            bool ok = n > 0 && i + n <= s.size();
            uint32_t cp = n == 1 ? c : n == 2 ? (c & 0x1F) : n == 3 ? (c & 0x0F) : (c & 0x07);
            for (int k = 1; ok && k < n; ++k)
            {
                unsigned char d = s[i + k];
                if ((d & 0xC0) != 0x80)
                    ok = false;
                cp = (cp << 6) | (d & 0x3F);
            }
            if (!ok)
            {
                out.push_back(0xFFFD);
                ++i;
                continue;
            }
            out.push_back(cp);
            i += n;
        }
        return out;
    }
    inline void put(std::string& o, uint32_t cp)
    {
        if (cp < 0x80)
            o.push_back(char(cp));
        else if (cp < 0x800)
        {
            o.push_back(char(0xC0 | (cp >> 6)));
            o.push_back(char(0x80 | (cp & 0x3F)));
        }
        else if (cp < 0x10000)
        {
            o.push_back(char(0xE0 | (cp >> 12)));
            o.push_back(char(0x80 | ((cp >> 6) & 0x3F)));
            o.push_back(char(0x80 | (cp & 0x3F)));
        }
        else
        {
            o.push_back(char(0xF0 | (cp >> 18)));
            o.push_back(char(0x80 | ((cp >> 12) & 0x3F)));
            o.push_back(char(0x80 | ((cp >> 6) & 0x3F)));
            o.push_back(char(0x80 | (cp & 0x3F)));
        }
    }
    inline std::string encode(const std::vector<uint32_t>& v)
    {
        std::string o;
        for (auto c : v)
            put(o, c);
        return o;
    }
    struct Decomp
    {
        uint32_t composed, base, mark;
    };
    inline const Decomp* table(size_t* n)
    {
        static const Decomp t[]
            = {{0xC0, 'A', 0x300}, {0xC1, 'A', 0x301}, {0xC2, 'A', 0x302}, {0xC3, 'A', 0x303}, {0xC4, 'A', 0x308},
               {0xC5, 'A', 0x30A}, {0xC7, 'C', 0x327}, {0xC8, 'E', 0x300}, {0xC9, 'E', 0x301}, {0xCA, 'E', 0x302},
               {0xCB, 'E', 0x308}, {0xD1, 'N', 0x303}, {0xD6, 'O', 0x308}, {0xDC, 'U', 0x308}, {0xE0, 'a', 0x300},
               {0xE1, 'a', 0x301}, {0xE2, 'a', 0x302}, {0xE3, 'a', 0x303}, {0xE4, 'a', 0x308}, {0xE5, 'a', 0x30A},
               {0xE7, 'c', 0x327}, {0xE8, 'e', 0x300}, {0xE9, 'e', 0x301}, {0xEA, 'e', 0x302}, {0xEB, 'e', 0x308},
               {0xF1, 'n', 0x303}, {0xF6, 'o', 0x308}, {0xFC, 'u', 0x308}};
        *n = sizeof(t) / sizeof(t[0]);
        return t;
    }
    inline uint32_t fold(uint32_t c)
    {
        if (c >= 'A' && c <= 'Z')
            return c + 32;
        if (c >= 0xC0 && c <= 0xDE && c != 0xD7)
            return c + 32;
        if (c >= 0x391 && c <= 0x3A9 && c != 0x3A2)
            return c + 32;
        if (c == 0x3C2)
            return 0x3C3;
        return c;
    }
}    // namespace shim
namespace norm
{
    inline std::string to_nfd_utf8(std::string_view s)
    {
        size_t n;
        auto t = shim::table(&n);
        std::vector<uint32_t> out;
        for (auto c : shim::decode(s))
        {
            bool hit = false;
            for (size_t i = 0; i < n; ++i)
                if (t[i].composed == c)
                {
                    out.push_back(t[i].base);
                    out.push_back(t[i].mark);
                    hit = true;
                    break;
                }
            if (!hit)
                out.push_back(c);
        }
        return shim::encode(out);
    }
    inline std::string to_nfc_utf8(std::string_view s)
    {
        size_t n;
        auto t = shim::table(&n);
        std::vector<uint32_t> out;
        for (auto c : shim::decode(s))
        {
            bool hit = false;
            if (!out.empty())
                for (size_t i = 0; i < n; ++i)
                    if (t[i].mark == c && t[i].base == out.back())
                    {
                        out.back() = t[i].composed;
                        hit = true;
                        break;
                    }
            if (!hit)
                out.push_back(c);
        }
        return shim::encode(out);
    }
}    // namespace norm
namespace cases
{
    inline std::string to_casefold_utf8(std::string_view s)
    {
        auto v = shim::decode(s);
        for (auto& c : v)
            c = shim::fold(c);
        return shim::encode(v);
    }
}    // namespace cases
namespace caseless
{
    inline int compare_utf8(std::string_view a, std::string_view b)
    {
        auto x = shim::decode(a), y = shim::decode(b);
        for (size_t i = 0; i < x.size() && i < y.size(); ++i)
        {
            auto p = shim::fold(x[i]), q = shim::fold(y[i]);
            if (p != q)
                return p < q ? -1 : 1;
        }
        return x.size() == y.size() ? 0 : x.size() < y.size() ? -1 : 1;
    }
}    // namespace caseless
inline std::u16string utf8to16u(std::string_view s)
{
    std::u16string o;
    for (auto c : shim::decode(s))
        if (c < 0x10000)
            o.push_back(char16_t(c));
        else
        {
            o.push_back(char16_t(0xD800 + ((c - 0x10000) >> 10)));
            o.push_back(char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)));
        }
    return o;
}
inline std::wstring utf8to16(std::string_view s)
{
    std::wstring o;
    for (auto c : utf8to16u(s))
        o.push_back(wchar_t(c));
    return o;
}
inline std::string utf16to8(std::wstring_view s)
{
    std::string o;
    for (auto c : s)
        shim::put(o, uint32_t(c));
    return o;
}
}    // namespace una
