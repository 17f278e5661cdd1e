// C16: text and integer encodings.
#include "irv.h"
#include "nolog.h"
#include "mystring.cpp"
using namespace securefs;

static uint8_t hexdigit(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
static uint8_t hexval(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 255; }
static const char A32[] = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
static uint8_t b32val(uint8_t c)
{
    // the alphabet leaves out L, O, 0 and 1 (and upper and lower case are the same)
    if (c >= 'a' && c <= 'z')
        c -= 'a' - 'A';
    if (c >= 'A' && c <= 'K')
        return c - 'A';
    if (c == 'M' || c == 'N')
        return c - 'A' - 1;
    if (c >= 'P' && c <= 'Z')
        return c - 'A' - 2;
    if (c >= '2' && c <= '9')
        return c - '2' + 24;
    return 255;
}

struct Hex
{
    const uint8_t* d;
    uint64_t n;
};
static uint8_t hex_spec(void* c, uint64_t k)
{
    Hex* h = (Hex*)c;
    uint8_t b = h->d[k / 2];
    return hexdigit(k % 2 ? b & 15 : b >> 4);
}
PROOF(C16_hexify)
{
    Hex h;
    h.n = irv_len("n", 0, 1ull << 40, 40);
    h.d = (uint8_t*)irv_array("data", h.n);
    irv_expect(nullptr, hex_spec, &h);
    IRV_ONLY(if (irv_split(h.n <= 7)) irv_unroll(8);)  // short strings are stored inside the string object
    std::string s = hexify(h.d, h.n);
    irv_assert(s.size() == 2 * h.n, "two digits for every byte");
    FORALL(k, 2 * h.n)
    irv_assert((uint8_t)s[k] == hex_spec(&h, k), "the digits of the byte, high first");
    irv_cover("hex");
}

struct HexAt
{
    const uint8_t *t, *out;
    uint64_t x;
};
static bool hex_at(void* c, uint64_t i)
{
    HexAt* h = (HexAt*)c;
    return i <= h->x
        || (hexval(h->t[2 * h->x]) < 16 && hexval(h->t[2 * h->x + 1]) < 16
            && h->out[h->x] == hexval(h->t[2 * h->x]) * 16 + hexval(h->t[2 * h->x + 1]));
}
// text of valid digits
PROOF(C16_parse_hex_valid)
{
    Hex h;
    h.n = irv_len("n", 0, 1ull << 40, 40);
    h.d = (uint8_t*)irv_array("data", h.n);
    uint64_t x = irv_var("x", 0, 1ull << 40);
    irv_focus(x);
    char* t = (char*)irv_array("text", 2 * h.n);
    irv_fill(t, 2 * h.n, hex_spec, &h);
    uint8_t* out = (uint8_t*)irv_array("out", h.n);
    HexAt at{(uint8_t*)t, out, x};
    irv_inv(hex_at, &at);
    bool thrown = false;
    try
    {
        parse_hex(std::string_view(t, 2 * h.n), out, h.n);
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    irv_assert(!thrown, "an encoding is accepted");
    IRV_ONLY(if (x < h.n) irv_assert(out[x] == h.d[x], "the bytes encoded are returned");)
    NATIVE_ONLY(irv_assert(h.n == 0 || memcmp(out, h.d, h.n) == 0, "the bytes encoded are returned");)
    irv_cover("decoded");
}
PROOF(C16_parse_hex_any)
{
    uint64_t m = irv_len("chars", 0, 1ull << 40, 12), n = irv_len("n", 0, 1ull << 40, 6);
    uint8_t* t = (uint8_t*)irv_array("text", m);
    NATIVE_ONLY(if (irv_rand(2)) for (uint64_t i = 0; i < m; ++i) if (irv_rand(12)) t[i] = hexdigit(t[i] & 15);)
    uint8_t* out = (uint8_t*)irv_array("out", n);
    uint64_t x = irv_var("x", 0, 1ull << 40);
    irv_focus(x);
    HexAt at{t, out, x};
    irv_inv(hex_at, &at);
    try
    {
        parse_hex(std::string_view((char*)t, m), out, n);
    }
    catch (const InvalidArgumentException&)
    {
        irv_cover("rejected");
        return;
    }
    irv_assert(m == 2 * n, "the length matches");
    IRV_ONLY(if (x < n)) NATIVE_ONLY(for (x = 0; x < n; ++x))
    {
        irv_assert(hexval(t[2 * x]) < 16 && hexval(t[2 * x + 1]) < 16, "only hexadecimal digits are accepted");
        irv_assert(out[x] == hexval(t[2 * x]) * 16 + hexval(t[2 * x + 1]), "the value of the digits");
    }
}

// character k of the base32 text: bits 5k..5k+4, most significant first, zero padded
static uint8_t b32_group(Hex* h, uint64_t k)
{
    uint64_t i = 5 * k / 8, s = 5 * k % 8;
    unsigned w = (unsigned)h->d[i] << 8 | (i + 1 < h->n ? h->d[i + 1] : 0);
    return w >> (11 - s) & 31;
}
static uint8_t b32_spec(void* c, uint64_t k) { return A32[b32_group((Hex*)c, k)]; }
PROOF(C16_base32_encode)
{
    Hex h;
    h.n = irv_len("n", 0, 1ull << 40, 40);
    h.d = (uint8_t*)irv_array("data", h.n);
    irv_expect(nullptr, b32_spec, &h);
    IRV_ONLY(if (irv_split(h.n <= 9)) irv_unroll(16);)
    std::string s;
    base32_encode(h.d, h.n, s);
    irv_assert(s.size() == (8 * h.n + 4) / 5, "one character for every five bits");
    FORALL(k, s.size())
    irv_assert((uint8_t)s[k] == b32_spec(&h, k), "the characters of the bit groups");
    irv_cover("encoded");
}

// byte k of the bytes that text t stands for, if only its first i characters counted
static uint8_t b32_byte(const uint8_t* t, uint64_t m, uint64_t i, uint64_t k)
{
    uint64_t c = 8 * k / 5, s = 8 * k % 5;
    if (i > m)
        i = m;
    unsigned v0 = c < i ? b32val(t[c]) & 31 : 0, v1 = c + 1 < i ? b32val(t[c + 1]) & 31 : 0,
             v2 = c + 2 < i ? b32val(t[c + 2]) & 31 : 0;
    return (uint8_t)((v0 << 10 | v1 << 5 | v2) >> (7 - s));
}
BOUNDED(C16_base32_decode)
{
    uint64_t m = irv_len("chars", 0, 1ull << 40, 40);
    uint8_t* t = (uint8_t*)irv_array("text", m);
    if (irv_rand(8)) for (uint64_t i = 0; i < m; ++i) if (irv_rand(4 * m)) t[i] = irv_rand(2) ? A32[t[i] & 31] : A32[t[i] & 31] | (t[i] & 31 >= 24 ? 0 : 32);
    uint64_t y;
    bool thrown = false;
    std::string s(15, 'x');
    try
    {
        base32_decode((const char*)t, m, s);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    bool ok = m % 8 != 1 && m % 8 != 3 && m % 8 != 6;
    if (thrown)
    {
        for (uint64_t i = 0; i < m; ++i) ok = ok && b32val(t[i]) < 32; irv_assert(!ok, "valid text is accepted");
        irv_cover("refused");
        return;
    }
    irv_assert(ok, "impossible lengths are refused");
    irv_assert(s.size() == m * 5 / 8, "five bits for every character");
    for (y = 0; y < m; ++y) irv_assert(b32val(t[y]) < 32, "characters outside the alphabet are refused");
    for (y = 0; y < s.size(); ++y) irv_assert((uint8_t)s[y] == b32_byte(t, m, m, y), "the bytes the characters stand for");
    irv_cover("decoded");
}
PROOF(C16_endian)
{
    uint64_t v = irv_var("v", 0, ~0ull);
    uint8_t b[8];
    to_little_endian<uint64_t>(v, b);
    for (int i = 0; i < 8; ++i)
        irv_assert(b[i] == (uint8_t)(v >> (8 * i)), "64 bit store");
    irv_assert(from_little_endian<uint64_t>(b) == v, "64 bit load");
    to_little_endian<uint32_t>((uint32_t)v, b);
    irv_assert(from_little_endian<uint32_t>(b) == (uint32_t)v, "32 bit load");
    for (int i = 0; i < 4; ++i)
        irv_assert(b[i] == (uint8_t)(v >> (8 * i)), "32 bit store");
    to_little_endian<uint16_t>((uint16_t)v, b);
    irv_assert(from_little_endian<uint16_t>(b) == (uint16_t)v, "16 bit load");
    for (int i = 0; i < 8; ++i)
        irv_assert(i < 4 || b[i] == (uint8_t)(v >> (8 * i)), "nothing past the value is written");
    irv_cover("loads and stores");
}
PROOF(C16_casts)
{
    uint64_t v = irv_var("v", 0, ~0ull);
    int i = (int)irv_var("i", 0, 0xffffffffu);
    bool thrown = false;
    int r = 0;
    try
    {
        r = checked_cast<int>((size_t)v);
    }
    catch (const std::range_error&)
    {
        thrown = true;
    }
    irv_assert(thrown == (v > 0x7fffffff), "values that do not fit are refused");
    irv_assert(thrown || (uint64_t)r == v, "values that fit are kept");
    thrown = false;
    size_t q = 0;
    try
    {
        q = checked_cast<size_t>(i);
    }
    catch (const std::range_error&)
    {
        thrown = true;
    }
    irv_assert(thrown == (i < 0), "negative values are refused");
    irv_assert(thrown || q == (size_t)i, "the value is kept");
    id_type id;
    irv_havoc(id.data(), 32, "id");
    uint64_t ino = to_inode_number(id);
    for (int k = 0; k < 8; ++k)
        irv_assert((uint8_t)(~ino >> (8 * k)) == id.data()[k], "inode numbers are one to one with the first id bytes");
    irv_cover("casts");
}
