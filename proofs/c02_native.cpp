// C02, bounded part: the real lite stream with the real AES-GCM against an independent decoding of what it stores.
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
#include "lite_stream.h"
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/modes.h>
using namespace nat;
using namespace securefs;
typedef lite::AESGCMCryptStream S;

struct Vol
{
    std::shared_ptr<MemStream> u = std::make_shared<MemStream>();
    key_type key;
    byte keybytes[32];
    byte padkey[16];
    unsigned bs, ivs, maxpad;
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption pad;
    Vol()
    {
        for (auto& b : keybytes)
            b = irv_rand(256);
        memcpy(key.data(), keybytes, 32);
        for (auto& b : padkey)
            b = irv_rand(256);
        pad.SetKey(padkey, 16);
        bs = irv_var("block_size", 32, 200);
        if (irv_var("default", 0, 5) == 0)
            bs = 4096;
        ivs = irv_var("iv_size", 12, 32);
        maxpad = irv_var("maxpad", 0, 3) ? irv_var("maxpad2", 0, 50) : 0;
        u->sparse = irv_var("sparse", 0, 1);
        zero_draws() = irv_var("zero_ivs", 0, 1) ? 3 : 0;
        given().clear();
    }
    std::unique_ptr<S> open(bool check = true)
    {
        return std::unique_ptr<S>(new S(u, key, bs, ivs, check, maxpad, maxpad ? &pad : nullptr));
    }
    uint64_t padsize() const
    {
        if (!maxpad)
            return 0;
        byte id[16], o[16];
        for (int i = 0; i < 16; ++i)
            id[i] = u->get(i);
        CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption e(padkey, 16);
        e.ProcessData(o, id, 16);
        unsigned __int128 v = 0;
        for (int i = 0; i < 16; ++i)
            v = v << 8 | o[i];
        return (uint64_t)(v % (maxpad + 1));
    }
    uint64_t hdr() const { return 16 + padsize(); }
    uint64_t ub() const { return bs + ivs + 16; }
    // plaintext of stored block b by an independent decoding; false when it does not verify
    bool decode(uint64_t b, Bytes& out) const
    {
        uint64_t at = hdr() + b * ub();
        if (at >= u->sz)
            return false;
        uint64_t len = std::min(ub(), u->sz - at);
        out.clear();
        if (len <= ivs + 16)
            return true;
        Bytes blk = u->range(at, len);
        out.resize(len - ivs - 16);
        if (std::all_of(blk.begin(), blk.end(), [](byte c) { return c == 0; }))
            return true;
        Bytes id = u->range(0, 16), pd = u->range(16, padsize());
        byte sk[32];
        CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption e(key.data(), key.size());
        e.ProcessData(sk, id.data(), 16);
        Bytes aad{(byte)b, (byte)(b >> 8), (byte)(b >> 16), (byte)(b >> 24)};
        aad.insert(aad.end(), pd.begin(), pd.end());
        CryptoPP::GCM<CryptoPP::AES>::Decryption d;
        byte z[12] = {};
        d.SetKeyWithIV(sk, 16, z, 12);
        return d.DecryptAndVerify(out.data(), blk.data() + len - 16, 16, blk.data(), ivs, aad.data(), aad.size(),
                                  blk.data() + ivs, out.size());
    }
    uint64_t stored(uint64_t n) const { return hdr() + n / bs * ub() + (n % bs ? n % bs + ivs + 16 : 0); }
};

static void verify(Vol& v, const Model& m, uint64_t lo, uint64_t hi)
{
    check(v.u->sz == v.stored(m.sz), "the stored size is that of the plaintext size");
    for (uint64_t b = lo / v.bs; b <= hi / v.bs && b * v.bs < m.sz; ++b)
    {
        Bytes p;
        check(v.decode(b, p), "a stored block decrypts under the file's key, its number and the padding");
        check(p.size() == std::min<uint64_t>(v.bs, m.sz - b * v.bs), "size of the decrypted block");
        for (uint64_t i = 0; i < p.size(); ++i)
            check(p[i] == m.get(b * v.bs + i), "a stored block holds the plaintext last written");
    }
}

BOUNDED(C02_layout)
{
    Vol v;
    auto s = v.open();
    check(v.u->sz == v.hdr(), "a new stream holds the header");
    Model m;
    // block numbers near 0, 2^16, 2^24, 2^30
    static const uint64_t bases[] = {0, 0, 0, 0, 1ull << 16, 1ull << 20, 1ull << 24, 1ull << 30};
    uint64_t base = v.u->sparse ? bases[irv_var("base", 0, 7)] * v.bs : 0;
    uint64_t lo = base, top = base;
    std::set<Bytes> nonces;
    unsigned ops = irv_var("ops", 1, 7);
    for (unsigned k = 0; k < ops; ++k)
    {
        uint64_t w = v.bs == 4096 ? 3 * 4096 : 5 * v.bs;
        uint64_t off = base + irv_var("off", 0, w), len = irv_var("len", 0, 2 * v.bs);
        switch (irv_var("op", 0, 3))
        {
        case 0:
        case 1:
        {
            Bytes d = bytes(len), oldn;
            std::map<uint64_t, Bytes> before;
            uint64_t ub = v.ub(), b0 = off / v.bs, b1 = len ? (off + len - 1) / v.bs : b0;
            for (uint64_t b = b0; b <= b1; ++b)
                before[b] = v.u->range(v.hdr() + b * ub, v.ivs);
            given().clear();
            s->write(d.data(), off, len);
            if (len)
                m.write(d, off);
            if (len)
                for (uint64_t b = b0; b <= b1; ++b)
                {
                    Bytes n = v.u->range(v.hdr() + b * ub, v.ivs);
                    bool zero = std::all_of(n.begin(), n.end(), [](byte c) { return c == 0; });
                    check(!zero, "a written block has a non-zero nonce");
                    check(n != before[b], "a written block has a new nonce");
                    check(nonces.insert(n).second, "no nonce is used twice");
                    bool drawn = false;
                    for (auto& g : given())
                        drawn = drawn || g.b == n;
                    check(drawn, "the nonce comes from the random generator, all of it");
                }
            break;
        }
        case 2:
            if (v.u->sparse || off < m.sz + 6 * v.bs)
            {
                s->resize(off);
                m.resize(off);
            }
            break;
        case 3:
            s = v.open();
            break;
        }
        check(s->size() == m.sz, "size");
        compare(*s, m, base + irv_var("roff", 0, w), irv_var("rlen", 0, 3 * v.bs), "read");
        top = std::max(top, m.sz);
        if (base == 0)
            verify(v, m, 0, top);
        else
            verify(v, m, base, base + 8 * v.bs);
    }
    s->flush();
    s = v.open();
    compare(*s, m, base, 8 * v.bs, "read after reopening");
    // sizes computed without opening
    if (!v.maxpad)
        check(S::calculate_real_size(v.u->sz, v.bs, v.ivs) == m.sz, "the size computed without opening");
    irv_cover("written and read");
}

BOUNDED(C02_tamper)
{
    Vol v;
    v.bs = std::min(v.bs, 200u);
    auto s = v.open();
    Model m;
    uint64_t n = irv_var("size", 1, 6 * v.bs);
    Bytes d(n);
    for (auto& c : d)
        c = irv_rand(256);
    s->write(d.data(), 0, n);
    m.write(d, 0);
    uint64_t ub = v.ub(), nb = (n + v.bs - 1) / v.bs;
    Bytes good = v.u->all();
    std::set<uint64_t> bad;
    switch (irv_var("how", 0, 4))
    {
    case 4:    // a part of a block set to zero: the nonce, the text, the tag or any two neighbours of them
    {
        uint64_t b = irv_rand(nb), at = v.hdr() + b * ub, l = std::min<uint64_t>(ub, v.u->sz - at);
        uint64_t from[3] = {0, v.ivs, l - 16}, to[3] = {v.ivs, l - 16, l};
        int i = irv_rand(3), j = std::min<int>(2, i + irv_rand(2));
        if (i == 0 && j == 2)
            j = 1;
        Bytes was = v.u->range(at, l), z(to[j] - from[i]);
        v.u->write(z.data(), at + from[i], z.size());
        Bytes now = v.u->range(at, l);
        if (now == was || std::all_of(now.begin(), now.end(), [](byte c) { return c == 0; }))
            return;
        bad.insert(b);
        break;
    }
    case 0:    // one bit of a block
    {
        uint64_t at = irv_var("at", v.hdr(), v.u->sz - 1);
        v.u->put(at, v.u->get(at) ^ (1 << irv_rand(8)));
        bad.insert((at - v.hdr()) / ub);
        break;
    }
    case 1:    // a whole block copied to another place
    {
        uint64_t a = irv_rand(nb), b = irv_rand(nb);
        if (a == b || (a + 1) * ub + v.hdr() > v.u->sz || (b + 1) * ub + v.hdr() > v.u->sz)
            return;
        Bytes x = v.u->range(v.hdr() + a * ub, ub);
        v.u->write(x.data(), v.hdr() + b * ub, ub);
        bad.insert(b);
        break;
    }
    case 2:    // the padding or the id
    {
        if (irv_var("id", 0, 1) && !v.maxpad)
        {
            uint64_t at = irv_rand(16);
            v.u->put(at, v.u->get(at) ^ (1 << irv_rand(8)));
        }
        else
        {
            if (!v.padsize())
                return;
            uint64_t at = 16 + irv_rand(v.padsize());
            v.u->put(at, v.u->get(at) ^ (1 << irv_rand(8)));
        }
        for (uint64_t b = 0; b < nb; ++b)
            bad.insert(b);
        break;
    }
    default:    // the last block cut
    {
        uint64_t last = v.hdr() + (nb - 1) * ub, l = v.u->sz - last;
        if (l <= v.ivs + 17)
            return;
        v.u->resize(last + irv_var("cut", v.ivs + 17, l - 1));
        bad.insert(nb - 1);
        m.resize((nb - 1) * v.bs + (v.u->sz - last - v.ivs - 16));
        break;
    }
    }
    auto t = v.open(true);
    for (uint64_t b = 0; b < nb; ++b)
    {
        Bytes o(v.bs);
        bool thrown = false;
        try
        {
            t->read(o.data(), b * v.bs, v.bs);
        }
        catch (const LiteMessageVerificationException&)
        {
            thrown = true;
        }
        check(thrown == (bad.count(b) != 0), thrown ? "an intact block is rejected" : "an altered block is accepted");
        if (!thrown)
            compare(*t, m, b * v.bs, v.bs, "intact block");
    }
    if (nb > 1)
    {
        uint64_t off = irv_rand(m.sz), len = irv_rand(m.sz - off) + 1;
        bool hit = false;
        for (uint64_t b : bad)
            hit = hit || (off < (b + 1) * v.bs && off + len > b * v.bs);
        Bytes o(len);
        bool thrown = false;
        try
        {
            t->read(o.data(), off, len);
        }
        catch (const LiteMessageVerificationException&)
        {
            thrown = true;
        }
        check(thrown == hit, thrown ? "intact blocks are rejected" : "an altered block is accepted in a long read");
    }
    irv_cover("altered");
}

BOUNDED(C02_limits)
{
    Vol v;
    auto s = v.open();
    static const uint64_t MAXB = (1ull << 31) - 1;
    uint64_t a = irv_var("start", MAXB - 3, MAXB + 3), n = irv_var("count", 0, 3);
    if (a > MAXB)
        n = 1;
    Bytes d((n + 1) * v.bs, 7);
    bool thrown = false;
    StreamBase& st = *s;
    BlockBasedStream& bb = *s;
    try
    {
        ((S&)bb).write_multi_blocks(a, a + n, 0, d.data());
    }
    catch (const StreamTooLongException&)
    {
        thrown = true;
    }
    check(thrown == (a + n > MAXB), "blocks past the limit are refused, others are not");
    if (thrown)
        check(v.u->sz == v.hdr(), "nothing is stored for a refused write");
    else if (n)
    {
        check(v.u->sz == v.hdr() + (a + n) * v.ub(), "stored size");
        Bytes o(n * v.bs);
        check(st.read(o.data(), a * v.bs, n * v.bs) == n * v.bs && std::equal(o.begin(), o.end(), d.begin()), "read back");
        Bytes p;
        check(v.decode(a + n - 1, p), "the last block is bound to its number");
        check(s->size() == (a + n) * v.bs, "size");
    }
    thrown = false;
    try
    {
        Bytes o((n + 1) * v.bs);
        ((S&)bb).read_multi_blocks(a, a + n, o.data());
    }
    catch (const StreamTooLongException&)
    {
        thrown = true;
    }
    check(thrown == (a + n > MAXB), "reading past the limit is refused");
    irv_cover("at the limit");
}
#endif
