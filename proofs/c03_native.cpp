// C03, bounded part: the real full-format stream with the real AES-GCM and HMAC against an independent decoding.
#ifndef IRV
#define NAT_RANDOM
#include "nat.h"
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/sha.h>
using namespace nat;
using namespace securefs;

namespace
{
bool zeros(const Bytes& b)
{
    return std::all_of(b.begin(), b.end(), [](byte c) { return c == 0; });
}
struct Vol
{
    std::shared_ptr<MemStream> u = std::make_shared<MemStream>(), m = std::make_shared<MemStream>();
    key_type key, mkey;
    id_type id;
    byte kb[32], mb[32], ib[32];
    unsigned bs, ivs, hs;
    Vol()
    {
        for (auto p : {kb, mb, ib})
            for (int i = 0; i < 32; ++i)
                p[i] = irv_rand(256);
        memcpy(key.data(), kb, 32);
        memcpy(mkey.data(), mb, 32);
        memcpy(id.data(), ib, 32);
        bs = irv_var("block_size", 32, 200);
        if (irv_var("default", 0, 5) == 0)
            bs = 4096;
        ivs = irv_var("iv_size", 12, 32);
        hs = irv_var("header_size", 1, 100);
        u->sparse = irv_var("sparse", 0, 1);
        zero_draws() = irv_var("zero_ivs", 0, 1) ? 3 : 0;
        given().clear();
    }
    std::pair<std::shared_ptr<StreamBase>, std::shared_ptr<HeaderBase>> open(bool check = true)
    {
        return make_cryptstream_aes_gcm(u, m, key, mkey, id, check, bs, ivs, hs);
    }
    uint64_t ms() const { return ivs + 16; }
    uint64_t meta_at(uint64_t b) const { return 32 + hs + ms() + b * ms(); }
    bool gcm(const Bytes& meta, const Bytes& ct, Bytes& out) const
    {
        out.assign(ct.size(), 0);
        CryptoPP::GCM<CryptoPP::AES>::Decryption d;
        byte z[12] = {};
        d.SetKeyWithIV(kb, 32, z, 12);
        return d.DecryptAndVerify(out.data(), meta.data() + ivs, 16, meta.data(), ivs, ib, 32, ct.data(), ct.size());
    }
    bool decode(uint64_t b, Bytes& out) const
    {
        uint64_t at = b * bs;
        if (at >= u->sz)
            return false;
        Bytes ct = u->range(at, std::min<uint64_t>(bs, u->sz - at)), meta = m->range(meta_at(b), ms());
        if (zeros(ct) && zeros(meta))
        {
            out.assign(ct.size(), 0);
            return true;
        }
        return gcm(meta, ct, out);
    }
    bool mac_ok() const
    {
        if (m->sz < 32)
            return false;
        CryptoPP::HMAC<CryptoPP::SHA256> h(mb, 32);
        h.Update(ib, 32);
        Bytes body = m->range(32, m->sz - 32), want(32);
        h.Update(body.data(), body.size());
        h.Final(want.data());
        return want == m->range(0, 32);
    }
};
void verify(Vol& v, const Model& md, uint64_t lo, uint64_t hi)
{
    check(v.u->sz == md.sz, "the data stream has the plaintext size");
    for (uint64_t b = lo / v.bs; b <= hi / v.bs && b * v.bs < md.sz; ++b)
    {
        Bytes p;
        check(v.decode(b, p), "a stored block decrypts under the file's key and id with the nonce and tag at its position");
        for (uint64_t i = 0; i < p.size(); ++i)
            check(p[i] == md.get(b * v.bs + i), "a stored block holds the plaintext last written");
    }
}
}    // namespace

BOUNDED(C03_layout)
{
    Vol v;
    auto [s, h] = v.open();
    Model m;
    Bytes head;
    // rarely past block 2^16, or past 4 GiB
    uint64_t base = 0;
    if (v.u->sparse)
    {
        int far = irv_var("far", 0, 400);
        if (far == 1)
            v.bs = 4096;
        base = (far == 1 ? 1ull << 20 : far < 5 ? 1ull << 16 : 0) * v.bs;
        if (base)
            std::tie(s, h) = v.open();
    }
    std::set<Bytes> nonces;
    unsigned ops = irv_var("ops", 1, 8);
    bool any = false;
    for (unsigned k = 0; k < ops; ++k)
    {
        uint64_t w = v.bs == 4096 ? 3 * 4096 : 5 * v.bs;
        uint64_t off = base + irv_var("off", 0, w), len = irv_var("len", 0, 2 * v.bs);
        switch (irv_var("op", 0, 5))
        {
        case 0:
        case 1:
        {
            Bytes d = bytes(len);
            std::map<uint64_t, Bytes> before;
            uint64_t b0 = off / v.bs, b1 = len ? (off + len - 1) / v.bs : b0;
            for (uint64_t b = b0; b <= b1; ++b)
                before[b] = v.m->range(v.meta_at(b), v.ivs);
            given().clear();
            s->write(d.data(), off, len);
            if (!len)
                break;
            any = true;
            m.write(d, off);
            for (uint64_t b = b0; b <= b1; ++b)
            {
                Bytes n = v.m->range(v.meta_at(b), v.ivs);
                check(!zeros(n), "a written block has a non-zero nonce");
                check(n != before[b], "a written block has a new nonce");
                check(nonces.insert(n).second, "no nonce is used twice");
                bool drawn = false;
                for (auto& g : given())
                    drawn = drawn || g.b == n;
                check(drawn, "the nonce comes from the random generator, all of it");
            }
            break;
        }
        case 2:
            if (v.u->sparse || off < m.sz + 6 * v.bs)
            {
                any = any || off != m.sz;
                s->resize(off);
                m.resize(off);
            }
            break;
        case 3:
        {
            head = bytes(irv_var("hlen", 0, v.hs));
            Bytes before = v.m->range(32, v.ivs);
            given().clear();
            h->write_header(head.data(), head.size());
            any = true;
            Bytes n = v.m->range(32, v.ivs);
            check(given().size() == 1 && given()[0].b == n, "the header's nonce comes from the random generator");
            break;
        }
        case 4:
        {
            if (irv_var("which", 0, 1))
                h->flush_header();
            else
                s->flush();
            check(!any || v.mac_ok(), "after a flush the metadata stream carries its authentication code");
            break;
        }
        case 5:
            s.reset();
            h.reset();
            check(!any || v.mac_ok(), "after closing the metadata stream carries its authentication code");
            std::tie(s, h) = v.open();
            break;
        }
        check(s->size() == m.sz, "size");
        check(m.sz == 0 || v.m->sz == v.meta_at((m.sz + v.bs - 1) / v.bs),
              "the metadata stream holds exactly the entries of the stored blocks");
        compare(*s, m, base + irv_var("roff", 0, w), irv_var("rlen", 0, 3 * v.bs), "read");
        if (base == 0)
            verify(v, m, 0, m.sz);
        else
            verify(v, m, base, base + 8 * v.bs);
        if (!head.empty())
        {
            Bytes hd(v.hs, 1), want = head, raw;
            want.resize(v.hs);
            uint64_t n = irv_var("hread", 0, v.hs);
            check(h->read_header(hd.data(), n), "the header is present");
            check(std::equal(hd.begin(), hd.begin() + n, want.begin()), "the header reads back");
            Bytes st = v.m->range(32, v.hs + v.ms());
            check(v.gcm(Bytes(st.begin(), st.begin() + v.ms()), Bytes(st.begin() + v.ms(), st.end()), raw) && raw == want,
                  "the stored header is nonce, tag, ciphertext");
        }
    }
    s.reset();
    h.reset();
    std::tie(s, h) = v.open();
    compare(*s, m, base, 8 * v.bs, "read after reopening");
    irv_cover("written and read");
}

BOUNDED(C03_tamper)
{
    Vol v;
    v.bs = std::min(v.bs, 200u);
    Model m;
    uint64_t n = irv_var("size", 1, 6 * v.bs);
    {
        auto [s, h] = v.open();
        Bytes d(n);
        for (auto& c : d)
            c = irv_rand(256);
        s->write(d.data(), 0, n);
        m.write(d, 0);
        Bytes hd = bytes(v.hs);
        h->write_header(hd.data(), hd.size());
        s->flush();
    }
    uint64_t nb = (n + v.bs - 1) / v.bs;
    std::set<uint64_t> bad;
    bool meta = false;
    switch (irv_var("how", 0, 7))
    {
    case 0:    // one bit of the data
    {
        uint64_t at = irv_rand(n);
        v.u->put(at, v.u->get(at) ^ (1 << irv_rand(8)));
        bad.insert(at / v.bs);
        break;
    }
    case 1:    // one bit of the metadata stream
    {
        uint64_t at = irv_rand(v.m->sz);
        v.m->put(at, v.m->get(at) ^ (1 << irv_rand(8)));
        meta = true;
        break;
    }
    case 2:    // data and metadata of a block copied to another place
    {
        uint64_t a = irv_rand(nb), b = irv_rand(nb);
        if (a == b || (a + 1) * v.bs > n || (b + 1) * v.bs > n)
            return;
        Bytes x = v.u->range(a * v.bs, v.bs), y = v.m->range(v.meta_at(a), v.ms());
        v.u->write(x.data(), b * v.bs, v.bs);
        v.m->write(y.data(), v.meta_at(b), v.ms());
        meta = true;
        break;
    }
    case 3:    // only the data of a block copied
    {
        uint64_t a = irv_rand(nb), b = irv_rand(nb);
        if (a == b || (a + 1) * v.bs > n || (b + 1) * v.bs > n)
            return;
        Bytes x = v.u->range(a * v.bs, v.bs);
        v.u->write(x.data(), b * v.bs, v.bs);
        bad.insert(b);
        break;
    }
    case 4:    // the metadata stream cut or extended
    {
        uint64_t to = irv_var("to", 1, v.m->sz + 40);
        if (to == v.m->sz)
            return;
        v.m->resize(to);
        meta = true;
        break;
    }
    case 5:    // another file's id
        v.id.data()[irv_rand(32)] ^= 1 << irv_rand(8);
        meta = true;
        break;
    case 6:    // another metadata key
        v.mkey.data()[irv_rand(32)] ^= 1 << irv_rand(8);
        meta = true;
        break;
    default:    // a block of data zeroed
    {
        uint64_t b = irv_rand(nb);
        if (zeros(v.u->range(b * v.bs, std::min<uint64_t>(v.bs, n - b * v.bs))))
            return;
        for (uint64_t i = b * v.bs; i < std::min<uint64_t>(n, (b + 1) * v.bs); ++i)
            v.u->put(i, 0);
        bad.insert(b);
        break;
    }
    }
    std::shared_ptr<StreamBase> t;
    bool refused = false;
    try
    {
        t = v.open(true).first;
    }
    catch (const ExceptionBase&)
    {
        refused = true;
    }
    check(refused == meta, refused ? "intact metadata is rejected" : "altered metadata is accepted");
    if (refused)
    {
        irv_cover("metadata rejected");
        return;
    }
    for (uint64_t b = 0; b < nb; ++b)
    {
        Bytes o(v.bs);
        bool thrown = false;
        try
        {
            t->read(o.data(), b * v.bs, v.bs);
        }
        catch (const MessageVerificationException&)
        {
            thrown = true;
        }
        check(thrown == (bad.count(b) != 0), thrown ? "an intact block is rejected" : "an altered block is accepted");
        if (!thrown)
            compare(*t, m, b * v.bs, v.bs, "intact block");
    }
    if (nb > 1)
    {
        uint64_t off = irv_rand(n), len = irv_rand(n) + 1;
        bool hit = false;
        for (uint64_t b : bad)
            hit = hit || (off < (b + 1) * v.bs && off + len > b * v.bs);
        Bytes o(len);
        bool thrown = false;
        try
        {
            t->read(o.data(), off, len);
        }
        catch (const MessageVerificationException&)
        {
            thrown = true;
        }
        check(thrown == hit, thrown ? "intact blocks are rejected" : "an altered block is accepted in a long read");
    }
    irv_cover("block rejected");
}

// with verification of the metadata off, a block's tag still covers data, nonce and file id
BOUNDED(C03_tamper_block)
{
    Vol v;
    v.bs = std::min(v.bs, 200u);
    uint64_t n = irv_var("size", 1, 3 * v.bs);
    auto s = v.open().first;
    Bytes d(n);
    for (auto& c : d)
        c = irv_rand(256);
    s->write(d.data(), 0, n);
    uint64_t b = irv_rand((n + v.bs - 1) / v.bs), len = std::min<uint64_t>(v.bs, n - b * v.bs);
    switch (irv_var("how", 0, 1))
    {
    case 0:
    {
        uint64_t at = v.meta_at(b) + irv_rand(v.ms());
        v.m->put(at, v.m->get(at) ^ (1 << irv_rand(8)));
        break;
    }
    default:
        if (zeros(v.u->range(b * v.bs, len)))
            return;
        for (uint64_t i = 0; i < v.ms(); ++i)
            v.m->put(v.meta_at(b) + i, 0);
        break;
    }
    bool thrown = false;
    try
    {
        Bytes o(len);
        s->read(o.data(), b * v.bs, len);
    }
    catch (const MessageVerificationException&)
    {
        thrown = true;
    }
    check(thrown, "an altered nonce or tag is accepted");
    irv_cover("rejected");
}

// the authenticated stream by itself, over more than one hashing buffer
BOUNDED(C03_mac_stream)
{
    auto u = std::make_shared<MemStream>();
    key_type k(3);
    id_type id(5);
    Model m;
    auto s = make_stream_hmac(k, id, u, true);
    unsigned ops = irv_var("ops", 1, 6);
    bool any = false;
    for (unsigned i = 0; i < ops; ++i)
    {
        uint64_t off = irv_var("off", 0, 9000), len = irv_var("len", 0, 5000);
        switch (irv_var("op", 0, 3))
        {
        case 0:
        {
            Bytes d = bytes(len);
            s->write(d.data(), off, len);
            m.write(d, off);
            any = true;
            break;
        }
        case 1:
            s->resize(off);
            m.resize(off);
            any = true;
            break;
        case 2:
            s->flush();
            break;
        default:
            s.reset();
            s = make_stream_hmac(k, id, u, true);
        }
        check(s->size() == m.sz, "size");
        compare(*s, m, irv_var("roff", 0, 9000), irv_var("rlen", 0, 5000), "read");
    }
    s.reset();
    if (u->sz > 32)
    {
        uint64_t at = irv_rand(u->sz);
        u->put(at, u->get(at) ^ (1 << irv_rand(8)));
        bool thrown = false;
        try
        {
            make_stream_hmac(k, id, u, true);
        }
        catch (const ExceptionBase&)
        {
            thrown = true;
        }
        check(thrown, "an altered stream is accepted");
    }
    irv_cover("authenticated");
}
#endif
