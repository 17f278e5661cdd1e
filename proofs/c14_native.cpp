// C14, bounded part: extended attributes of both formats over in-memory attribute stores, with real cryptography.
#ifndef IRV
#define NAT_RANDOM
#include "nat_file.h"
#include "lite_format.h"
#include "xattr_name.h"
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
using namespace nat;
using namespace securefs;
namespace
{
typedef std::map<std::string, Bytes> Attrs;
std::map<std::string, Attrs> g_store;    // what the underlying file system holds, by path
std::string g_bad;
Attrs* at(const char* path)
{
    auto it = g_store.find(path);
    return it == g_store.end() ? nullptr : &it->second;
}
std::string anyname()
{
    std::string s;
    unsigned n = irv_var("name", 1, 90);
    for (unsigned i = 0; i < n; ++i)
        s.push_back((char)(1 + irv_rand(255)));
    return s;
}
Bytes anyvalue(unsigned lo)
{
    unsigned n = irv_var("value", lo, irv_rand(4) ? 70 : 3000);
    Bytes b(n);
    for (auto& c : b)
        c = irv_rand(3) ? irv_rand(256) : 0;
    return b;
}
bool gcm_ok(const uint8_t* key, const Bytes& iv, const Bytes& aad, const Bytes& ct, const Bytes& mac, Bytes& out)
{
    CryptoPP::GCM<CryptoPP::AES>::Decryption d;
    d.SetKeyWithIV(key, 32, iv.data(), iv.size());
    out.assign(ct.size(), 0);
    return d.DecryptAndVerify(out.data(), mac.data(), mac.size(), iv.data(), iv.size(), aad.data(), aad.size(), ct.data(), ct.size());
}
// the oracle for stored names: "user." and URL-safe base64 without padding of tag and ciphertext
std::string b64(const Bytes& b)
{
    static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    std::string o;
    for (size_t bit = 0; bit < b.size() * 8; bit += 6)
    {
        unsigned v = 0;
        for (size_t k = bit; k < bit + 6; ++k)
            v = v * 2 + (k / 8 < b.size() ? b[k / 8] >> (7 - k % 8) & 1 : 0);
        o.push_back(T[v]);
    }
    return o;
}
std::string stored_name(const uint8_t* key, const std::string& n)
{
    AES_SIV siv(key, 32);
    Bytes b(16 + n.size());
    siv.encrypt_and_authenticate(n.data(), n.size(), nullptr, 0, b.data() + 16, b.data());
    return "user." + b64(b);
}
std::multiset<std::string> names_in(const char* b, int n)
{
    std::multiset<std::string> r;
    check(n == 0 || b[n - 1] == 0, "every listed name is terminated");
    for (int i = 0; i < n;)
    {
        std::string s(b + i);
        r.insert(s);
        i += s.size() + 1;
    }
    return r;
}
}    // namespace
// the underlying file system
ssize_t OSService::listxattr(const char* path, char* buf, size_t size) const noexcept
{
    Attrs* a = at(path);
    if (!a)
        return -ENOENT;
    size_t need = 0;
    for (auto& p : *a)
        need += p.first.size() + 1;
    if (!size)
        return need;
    if (size < need)
        return -ERANGE;
    for (auto& p : *a)
    {
        memcpy(buf, p.first.c_str(), p.first.size() + 1);
        buf += p.first.size() + 1;
    }
    return need;
}
ssize_t OSService::getxattr(const char* path, const char* name, void* buf, size_t size) const noexcept
{
    Attrs* a = at(path);
    if (!a)
        return -ENOENT;
    auto it = a->find(name);
    if (it == a->end())
        return -ENODATA;
    if (!size)
        return it->second.size();
    if (size < it->second.size())
        return -ERANGE;
    memcpy(buf, it->second.data(), it->second.size());
    return it->second.size();
}
int OSService::setxattr(const char* path, const char* name, void* buf, size_t size, int flags) const noexcept
{
    Attrs* a = at(path);
    if (!a)
        return -ENOENT;
    if ((flags & 1) && a->count(name))
        return -EEXIST;
    if ((flags & 2) && !a->count(name))
        return -ENODATA;
    (*a)[name].assign((uint8_t*)buf, (uint8_t*)buf + size);
    return 0;
}
int OSService::removexattr(const char* path, const char* name) const noexcept
{
    Attrs* a = at(path);
    if (!a)
        return -ENOENT;
    return a->erase(name) ? 0 : -ENODATA;
}
namespace
{
struct Lite
{
    key_type key, nkey;
    unsigned ivs;
    bool verify;
    std::unique_ptr<lite_format::FuseHighLevelOps> ops;
    std::string pa, pb;
    Lite()
    {
        for (int i = 0; i < 32; ++i)
        {
            key.data()[i] = irv_rand(256);
            nkey.data()[i] = irv_rand(256);
        }
        ivs = irv_var("iv", 12, 32);
        verify = true;
        lite_format::NameNormalizationFlags fl{};
        fl.long_name_threshold = 128;
        fl.long_name_suffix = "...";
        auto nt = lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(nkey));
        pa = nt->encrypt_full_path("/a", nullptr);
        pb = nt->encrypt_full_path("/b", nullptr);
        auto opener = std::shared_ptr<lite_format::StreamOpener>(new lite_format::StreamOpener(
            StrongType<key_type, tContentMasterKey>(key), StrongType<key_type, tPaddingMasterKey>(nkey), StrongType<unsigned, tBlockSize>(4096),
            StrongType<unsigned, tIvSize>(12), StrongType<unsigned, tMaxPaddingSize>(0), StrongType<bool, tVerify>(true)));
        auto xc = std::make_shared<lite_format::XattrCryptor>(StrongType<key_type, tXattrMasterKey>(key), StrongType<unsigned, tIvSize>(ivs),
                                                              StrongType<bool, tVerify>(verify));
        ops.reset(new lite_format::FuseHighLevelOps(std::make_shared<OSService>(), opener, nt, xc, StrongType<key_type, tXattrMasterKey>(key),
                                                    StrongType<bool, tEnableXattr>(true)));
        g_store.clear();
        g_store[pa];
        g_store[pb];
    }
};
}    // namespace
// one file's attributes under any sequence of operations: get, set, list and remove act as on a map
BOUNDED(C14_lite_ops)
{
    zero_draws() = 0;
    Lite L;
    std::map<std::string, Bytes> want[2];
    std::vector<std::string> names;
    for (int i = 0; i < 4; ++i)
        names.push_back(anyname());
    unsigned ops = irv_var("ops", 1, 14);
    for (unsigned k = 0; k < ops; ++k)
    {
        int f = irv_var("file", 0, 1);
        const char* path = f ? "/b" : "/a";
        auto& w = want[f];
        auto& real = g_store[f ? L.pb : L.pa];
        auto& other = g_store[f ? L.pa : L.pb];
        Attrs before_other = other, before = real;
        std::string n = names[irv_var("which", 0, 3)];
        switch (irv_var("op", 0, 4))
        {
        case 0:
        {
            Bytes v = anyvalue(0);
            int flags = irv_var("flags", 0, 2);
            Bytes vv = v;
            vv.push_back(0);
            given().clear();
            int rc = L.ops->vsetxattr(path, n.c_str(), (const char*)vv.data(), v.size(), flags, 0, nullptr);
            int expect = (flags & 1) && w.count(n) ? -EEXIST : (flags & 2) && !w.count(n) ? -ENODATA : 0;
            check(rc == expect, "result of setting an attribute");
            if (rc == 0)
            {
                w[n] = v;
                std::string sn = stored_name(L.key.data(), n);
                check(real.count(sn), "the attribute is stored under the encrypted name");
                Bytes& s = real[sn];
                check(s.size() == v.size() + L.ivs + 16, "stored length");
                Bytes iv(s.begin(), s.begin() + L.ivs), ct(s.begin() + L.ivs, s.end() - 16), mac(s.end() - 16, s.end()), out;
                check(gcm_ok(L.key.data(), iv, {}, ct, mac, out) && out == v, "the value is stored encrypted: nonce, ciphertext, tag");
                bool fresh = false;
                for (size_t i = 0; i < given().size(); ++i)
                    fresh |= given()[i].b == iv;
                check(fresh, "the nonce is fresh");
            }
            else
                check(real == before, "a refused set changes nothing");
            break;
        }
        case 1:
        case 2:
        {
            bool there = w.count(n);
            size_t vn = there ? w[n].size() : 5;
            int rc = L.ops->vgetxattr(path, n.c_str(), nullptr, 0, 0, nullptr);
            check(rc == (there ? (int)vn : -ENODATA), "the size query gives the length of the value");
            size_t size = irv_var("exact", 0, 2) ? irv_var("size", 0, vn + 40) : vn;
            Bytes buf(size + 16, 0xA5);
            rc = L.ops->vgetxattr(path, n.c_str(), (char*)buf.data(), size, 0, nullptr);
            if (!there)
                check(rc == -ENODATA, "an absent attribute");
            else if (size < vn)
                check(rc == -ERANGE, "a short buffer is refused");
            else
            {
                check(rc == (int)vn, "length of the value");
                check(std::equal(w[n].begin(), w[n].end(), buf.begin()), "the value reads back");
                irv_cover("read");
            }
            for (size_t i = 0; i < 16; ++i)
                check(buf[size + i] == 0xA5, "the buffer is not overrun");
            break;
        }
        case 3:
        {
            int rc = L.ops->vremovexattr(path, n.c_str(), nullptr);
            check(rc == (w.count(n) ? 0 : -ENODATA), "result of removing an attribute");
            w.erase(n);
            break;
        }
        default:
        {
            // foreign attributes are never listed
            bool foreign = irv_var("foreign", 0, 2) == 0;
            if (foreign)
            {
                real["user.abc"] = {1};
                real["security.x"] = {1};
                real["user.QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVo"] = {2};
                real["user." + std::string(irv_rand(60), 'A')] = {3};
            }
            size_t need = 0;
            std::multiset<std::string> ns;
            for (auto& p : w)
            {
                need += p.first.size() + 1;
                ns.insert(p.first);
            }
            int rc = L.ops->vlistxattr(path, nullptr, 0, nullptr);
            check(rc == (int)need, "the size query gives the length of the list");
            size_t size = irv_var("lsize", 0, need + 30);
            std::vector<char> b(size + 16, '\x5A');
            rc = L.ops->vlistxattr(path, b.data(), size, nullptr);
            if (size == 0)
                check(rc == (int)need, "the size query gives the length of the list");
            else if (size < need)
                check(rc == -ERANGE, "a short buffer is refused");
            else
            {
                check(rc == (int)need, "length of the list");
                check(names_in(b.data(), rc) == ns, "every name once");
                irv_cover("listed");
            }
            for (size_t i = 0; i < 16; ++i)
                check(b[size + i] == '\x5A', "the buffer is not overrun");
            if (foreign)
                real = before;
        }
        }
        check(other == before_other, "the other file's attributes are left alone");
        check(real.size() == w.size(), "number of stored attributes");
    }
}
// an altered value is refused
BOUNDED(C14_lite_altered)
{
    zero_draws() = 0;
    Lite L;
    std::string n = anyname();
    Bytes v = anyvalue(0);
    v.push_back(7);
    check(L.ops->vsetxattr("/a", n.c_str(), (const char*)v.data(), v.size(), 0, 0, nullptr) == 0, "set");
    auto& s = g_store[L.pa].begin()->second;
    Bytes orig = s;
    for (int k = 0; k < 8; ++k)
    {
        s = orig;
        switch (irv_var("how", 0, 2))
        {
        case 0:
            s[irv_rand(s.size())] ^= 1 << irv_rand(8);
            break;
        case 1:
            s.resize(irv_rand(s.size()));
            break;
        default:
            s.push_back(irv_rand(256));
        }
        Bytes buf(v.size() + irv_rand(60) + 1);
        int rc;
        try
        {
            rc = L.ops->vgetxattr("/a", n.c_str(), (char*)buf.data(), buf.size(), 0, nullptr);
        }
        catch (const std::exception&)
        {
            rc = -1;
        }
        check(rc < 0, "an altered value is refused");
    }
    irv_cover("altered");
}
BOUNDED(C14_full_ops)
{
    zero_draws() = 0;
    auto d = std::make_shared<MemFile>(), m = std::make_shared<MemFile>();
    FileParams fp;
    fp.maxpad = irv_var("padded", 0, 1) ? 40 : 0;
    auto f = fp.make<RegularFile>(d, m);
    f->initialize_empty(S_IFREG | 0600, 1, 1);
    std::map<std::string, Bytes> w;
    std::vector<std::string> names;
    for (int i = 0; i < 4; ++i)
        names.push_back(anyname());
    uint8_t keys[128];
    hkdf(fp.key.data(), 32, nullptr, 0, fp.id.data(), 32, keys, fp.maxpad ? 128 : 96);
    unsigned ops = irv_var("ops", 1, 14);
    auto code = [](auto&& fn) -> ssize_t
    {
        try
        {
            return fn();
        }
        catch (const VFSException& e)
        {
            return -e.error_number();
        }
    };
    for (unsigned k = 0; k < ops; ++k)
    {
        std::string n = names[irv_var("which", 0, 3)];
        Attrs bd = d->xattrs, bm = m->xattrs;
        switch (irv_var("op", 0, 6))
        {
        case 0:
        case 1:
        {
            Bytes v = anyvalue(0), vv = v;
            vv.push_back(0);
            int flags = irv_var("flags", 0, 2);
            given().clear();
            ssize_t rc = code([&] { f->setxattr(n.c_str(), (const char*)vv.data(), v.size(), flags); return 0; });
            check(rc == ((flags & 1) && w.count(n) ? -EEXIST : (flags & 2) && !w.count(n) ? -ENODATA : 0), "result of setting an attribute");
            if (rc == 0)
            {
                w[n] = v;
                std::string sn = stored_name(keys + 64, n);
                check(d->xattrs.count(sn) && m->xattrs.count(sn), "stored under the encrypted name in both files");
                Bytes& meta = m->xattrs[sn];
                check(meta.size() == 32, "nonce and tag");
                Bytes iv(meta.begin(), meta.begin() + 16), mac(meta.begin() + 16, meta.end()), aad(fp.id.data(), fp.id.data() + 32), out;
                aad.insert(aad.end(), sn.begin(), sn.end());
                check(gcm_ok(keys + 64, iv, aad, d->xattrs[sn], mac, out) && out == v, "the value is stored encrypted");
                bool fresh = false;
                for (size_t i = 0; i < given().size(); ++i)
                    fresh |= given()[i].b == iv;
                check(fresh, "the nonce is fresh");
            }
            else
                check(d->xattrs == bd && m->xattrs == bm, "a refused set changes nothing");
            break;
        }
        case 2:
        case 3:
        {
            bool there = w.count(n);
            size_t vn = there ? w[n].size() : 5;
            ssize_t rc = code([&] { return f->getxattr(n.c_str(), nullptr, 0); });
            check(rc == (there ? (ssize_t)vn : -ENODATA), "the size query gives the length of the value");
            size_t size = irv_var("exact", 0, 2) ? irv_var("size", 1, vn + 40) : vn;
            if (size == 0)
                size = 1;
            Bytes buf(size + 16, 0xA5);
            rc = code([&] { return f->getxattr(n.c_str(), (char*)buf.data(), size); });
            if (!there)
                check(rc == -ENODATA, "an absent attribute");
            else if (size < vn)
                check(rc == -ERANGE, "a short buffer is refused");
            else
            {
                check(rc == (ssize_t)vn && std::equal(w[n].begin(), w[n].end(), buf.begin()), "the value reads back");
                irv_cover("read");
            }
            for (size_t i = 0; i < 16; ++i)
                check(buf[size + i] == 0xA5, "the buffer is not overrun");
            break;
        }
        case 4:
        {
            ssize_t rc = code([&] { f->removexattr(n.c_str()); return 0; });
            check(rc == (w.count(n) ? 0 : -ENODATA), "result of removing an attribute");
            w.erase(n);
            break;
        }
        case 5:
        {
            size_t need = 0;
            std::multiset<std::string> ns;
            for (auto& p : w)
            {
                need += p.first.size() + 1;
                ns.insert(p.first);
            }
            d->xattrs["user.foreign"] = {1};
            d->xattrs["system.posix_acl_access"] = {1};
            check(f->listxattr(nullptr, 0) == (ssize_t)need, "the size query gives the length of the list");
            size_t size = irv_var("lsize", 1, need + 30);
            std::vector<char> b(size + 16, '\x5A');
            ssize_t rc = code([&] { return f->listxattr(b.data(), size); });
            if (size < need)
                check(rc == -ERANGE, "a short buffer is refused");
            else
                check(rc == (ssize_t)need && names_in(b.data(), rc) == ns, "every name once");
            for (size_t i = 0; i < 16; ++i)
                check(b[size + i] == '\x5A', "the buffer is not overrun");
            d->xattrs = bd;
            break;
        }
        default:
        {
            if (!w.count(n))
                break;
            std::string sn = stored_name(keys + 64, n);
            Bytes& x = irv_rand(2) && !d->xattrs[sn].empty() ? d->xattrs[sn] : m->xattrs[sn];
            switch (irv_var("how", 0, 2))
            {
            case 0:
                x[irv_rand(x.size())] ^= 1 << irv_rand(8);
                break;
            case 1:
                x.resize(irv_rand(x.size()));
                break;
            default:
                // the value of another attribute, with its own nonce and tag
                for (auto& q : w)
                    if (q.first != n && q.second != w[n])
                    {
                        std::string so = stored_name(keys + 64, q.first);
                        d->xattrs[sn] = d->xattrs[so];
                        m->xattrs[sn] = m->xattrs[so];
                    }
            }
            bool changed = d->xattrs != bd || m->xattrs != bm;
            Bytes buf(4000);
            bool refused = false;
            try
            {
                f->getxattr(n.c_str(), (char*)buf.data(), buf.size());
            }
            catch (const std::exception&)
            {
                refused = true;
            }
            check(refused == changed, "an altered value is refused");
            d->xattrs = bd;
            m->xattrs = bm;
            irv_cover("altered");
        }
        }
        check(d->xattrs.size() == w.size() && m->xattrs.size() == w.size(), "number of stored attributes");
    }
}
// names: encryption is deterministic, injective and invertible; anything else does not decrypt
BOUNDED(C14_names)
{
    uint8_t key[32];
    for (auto& c : key)
        c = irv_rand(256);
    AES_SIV siv(key, 32);
    std::string n = anyname();
    std::string e = generic_xattr::encrypt_xattr_name(siv, n);
    check(e == stored_name(key, n), "the stored name");
    auto r = generic_xattr::decrypt_xattr_name(siv, e);
    check(r.has_value() && *r == n, "the name reads back");
    std::string a = e;
    switch (irv_var("how", 0, 4))
    {
    case 0:
    {
        // the last character may carry unused bits
        size_t p = irv_rand(a.size() - 1);
        char c = "ABCxyz019-_"[irv_rand(11)];
        a[p] = a[p] == c ? '_' : c;
        if (a[p] == e[p])
            a[p] = 'Q';
        break;
    }
    case 1:
        a.resize(irv_rand(a.size()));
        break;
    case 2:
        a = a.substr(5);
        break;
    case 3:
        a = "User." + a.substr(5);
        break;
    default:
        a.insert(5, 1, 'A');
    }
    if (a != e)
        check(!generic_xattr::decrypt_xattr_name(siv, a).has_value(), "an altered name does not decrypt");
    irv_cover("names");
}
#endif
