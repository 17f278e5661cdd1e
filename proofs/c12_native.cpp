// C12, bounded part: random histories of operations of the lite format on a scratch directory (as an unprivileged
// user), against a model of the tree.
#ifndef IRV
#define NAT_RANDOM
#include "nat_file.h"
#include "internal_mount.h"
#include "lite_format.h"
#include "lite_long_name_lookup_table.h"
#include "lock_guard.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
using namespace nat;
using namespace securefs;
namespace
{
struct Node
{
    int type;    // S_IFREG, S_IFDIR, S_IFLNK
    Bytes data;
    std::string target;
    unsigned mode = 0;
    std::map<std::string, std::shared_ptr<Node>> kids;
    bool table = false;    // a long name was stored here at some time
};
typedef std::shared_ptr<Node> N;
void wipe(const std::string& d)
{
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
            {
                wipe(p);
                rmdir(p.c_str());
            }
            else
                unlink(p.c_str());
        }
        closedir(h);
    }
}
// what the underlying file system holds: names, types, sizes and the entries of the tables
void snap(const std::string& d, const std::string& rel, std::map<std::string, std::string>& out)
{
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name, p = d + "/" + n;
            if (n == "." || n == "..")
                continue;
            struct stat st;
            if (lstat(p.c_str(), &st))
                continue;
            if (n.compare(0, 14, ".long_names.db") == 0)
            {
                if (n != ".long_names.db")
                    continue;
                LongNameLookupTable t(p, true);
                std::string all;
                try
                {
                    auto v = t.list_hashes();
                    std::sort(v.begin(), v.end());
                    for (auto& s : v)
                        all += s + "=" + t.lookup(s) + ";";
                }
                catch (const std::exception&)
                {
                }
                if (!all.empty())
                    out[rel + "/" + n] = all;
                continue;
            }
            out[rel + "/" + n] = std::to_string(st.st_mode) + ":" + std::to_string(S_ISDIR(st.st_mode) ? 0 : st.st_size) + ":" + std::to_string(st.st_ino);
            if (S_ISDIR(st.st_mode))
                snap(p, rel + "/" + n, out);
        }
        closedir(h);
    }
}
// the long names the tables below a directory know
size_t known(const std::string& d)
{
    size_t r = 0;
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name, p = d + "/" + n;
            struct stat st;
            if (n == "." || n == ".." || lstat(p.c_str(), &st))
                continue;
            if (n == ".long_names.db")
                try
                {
                    LongNameLookupTable t(p, true);
                    r += t.list_hashes().size();
                }
                catch (const std::exception&)
                {
                }
            else if (S_ISDIR(st.st_mode))
                r += known(p);
        }
        closedir(h);
    }
    return r;
}
struct Lister
{
    std::multiset<std::string> names;
    std::map<std::string, unsigned> types;
    static int fill(void* b, const char* name, const fuse_stat* st, fuse_off_t)
    {
        auto* l = (Lister*)b;
        l->names.insert(name);
        if (st)
            l->types[name] = st->st_mode & S_IFMT;
        return 0;
    }
};
struct World
{
    std::string dir, suffix;
    unsigned threshold = 0, padding = 0;
    bool plain = false;
    std::shared_ptr<FuseHighLevelOpsBase> ops;
    std::shared_ptr<lite_format::NameTranslator> nt;
    key_type k1, k2, k3;
    N root = std::make_shared<Node>();
    std::vector<std::string> names;
    void make()
    {
        lite_format::NameNormalizationFlags fl{};
        fl.no_op = plain;
        fl.long_name_threshold = threshold;
        fl.long_name_suffix = suffix;
        nt = lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(k1));
        ops.reset();
        if (irv_rand(2))
        {
            // as the mount command builds it: the same keys and sizes reach the same places
            DecryptedSecurefsParams pr;
            auto str = [](const key_type& k) { return std::string((const char*)k.data(), k.size()); };
            pr.mutable_size_params()->set_block_size(64);
            pr.mutable_size_params()->set_iv_size(12);
            pr.mutable_size_params()->set_max_padding_size(padding);
            auto* l = pr.mutable_lite_format_params();
            l->set_name_key(str(k1));
            l->set_content_key(str(k2));
            l->set_padding_key(str(k3));
            l->set_xattr_key(str(k2));
            l->set_long_name_threshold(threshold);
            l->set_long_name_suffix(suffix);
            MountOptions mo;
            mo.set_plain_text_names(plain);
            mo.set_allow_sensitive_logging(irv_rand(2));
            auto os = std::make_shared<OSService>(dir);
            ops = irv_rand(2) ? std::shared_ptr<FuseHighLevelOpsBase>(make_lite_format_fuse_high_level_ops(os, pr, mo))
                              : make_fuse_high_level_ops(os, pr, mo);
            return;
        }
        auto opener = std::shared_ptr<lite_format::StreamOpener>(new lite_format::StreamOpener(
            StrongType<key_type, tContentMasterKey>(k2), StrongType<key_type, tPaddingMasterKey>(k3), StrongType<unsigned, tBlockSize>(64),
            StrongType<unsigned, tIvSize>(12), StrongType<unsigned, tMaxPaddingSize>(padding), StrongType<bool, tVerify>(true)));
        auto xc = std::make_shared<lite_format::XattrCryptor>(StrongType<key_type, tXattrMasterKey>(k2), StrongType<unsigned, tIvSize>(12),
                                                              StrongType<bool, tVerify>(true));
        ops.reset(new lite_format::FuseHighLevelOps(std::make_shared<OSService>(dir), opener, nt, xc, StrongType<key_type, tXattrMasterKey>(k2),
                                                    StrongType<bool, tEnableXattr>(false)));
    }
    World(const std::string& base, int kind)
    {
        dir = base + "/root";
        wipe(dir);
        mkdir(dir.c_str(), 0755);
        for (auto* k : {&k1, &k2, &k3})
            for (int i = 0; i < 32; ++i)
                k->data()[i] = irv_rand(256);
        plain = kind == 0;
        threshold = kind == 1 ? 0 : 20;
        suffix = kind == 3 ? ".xlong" : "";
        padding = irv_var("pad", 0, 2) ? 0 : 30;
        root->type = S_IFDIR;
        make();
        bool even = irv_rand(2);    // names of one length
        while (names.size() < 4)
        {
            std::string c = name(names.size() >= 2);
            if (even && names.size() % 2)
                c.resize(names.back().size(), 'e');
            if (std::find(names.begin(), names.end(), c) == names.end())
                names.push_back(c);
        }
        // some directories to begin with
        unsigned some = irv_var("dirs", 0, 15);
        for (unsigned i = 0; i < names.size(); ++i)
            if (some >> i & 1)
            {
                N d = std::make_shared<Node>();
                d->type = S_IFDIR;
                check(call([&] { return ops->vmkdir(("/" + names[i]).c_str(), 0755, nullptr); }) == 0, "a directory is made");
                if (!root->kids.count(names[i]))
                    root->kids[names[i]] = d;
                root->table = root->table || is_long(names[i]);
            }
    }
    std::string name(bool lng)
    {
        std::string s;
        unsigned n = lng ? irv_var("namelen", 21, 60) : irv_var("namelen", 1, 20);
        for (unsigned i = 0; i < n; ++i)
            s.push_back("abcXYZ_0 ."[irv_rand(10)]);
        s[0] = 'a' + irv_rand(26);
        return s;
    }
    bool is_long(const std::string& n) const { return !plain && threshold && n.size() > threshold; }
    // a path, mostly of things that exist
    std::string pick()
    {
        std::string p;
        N n = root;
        for (int d = 0; d < 3; ++d)
        {
            std::string c = names[irv_var("name", 0, 3)];
            p += "/" + c;
            auto it = n->kids.find(c);
            if (it == n->kids.end() || it->second->type != S_IFDIR || irv_rand(3) == 0)
                break;
            n = it->second;
        }
        N e = get(p);
        if (irv_rand(12) == 0 && !(e && e->type == S_IFLNK))    // FUSE resolves links before it asks
            p += "/" + names[irv_rand(4)];
        return p;
    }
    static std::string last(const std::string& p) { return p.substr(p.rfind('/') + 1); }
    N get(const std::string& p, N* parent = nullptr) const
    {
        N n = root;
        size_t i = 1;
        for (;;)
        {
            size_t e = p.find('/', i);
            std::string c = p.substr(i, e == std::string::npos ? e : e - i);
            if (n->type != S_IFDIR)
            {
                if (parent)
                    *parent = nullptr;
                return nullptr;
            }
            if (parent)
                *parent = n;
            auto it = n->kids.find(c);
            N m = it == n->kids.end() ? nullptr : it->second;
            if (e == std::string::npos)
                return m;
            if (!m || m->type != S_IFDIR)
            {
                if (parent)
                    *parent = nullptr;
                return nullptr;
            }
            n = m;
            i = e + 1;
        }
    }
    static bool below(const N& a, const N& b)
    {
        if (a == b)
            return true;
        for (auto& k : a->kids)
            if (k.second->type == S_IFDIR && below(k.second, b))
                return true;
        return false;
    }
    void other(const N& n, const std::string& at, const N& d, const std::string& p, std::string& q) const
    {
        for (auto& k : d->kids)
            if (k.second == n && at + "/" + k.first != p)
                q = at + "/" + k.first;
            else if (k.second->type == S_IFDIR)
                other(n, at + "/" + k.first, k.second, p, q);
    }
    unsigned links(const N& n, const N& at) const
    {
        unsigned r = 0;
        for (auto& k : at->kids)
            r += k.second == n ? 1 : k.second->type == S_IFDIR ? links(n, k.second) : 0;
        return r;
    }
    int call(const std::function<int()>& f)
    {
        try
        {
            return f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception&)
        {
            return -EIO;
        }
    }
    // the file system shows exactly the model
    void verify()
    {
        walk("", root);
        check(plain || known(dir) == longs(root), "the tables know exactly the long names that are there");
    }
    size_t longs(const N& n) const
    {
        size_t r = 0;
        for (auto& k : n->kids)
            r += is_long(k.first) + (k.second->type == S_IFDIR ? longs(k.second) : 0);
        return r;
    }
    void walk(const std::string& p, const N& n)
    {
        fuse_file_info fi{};
        std::string path = p.empty() ? "/" : p;
        check(call([&] { return ops->vopendir(path.c_str(), &fi, nullptr); }) == 0, "a directory opens");
        std::multiset<std::string> want{".", ".."};
        for (auto& k : n->kids)
            want.insert(k.first);
        for (int pass = 0; pass < 2; ++pass)
        {
            Lister l;
            check(call([&] { return ops->vreaddir(path.c_str(), &l, &Lister::fill, 0, &fi, nullptr); }) == 0, "a directory is listed");
            check(l.names == want, "a listing shows exactly the entries, each once");
            for (auto& k : n->kids)
                check(l.types[k.first] == (unsigned)k.second->type, "the listed type is that of the entry");
        }
        ops->vreleasedir(path.c_str(), &fi, nullptr);
        for (auto& k : n->kids)
        {
            std::string c = p + "/" + k.first;
            const N& m = k.second;
            fuse_stat st{};
            check(call([&] { return ops->vgetattr(c.c_str(), &st, nullptr); }) == 0, "an entry has attributes");
            check((st.st_mode & S_IFMT) == (unsigned)m->type, "type of an entry");
            if (m->type == S_IFDIR)
                walk(c, m);
            else if (m->type == S_IFREG)
            {
                check(st.st_size == (off_t)m->data.size(), "the size reported is that of the plain text");
                check(st.st_nlink == links(m, root), "link count");
                check((st.st_mode & 07777) == m->mode, "permissions");
                fuse_file_info ff{};
                ff.flags = irv_rand(2) ? O_RDONLY : O_RDWR;
                check(call([&] { return ops->vopen(c.c_str(), &ff, nullptr); }) == 0, "a file opens");
                fuse_stat s2{};
                check(call([&] { return ops->vfgetattr(c.c_str(), &s2, &ff, nullptr); }) == 0 && s2.st_size == (off_t)m->data.size(), "size of an open file");
                Bytes b(m->data.size() + 10, 0xEE);
                int r = call([&] { return ops->vread(c.c_str(), (char*)b.data(), b.size(), 0, &ff, nullptr); });
                check(r == (int)m->data.size(), "a file is read to its end");
                b.resize(m->data.size());
                check(b == m->data, "contents of a file");
                check(call([&] { return ops->vrelease(c.c_str(), &ff, nullptr); }) == 0, "a file closes");
            }
            else
            {
                check(st.st_size == (off_t)m->target.size(), "the size of a link is that of its target");
                std::vector<char> b(4097, 1);
                check(call([&] { return ops->vreadlink(c.c_str(), b.data(), b.size(), nullptr); }) == 0, "a link is read");
                check(m->target == b.data(), "target of a link");
                // a buffer that is too short, when what is stored still fits the one inside
                size_t room = 2 + irv_rand(m->target.size() + 2);
                std::vector<char> few(room, 1);
                if (nt->encrypt_path_for_symlink(m->target).size() <= 2 * room + 126)
                    check(call([&] { return ops->vreadlink(c.c_str(), few.data(), room, nullptr); }) == 0 && few[room - 1] == 0
                              && m->target.substr(0, room - 1) == few.data(),
                          "as much of a target as there is room for");
            }
        }
    }
    void junk()
    {
        // names that are no translation of anything
        if (plain)
            return;
        std::vector<std::string> v{"AAAA", ".hidden", "zzzz", "not base32!", "ABCDEFGHIJKMNPQRSTUVWXYZ23456789ABCDEFGH"};
        if (threshold)
            v.push_back("ABCDEFGHIJKMNPQR" + (suffix.empty() ? std::string("...") : suffix));
        for (auto& s : v)
            if (irv_rand(2))
            {
                int fd = ::open((dir + "/" + s).c_str(), O_CREAT | O_WRONLY, 0600);
                if (fd >= 0)
                    ::close(fd);
            }
    }
    void step()
    {
        std::string p = pick(), q;
        N par, n = get(p, &par);
        std::map<std::string, std::string> before, after;
        snap(dir, "", before);
        int rc = 0;
        bool must = false;       // whether the operation has to succeed
        bool either = false;     // either is right
        std::set<int> errs;      // how it may fail
        auto missing = [&](const std::string& path, const N& parent)
        {
            errs = {ENOENT, ENOTDIR};
            if (is_long(last(path)))
                errs = {};    // the table cannot be opened
            (void)parent;
        };
        int op = irv_var("op", 0, 11);
        N fresh = std::make_shared<Node>();
        std::function<void()> effect = [] {};
        auto creation = [&](const std::string& at, const N& parent, const N& there)
        {
            if (!parent)
                missing(at, parent);
            else if (there)
                errs = {EEXIST};
            else
                must = true;
        };
        switch (op)
        {
        case 0:
        case 1:
        {
            fuse_file_info fi{};
            creation(p, par, n);
            rc = call([&] { return ops->vcreate(p.c_str(), 0640, &fi, nullptr); });
            fresh->type = S_IFREG;
            fresh->mode = 0640;
            if (rc == 0)
            {
                fresh->data = bytes(irv_var("size", 0, 300) + (irv_rand(16) ? 0 : 131072 + irv_rand(70000)));
                given().clear();
                if (!fresh->data.empty())
                    check(call([&] { return ops->vwrite(p.c_str(), (char*)fresh->data.data(), fresh->data.size(), 0, &fi, nullptr); }) == (int)fresh->data.size(), "a new file is written");
                check(call([&] { return ops->vflush(p.c_str(), &fi, nullptr); }) == 0, "a file is flushed");
                ops->vrelease(p.c_str(), &fi, nullptr);
            }
            effect = [&] { par->kids[last(p)] = fresh; };
            break;
        }
        case 2:
        case 3:
            creation(p, par, n);
            rc = call([&] { return ops->vmkdir(p.c_str(), 0755, nullptr); });
            fresh->type = S_IFDIR;
            effect = [&] { par->kids[last(p)] = fresh; };
            break;
        case 4:
            if (!par)
                missing(p, par);
            else if (!n)
                errs = {ENOENT};
            else if (n->type == S_IFDIR)
                errs = {EISDIR, EPERM};
            else
                must = true;
            rc = call([&] { return ops->vunlink(p.c_str(), nullptr); });
            effect = [&] { par->kids.erase(last(p)); };
            break;
        case 5:
            if (!par)
                missing(p, par);
            else if (!n)
                errs = {ENOENT};
            else if (n->type != S_IFDIR)
                errs = {ENOTDIR};
            else if (!n->kids.empty())
                errs = {ENOTEMPTY, EEXIST};
            else
                must = true;
            rc = call([&] { return ops->vrmdir(p.c_str(), nullptr); });
            effect = [&] { par->kids.erase(last(p)); };
            break;
        case 6:
        case 7:
        {
            q = pick();
            if (irv_rand(2) && std::count(p.begin(), p.end(), '/') > 1)    // into a directory beside this one
            {
                std::string d = "/" + names[irv_rand(4)];
                N e = get(d);
                if (e && e->type == S_IFDIR)
                    q = d + "/" + (irv_rand(2) ? last(p) : names[irv_rand(4)]);
            }
            if (n && n->type == S_IFREG && irv_rand(2))    // another link of the same file
                other(n, "", root, p, q);
            N qpar, m = get(q, &qpar);
            if (!par || !qpar)
                errs = {};
            else if (!n)
                errs = {ENOENT};
            else if (n->type == S_IFDIR && n != m && below(n, qpar))
                errs = {EINVAL};
            else if (p == q || !m)
                must = true;
            else if (n->type == S_IFDIR && m->type != S_IFDIR)
                errs = {ENOTDIR};
            else if (n->type != S_IFDIR && m->type == S_IFDIR)
                errs = {EISDIR, EEXIST, ENOTEMPTY};
            else if (m->type == S_IFDIR && !m->kids.empty())
                errs = {ENOTEMPTY, EEXIST};
            else if (m->type == S_IFDIR && m->table)
                either = true;
            else
                must = true;
            rc = call([&] { return ops->vrename(p.c_str(), q.c_str(), nullptr); });
            for (auto& d : {par, qpar})    // both tables are opened, and so made
                if (d && (is_long(last(p)) || is_long(last(q))))
                    d->table = true;
            bool one = n && n == m;
            effect = [this, p, q, par, qpar, n, one]
            {
                if (p == q || one)
                    return;    // two links of one file: nothing happens
                par->kids.erase(last(p));
                qpar->kids[last(q)] = n;
                if (is_long(last(q)))
                    qpar->table = true;
            };
            break;
        }
        case 8:
        {
            std::string t;
            unsigned l = irv_var("target", 1, 120);
            for (unsigned i = 0; i < l; ++i)
                t.push_back("abc/./_Z"[irv_rand(8)]);
            creation(p, par, n);
            rc = call([&] { return ops->vsymlink(t.c_str(), p.c_str(), nullptr); });
            fresh->type = S_IFLNK;
            fresh->target = t;
            effect = [&] { par->kids[last(p)] = fresh; };
            break;
        }
        case 9:
        {
            q = pick();
            N qpar, m = get(q, &qpar);
            if (n && n->type != S_IFREG)
                return;
            if (!par || !qpar || (!n && m))
                errs = {};
            else if (!n)
                errs = {ENOENT};
            else if (m)
                errs = {EEXIST};
            else
                must = true;
            rc = call([&] { return ops->vlink(p.c_str(), q.c_str(), nullptr); });
            if (rc == 0 && must && irv_rand(3) == 0)
            {
                int r = call([&] { return ops->vrename(p.c_str(), q.c_str(), nullptr); });
                check(r == 0, "renaming a link onto another one of its file");
            }
            effect = [this, q, qpar, n]
            {
                qpar->kids[last(q)] = n;
                if (is_long(last(q)))
                    qpar->table = true;
            };
            break;
        }
        case 10:
        {
            // an existing file is opened, written somewhere, resized
            if (n && n->type != S_IFREG)
                return;
            fuse_file_info fi{};
            fi.flags = (irv_rand(2) ? O_WRONLY : O_RDWR) | (irv_rand(3) ? 0 : O_TRUNC) | (irv_rand(3) ? 0 : O_APPEND);
            must = n != nullptr;
            errs = {ENOENT, ENOTDIR};
            rc = call([&] { return ops->vopen(p.c_str(), &fi, nullptr); });
            if (rc == 0 && n)
            {
                Model md;
                if (!(fi.flags & O_TRUNC))
                    md.write(n->data, 0);
                given().clear();
                for (int i = irv_var("edits", 0, 2); i > 0; --i)
                {
                    if (irv_rand(3))
                    {
                        Bytes b = bytes(1 + irv_rand(100));
                        uint64_t off = irv_rand(200);
                        check(call([&] { return ops->vwrite(p.c_str(), (char*)b.data(), b.size(), off, &fi, nullptr); }) == (int)b.size(), "a file is written");
                        md.write(b, off);
                    }
                    else
                    {
                        uint64_t sz = irv_rand(250);
                        check(call([&] { return ops->vftruncate(p.c_str(), sz, &fi, nullptr); }) == 0, "a file is resized");
                        md.resize(sz);
                    }
                }
                check(call([&] { return ops->vfsync(p.c_str(), 0, &fi, nullptr); }) == 0, "a file is synchronised");
                ops->vrelease(p.c_str(), &fi, nullptr);
                n->data.resize(md.sz);
                for (uint64_t i = 0; i < md.sz; ++i)
                    n->data[i] = md.get(i);
            }
            break;
        }
        default:
        {
            if (n && n->type != S_IFREG)
                return;
            must = n != nullptr;
            errs = {ENOENT, ENOTDIR};
            if (irv_rand(2))
            {
                uint64_t sz = irv_rand(250);
                given().clear();
                rc = call([&] { return ops->vtruncate(p.c_str(), sz, nullptr); });
                effect = [n, sz] { n->data.resize(sz); };
            }
            else
            {
                unsigned mode = 0600 | irv_rand(0100);
                rc = call([&] { return ops->vchmod(p.c_str(), mode, nullptr); });
                effect = [n, mode] { n->mode = mode; };
            }
        }
        }
        std::string what = "operation " + std::to_string(op);
        check(rc <= 0, what + " returns 0 or an error");
        if (!either)
            check((rc == 0) == must, what + (must ? " succeeds" : " fails"));
        if (rc == 0)
        {
            effect();
            if (par && is_long(last(p)) && op < 4)
                par->table = true;
            if (par && is_long(last(p)) && op >= 6 && op <= 8)
                par->table = true;
        }
        else
        {
            if (!errs.empty())
                check(errs.count(-rc) > 0, what + " fails with the right error");
            if (par)
                par->table = par->table || is_long(last(p));
            if (!q.empty())
            {
                N qpar;
                get(q, &qpar);
                if (qpar)
                    qpar->table = qpar->table || is_long(last(q));
            }
            snap(dir, "", after);
            check(before == after, what + " that fails changes nothing");
        }
        N now = get(p);
        if (now && now->type == S_IFLNK)
            return;
        fuse_stat st{};
        std::string none = p + "/nothing here";
        int e = call([&] { return ops->vgetattr(none.c_str(), &st, nullptr); });
        check(e == -ENOENT || e == -ENOTDIR, "what is not there has no attributes");
    }
};
void history(int kind)
{
    std::string base = irv_private();
    check(!base.empty(), "a scratch directory");
    zero_draws() = 0;
    World w(base, kind);
    if (irv_var("junk", 0, 1))
        w.junk();
    unsigned k = irv_var("ops", 1, 24);
    for (unsigned i = 0; i < k; ++i)
    {
        w.step();
        if (irv_rand(3) == 0)
            w.verify();
        if (irv_rand(8) == 0)
            w.make();    // mounted again
    }
    w.verify();
    irv_cover("a history");
}
}    // namespace
BOUNDED(C12_plain) { history(0); }
BOUNDED(C12_legacy) { history(1); }
BOUNDED(C12_modern) { history(2); }
BOUNDED(C12_suffix) { history(3); }
// the one history of the known finding; the histories above accept either result of such a rename
BOUNDED(C12_replace_emptied)
{
    std::string base = irv_private();
    zero_draws() = 0;
    World w(base, 2);
    std::string lng(30, 'l');
    fuse_file_info fi{};
    check(w.call([&] { return w.ops->vmkdir("/1", 0755, nullptr) | w.ops->vmkdir("/2", 0755, nullptr) | w.ops->vcreate(("/2/" + lng).c_str(), 0644, &fi, nullptr); }) == 0, "made");
    check(w.call([&] { return w.ops->vrelease(("/2/" + lng).c_str(), &fi, nullptr) | w.ops->vunlink(("/2/" + lng).c_str(), nullptr); }) == 0, "removed");
    check(w.call([&] { return w.ops->vrename("/1", "/2", nullptr); }) == 0, "an empty directory is replaced");
}
#endif
