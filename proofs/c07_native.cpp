// C07, bounded part: random histories of directories over in-memory storage, against a map.
#ifndef IRV
#include "nat_file.h"
#include "btree_dir.h"
#include "lock_guard.h"
#include "logger.h"
#include "mystring.h"
#include <cerrno>
#include <map>
using namespace nat;
using namespace securefs;
namespace
{
template <class D>
struct World
{
    bool fold;
    FileParams par;
    std::shared_ptr<MemFile> data = std::make_shared<MemFile>(), meta = std::make_shared<MemFile>();
    std::unique_ptr<D> d;
    struct E
    {
        std::string name;
        id_type id;
        int type;
    };
    std::map<std::string, E> m;
    std::vector<std::string> pool;
    bool checks_long = true;
    std::string key(std::string s) const
    {
        if (fold)
            for (char& c : s)
                if (c >= 'A' && c <= 'Z')
                    c += 32;
        return s;
    }
    void open() { d = par.make<D>(data, meta, Directory::DirNameComparison{fold ? &case_insensitive_compare : &binary_compare}); }
    World(bool f, unsigned names) : fold(f)
    {
        par.store = irv_rand(2);
        par.maxpad = irv_rand(3) ? 0 : 30;
        global_logger.reset();
        open();
        LockGuard<FileBase> lg(*d);
        d->initialize_empty(S_IFDIR | 0755, 1, 2);
        unsigned style = irv_rand(4);
        for (unsigned i = 0; i < names; ++i)
        {
            std::string s;
            size_t n = style == 0 ? 1 + irv_rand(4) : style == 1 ? 1 + irv_rand(255) : irv_rand(10) == 0 ? 250 + irv_rand(8) : 1 + irv_rand(30);
            for (size_t k = 0; k < n; ++k)
                s += fold ? "aAbBcCzZ019_.-"[irv_rand(14)] : style == 2 ? (char)(1 + irv_rand(255)) : (char)('a' + irv_rand(26));
            if (style == 3 && i && irv_rand(2))    // common prefixes
                s = pool[irv_rand(pool.size())].substr(0, 200) + s.substr(0, 3);
            pool.push_back(s);
        }
    }
    static id_type some_id()
    {
        id_type r;
        for (int i = 0; i < 32; ++i)
            r.data()[i] = irv_rand(256);
        return r;
    }
    template <class F>
    int call(F f)
    {
        try
        {
            f();
            return 0;
        }
        catch (const ExceptionBase& e)
        {
            return e.error_number();
        }
    }
    void look(const std::string& s)
    {
        id_type id{};
        int type = -1;
        std::optional<std::string> got;
        int rc = call([&]
                      {
                          if (auto g = d->get_entry(s, id, type))
                              got = std::string(*g);
                      });
        if (s.size() > 255)
        {
            irv_assert(rc == ENAMETOOLONG || (rc == 0 && !got), "no name is that long");
            return;
        }
        auto it = m.find(key(s));
        irv_assert(rc == 0 && !!got == (it != m.end()), "a name is found exactly if it was added and not removed");
        if (got)
            irv_assert(*got == it->second.name && id == it->second.id && type == it->second.type, "with its id and type");
    }
    void add(const std::string& s)
    {
        static const int types[] = {S_IFREG >> 12, S_IFDIR >> 12, S_IFLNK >> 12};
        E e{s, some_id(), types[irv_rand(3)]};
        bool ok = false;
        int rc = call([&] { ok = d->add_entry(s, e.id, e.type); });
        if (s.size() > 255)
        {
            irv_assert(rc == ENAMETOOLONG, "a name too long is refused");
            return;
        }
        irv_assert(rc == 0 && ok == !m.count(key(s)), "a name is added exactly if it is not there");
        if (ok)
            m[key(s)] = e;
    }
    void del(const std::string& s)
    {
        id_type id{};
        int type = -1;
        bool ok = false;
        int rc = call([&] { ok = d->remove_entry(s, id, type); });
        if (s.size() > 255)
        {
            irv_assert(rc == ENAMETOOLONG || (rc == 0 && !ok), "no name is that long");
            return;
        }
        auto it = m.find(key(s));
        irv_assert(rc == 0 && ok == (it != m.end()), "a name is removed exactly if it is there");
        if (ok)
        {
            irv_assert(id == it->second.id && type == it->second.type, "with its id and type");
            m.erase(it);
        }
    }
    void all()
    {
        std::map<std::string, E> left = m;
        d->iterate_over_entries(
            [&](const std::string& name, const id_type& id, int type)
            {
                auto it = left.find(key(name));
                irv_assert(it != left.end(), "every entry is listed once");
                irv_assert(it->second.name == name && it->second.id == id && it->second.type == type, "as it was added");
                left.erase(it);
                return true;
            });
        irv_assert(left.empty(), "every entry is listed");
        irv_assert(d->empty() == m.empty(), "a directory is empty exactly if it has no entry");
    }
    void again()
    {
        {
            LockGuard<FileBase> lg(*d);
            d->flush();
        }
        d.reset();
        open();
        irv_assert(d->get_mode() == (S_IFDIR | 0755), "the directory is what it was");
        irv_cover("reopened");
    }
    void run(unsigned steps)
    {
        for (unsigned i = 0; i < steps;)
        {
            // phases with more or fewer additions
            unsigned weight = irv_rand(4), len = 1 + irv_rand(steps);
            for (unsigned k = 0; k < len && i < steps; ++k, ++i)
            {
                auto& s = pool[irv_rand(pool.size())];
                {
                    LockGuard<FileBase> lg(*d);
                    switch (irv_rand(5))
                    {
                    case 0:
                        look(s);
                        break;
                    case 1:
                        if (irv_rand(20) == 0)
                        {
                            d->flush();
                            break;
                        }
                        if (irv_rand(20) == 0)
                        {
                            all();
                            break;
                        }
                    default:
                        if (irv_rand(4) < weight)
                            add(s);
                        else if (!m.empty() && irv_rand(2))
                        {
                            auto it = m.lower_bound(key(s));
                            del(it == m.end() ? m.begin()->second.name : std::string(it->second.name));
                        }
                        else
                            del(s);
                    }
                    irv_assert(d->empty() == m.empty(), "a directory is empty exactly if it has no entry");
                }
                if (irv_rand(200) == 0)
                    again();
            }
            if (irv_rand(2))
                again();
            LockGuard<FileBase> lg(*d);
            all();
        }
        if (irv_rand(2))
        {
            // to the end
            LockGuard<FileBase> lg(*d);
            while (!m.empty())
            {
                auto it = irv_rand(2) ? m.begin() : m.lower_bound(key(pool[irv_rand(pool.size())]));
                del(it == m.end() ? m.rbegin()->second.name : std::string(it->second.name));
            }
            all();
            irv_cover("emptied");
        }
        again();
        LockGuard<FileBase> lg(*d);
        for (auto& s : pool)
            look(s);
        all();
    }
};
template <class D>
void history(bool fold, unsigned names, unsigned steps)
{
    World<D> w(fold, names);
    w.run(steps);
}
}    // namespace
BOUNDED(C07_small)
{
    unsigned n = irv_var("names", 1, 60);
    history<BtreeDirectory>(irv_var("fold", 0, 1), n, irv_var("steps", 1, 200));
}
BOUNDED(C07_large)
{
    unsigned n = irv_var("names", 200, 2500);
    history<BtreeDirectory>(irv_var("fold", 0, 1), n, irv_var("steps", 500, 6000));
}
BOUNDED(C07_ordered)
{
    // in ascending or descending order, removed from one end, the other or the middle
    World<BtreeDirectory> w(irv_var("fold", 0, 1), 1);
    unsigned n = irv_var("names", 1, 1500);
    bool up = irv_var("up", 0, 1);
    unsigned how = irv_var("how", 0, 3);
    LockGuard<FileBase> lg(*w.d);
    for (unsigned i = 0; i < n; ++i)
    {
        char b[20];
        snprintf(b, 20, "n%06u", up ? i : n - i);
        w.add(b);
        if (irv_rand(100) == 0)
            w.all();
    }
    w.all();
    w.d->flush();
    while (!w.m.empty())
    {
        auto it = how == 0 ? w.m.begin() : how == 1 ? std::prev(w.m.end()) : std::next(w.m.begin(), how == 2 ? w.m.size() / 2 : irv_rand(w.m.size()));
        w.del(std::string(it->second.name));
        if (irv_rand(60) == 0)
            w.all();
        if (irv_rand(300) == 0)
            w.d->flush();
    }
    w.all();
    irv_cover("emptied");
}
BOUNDED(C07_simple)
{
    unsigned n = irv_var("names", 1, 60);
    history<SimpleDirectory>(irv_var("fold", 0, 1), n, irv_var("steps", 1, 200));
}
#endif
