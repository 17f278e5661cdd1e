// C07: the pages of a directory, the list of free pages and the cache of nodes.
// irv: contract ^securefs::BtreeDirectory::read_free_page\( => c_read_free
// irv: original ^securefs::BtreeDirectory::read_free_page\( => orig_read_free
// irv: contract ^securefs::BtreeDirectory::write_free_page\( => c_write_free
// irv: original ^securefs::BtreeDirectory::write_free_page\( => orig_write_free
// irv: contract ^securefs::BtreeDirectory::read_node\( => c_read_node
// irv: original ^securefs::BtreeDirectory::read_node\( => orig_read_node
// irv: contract ^securefs::BtreeDirectory::write_node\( => c_write_node
// irv: original ^securefs::BtreeDirectory::write_node\( => orig_write_node
// irv: contract ^securefs::BtreeNode::from_buffer\( => c_from
// irv: original ^securefs::BtreeNode::from_buffer\( => orig_from
// irv: contract ^securefs::BtreeNode::to_buffer\( => c_to
// irv: original ^securefs::BtreeNode::to_buffer\( => orig_to
// irv: contract ^securefs::BtreeDirectory::deallocate_page\( => c_deallocate
// irv: original ^securefs::BtreeDirectory::deallocate_page\( => orig_deallocate
// irv: contract ^void securefs::BtreeDirectory::recursive_iterate<.*int\)$ => c_iterate
// irv: original ^void securefs::BtreeDirectory::recursive_iterate<.*int\)$ => orig_iterate
// irv: assumes a hash map of nodes keeps what is stored under one page apart from what is stored under others
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include "absl/shim.h"
#include <array>
#include <map>
#include <optional>
#include <thread>
#include <atomic>
#include <chrono>
namespace absl
{
// a map of a few keys, in any order a hash map may have
template <class K, class V>
class FewMap
{
    using E = std::pair<const K, V>;
    E* slot_[20];
    int n_;

public:
    struct iterator
    {
        E** p;
        E& operator*() const { return **p; }
        E* operator->() const { return *p; }
        iterator& operator++()
        {
            ++p;
            return *this;
        }
        bool operator==(const iterator& o) const { return p == o.p; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    using const_iterator = iterator;
    FewMap() : n_(0) {}
    ~FewMap() { clear(); }
    iterator begin() const { return {const_cast<E**>(slot_)}; }
    iterator end() const { return {const_cast<E**>(slot_) + n_}; }
    iterator find(const K& k) const
    {
        for (int i = 0; i < n_; ++i)
            if (slot_[i]->first == k)
                return {const_cast<E**>(slot_) + i};
        return end();
    }
    bool contains(const K& k) const { return find(k) != end(); }
    size_t count(const K& k) const { return contains(k); }
    size_t size() const { return n_; }
    bool empty() const { return !n_; }
    template <class W>
    std::pair<iterator, bool> emplace(const K& k, W&& v)
    {
        auto it = find(k);
        if (it != end())
            return {it, false};
        slot_[n_++] = new E(k, std::forward<W>(v));
        return {iterator{slot_ + n_ - 1}, true};
    }
    template <class W>
    std::pair<iterator, bool> try_emplace(const K& k, W&& v)
    {
        return emplace(k, std::forward<W>(v));
    }
    V& operator[](const K& k)
    {
        auto it = find(k);
        if (it == end())
            it = emplace(k, V()).first;
        return it->second;
    }
    void erase(iterator it)
    {
        delete *it.p;
        *it.p = slot_[--n_];
    }
    size_t erase(const K& k)
    {
        auto it = find(k);
        if (it == end())
            return 0;
        erase(it);
        return 1;
    }
    void clear()
    {
        while (n_)
            delete slot_[--n_];
    }
};
}
#define flat_hash_map FewMap
#define private public
#define protected public
#include "btree_dir.cpp"
#undef private
#undef protected
#undef flat_hash_map
#include "stream_spec.h"
using namespace securefs;
namespace securefs
{
FileBase::~FileBase() {}
void FileBase::throw_invalid_cast(int to) { throw VFSException(error_number_for_not(to)); }
int FileBase::get_real_type() { return 4; }
}
static const int M = BTREE_MAX_NUM_ENTRIES;
static const uint64_t PAGE = 4096;
struct Seen
{
    uint64_t id[4];
    uint32_t type;
};
static struct
{
    BtreeDirectory* d;
    spec::SpecStream* s;
    uint8_t* page;    // what from_buffer sees
    uint64_t at;
    uint32_t pg[3];    // the pages of interest in the list of free pages
    BtreeDirectory::FreePage free[3];
    int writes[3], reads, froms, tos, node_reads, node_writes, frees;
    uint32_t read_page, freed;
    BtreeNode* read_into;
    uint32_t written[4];
    Seen seen[M + 1];
    int count;
    uint32_t visited[M + 2];
    int visits;
} X;
static int choose(const char* name, int lo, int hi) { return (int)irv_concretize(irv_var(name, lo, hi)); }
static BtreeDirectory* world()
{
    memset(&X, 0, sizeof X);
    X.d = (BtreeDirectory*)malloc(sizeof(BtreeDirectory));
    memset(X.d, 0, sizeof(BtreeDirectory));
    X.s = new spec::SpecStream;
    new (&X.d->m_stream) std::shared_ptr<StreamBase>(X.s);
    new (&X.d->m_node_cache) decltype(X.d->m_node_cache)();
    return X.d;
}
static int which(uint32_t pg)
{
    for (int i = 0; i < 3; ++i)
        if (irv_split(X.pg[i] == pg))
            return i;
    irv_assert(false, "only the pages next to it in the list are touched");
    return 0;
}
extern "C"
{
    void c_read_free(BtreeDirectory*, uint32_t pg, BtreeDirectory::FreePage* fp)
    {
        ++X.reads;
        *fp = X.free[which(pg)];
    }
    void c_write_free(BtreeDirectory*, uint32_t pg, const BtreeDirectory::FreePage* fp)
    {
        int i = which(pg);
        X.free[i] = *fp;
        ++X.writes[i];
    }
    bool c_read_node(BtreeDirectory*, uint32_t pg, BtreeNode* n)
    {
        ++X.node_reads;
        X.read_page = pg;
        X.read_into = n;
        return true;
    }
    void c_write_node(BtreeDirectory*, uint32_t pg, const BtreeNode* n)
    {
        irv_assert(n->m_num == pg && X.node_writes < 4, "a node is written to its page");
        X.written[X.node_writes++] = pg;
    }
    bool c_from(BtreeNode*, const byte* p, size_t n)
    {
        ++X.froms;
        irv_assert(n == PAGE, "the whole page is read");
        if (uint64_t k = irv_var("k", 0, PAGE - 1); k < n)
            irv_assert(p[k] == X.s->d[X.at + k], "a node is read from its page");
        return true;
    }
    void c_to(const BtreeNode*, byte* p, size_t n)
    {
        ++X.tos;
        irv_assert(n == PAGE, "the whole page is written");
        memcpy(p, X.page, PAGE);
    }
    void c_deallocate(BtreeDirectory*, uint32_t pg)
    {
        ++X.frees;
        X.freed = pg;
    }
    void c_iterate(BtreeDirectory* d, const BtreeNode* n, const Directory::callback* cb, int depth)
    {
        irv_assert(d == X.d && depth == (int)X.at, "one level below");
        X.visited[X.visits++] = n->m_num;
    }
    void orig_read_free(BtreeDirectory*, uint32_t, BtreeDirectory::FreePage*);
    void orig_write_free(BtreeDirectory*, uint32_t, const BtreeDirectory::FreePage*);
    bool orig_read_node(BtreeDirectory*, uint32_t, BtreeNode*);
    void orig_write_node(BtreeDirectory*, uint32_t, const BtreeNode*);
    bool orig_from(BtreeNode*, const byte*, size_t);
    void orig_to(const BtreeNode*, byte*, size_t);
    void orig_deallocate(BtreeDirectory*, uint32_t);
    void orig_iterate(BtreeDirectory*, const BtreeNode*, const Directory::callback*, int);
}
static uint32_t u32(const uint8_t* p)
{
    uint32_t v;
    memcpy(&v, p, 4);
    return v;
}
PROOF(C07_read_page)
{
    auto* d = world();
    uint32_t pg = (uint32_t)irv_var("page", 0, 0xFFFFFFFEu);
    X.s->sz = irv_var("size", 0, spec::STREAM_CAP / 2);
    X.at = pg * PAGE;
    BtreeNode n(7, pg);
    try
    {
        bool r = orig_read_node(d, pg, &n);
        irv_assert(r && X.froms == 1 && X.at + PAGE <= X.s->sz, "a page of the stream is read");
        irv_assert(X.s->last_off == X.at && X.s->last_len == PAGE, "at its place");
        irv_cover("read");
    }
    catch (const CorruptedDirectoryException&)
    {
        irv_assert(X.at + PAGE > X.s->sz, "only a page that is not there is refused");
        irv_cover("refused");
    }
    irv_assert(!X.s->writes && !X.s->resizes, "reading writes nothing");
}
PROOF(C07_write_page)
{
    auto* d = world();
    uint32_t pg = (uint32_t)irv_var("page", 0, 0xFFFFFFFEu);
    uint64_t size = X.s->sz = irv_var("size", 0, spec::STREAM_CAP / 2);
    X.page = (uint8_t*)irv_array("content", PAGE);
    uint64_t k = irv_var("k", 0, spec::STREAM_CAP / 2);
    uint8_t before = X.s->d[k];
    BtreeNode n(7, pg);
    orig_write_node(d, pg, &n);
    uint64_t at = pg * PAGE;
    irv_assert(X.tos == 1 && X.s->writes == 1 && X.s->w_off == at && X.s->w_len == PAGE && !X.s->resizes, "a node is written to its page");
    if (k >= at && k < at + PAGE)
        irv_assert(X.s->d[k] == X.page[k - at], "byte for byte");
    else if (k < size)
        irv_assert(X.s->d[k] == before, "no other page changes");
    irv_cover("written");
}
PROOF(C07_invalid_page)
{
    auto* d = world();
    BtreeNode n(7, INVALID_PAGE);
    try
    {
        if (irv_split(irv_var("write", 0, 1)))
            orig_write_node(d, INVALID_PAGE, &n);
        else
            orig_read_node(d, INVALID_PAGE, &n);
        irv_assert(false, "a page that cannot exist is refused");
    }
    catch (const CorruptedDirectoryException&)
    {
        irv_assert(!X.s->writes, "and nothing is written");
        irv_cover("refused");
    }
}
PROOF(C07_free_page)
{
    auto* d = world();
    uint32_t pg = (uint32_t)irv_var("page", 0, 0xFFFFFFFEu);
    uint64_t size = X.s->sz = irv_var("size", 0, spec::STREAM_CAP / 2);
    uint64_t k = irv_var("k", 0, spec::STREAM_CAP / 2);
    uint8_t before = X.s->d[k];
    BtreeDirectory::FreePage a, b;
    a.next = (uint32_t)irv_var("next", 0, 0xFFFFFFFFu);
    a.prev = (uint32_t)irv_var("prev", 0, 0xFFFFFFFFu);
    orig_write_free(d, pg, &a);
    uint64_t at = pg * PAGE;
    irv_assert(X.s->writes == 1 && X.s->w_off == at && X.s->w_len == PAGE && !X.s->resizes, "a free page is written to its place");
    irv_assert(u32(X.s->d + at) == 0 && u32(X.s->d + at + 4) == a.next && u32(X.s->d + at + 8) == a.prev, "with its neighbours");
    if (k < size && (k < at || k >= at + PAGE))
        irv_assert(X.s->d[k] == before, "no other page changes");
    orig_read_free(d, pg, &b);
    irv_assert(b.next == a.next && b.prev == a.prev, "and read back");
    irv_cover("written");
}
PROOF(C07_not_free)
{
    auto* d = world();
    uint32_t pg = (uint32_t)irv_var("page", 0, 0xFFFFFFFEu);
    X.s->sz = irv_var("size", 0, spec::STREAM_CAP / 2);
    uint64_t at = pg * PAGE;
    BtreeDirectory::FreePage b;
    try
    {
        orig_read_free(d, pg, &b);
        irv_assert(at + PAGE <= X.s->sz && u32(X.s->d + at) == 0, "only a free page is read as one");
        irv_cover("free");
    }
    catch (const CorruptedDirectoryException&)
    {
        irv_assert(at + PAGE > X.s->sz || u32(X.s->d + at) != 0, "a free page is accepted");
        irv_cover("refused");
    }
}
// Pages are handed out from the list of free pages first, then from the end.
PROOF(C07_allocate)
{
    auto* d = world();
    uint32_t start = (uint32_t)irv_var("start", 0, 0xFFFFFFFFu), next = (uint32_t)irv_var("next", 0, 0xFFFFFFFFu);
    uint64_t pages = irv_var("pages", 0, 1u << 28), frees = irv_var("frees", 1, 1u << 28);
    uint64_t size = X.s->sz = pages * PAGE;
    irv_assume(start == INVALID_PAGE || start != next);
    X.pg[0] = start;
    X.pg[1] = next;
    X.pg[2] = INVALID_PAGE - 1;
    irv_assume(start != X.pg[2] && next != X.pg[2]);
    X.free[0].next = next;
    X.free[0].prev = INVALID_PAGE;
    X.free[1].next = (uint32_t)irv_var("beyond", 0, 0xFFFFFFFFu);
    X.free[1].prev = start;
    uint32_t beyond = X.free[1].next;
    d->m_flags[4] = 3;
    d->m_flags[5] = start;
    d->m_flags[6] = frees;
    uint32_t r = d->allocate_page();
    if (start == INVALID_PAGE)
    {
        irv_assert(r == pages && X.s->sz == size + PAGE, "a page is added at the end");
        irv_assert(d->m_flags[5] == INVALID_PAGE && d->m_flags[6] == frees, "the list stays empty");
        irv_cover("end");
    }
    else
    {
        irv_assert(r == start && X.s->sz == size && !X.s->resizes, "a free page is used again");
        irv_assert(d->m_flags[5] == next && d->m_flags[6] == frees - 1 && d->m_dirty, "and is no longer in the list");
        irv_assert(!X.writes[0], "and not written as free");
        if (next != INVALID_PAGE)
        {
            irv_assert(X.writes[1] == 1 && X.free[1].prev == INVALID_PAGE && X.free[1].next == beyond, "the next one becomes the first");
            irv_cover("first");
        }
        else
            irv_cover("last");
    }
    irv_assert(d->m_flags[4] == 3, "the root stays");
}
PROOF(C07_deallocate)
{
    auto* d = world();
    uint32_t pg = (uint32_t)irv_var("page", 1, 0xFFFFFFFEu), start = (uint32_t)irv_var("start", 0, 0xFFFFFFFFu);
    uint64_t frees = irv_var("frees", 0, 1u << 28);
    irv_assume(pg != start);
    X.s->sz = irv_var("size", 0, spec::STREAM_CAP / 2);
    irv_assume(X.s->sz >= (pg + 1ull) * PAGE);
    X.pg[0] = pg;
    X.pg[1] = start;
    X.pg[2] = 0;
    X.free[1].prev = INVALID_PAGE;
    X.free[1].next = (uint32_t)irv_var("beyond", 0, 0xFFFFFFFFu);
    uint32_t beyond = X.free[1].next;
    d->m_flags[4] = 3;
    d->m_flags[5] = start;
    d->m_flags[6] = frees;
    uint64_t size = X.s->sz;
    orig_deallocate(d, pg);
    if (X.s->resizes)    // the last page may be cut off instead
    {
        irv_assert(X.s->resizes == 1 && size == (pg + 1ull) * PAGE && X.s->sz == pg * PAGE, "only the page itself is cut off");
        irv_assert(d->m_flags[5] == start && d->m_flags[6] == frees && !X.writes[0] && !X.writes[1], "and the list stays");
        return;
    }
    irv_assert(X.s->sz == size, "no page is lost");
    irv_assert(X.writes[0] == 1 && X.free[0].prev == INVALID_PAGE && X.free[0].next == start, "the page is the first of the list");
    irv_assert(d->m_flags[5] == pg && d->m_flags[6] == frees + 1 && d->m_flags[4] == 3 && d->m_dirty, "which is one longer");
    if (start != INVALID_PAGE)
    {
        irv_assert(X.writes[1] == 1 && X.free[1].prev == pg && X.free[1].next == beyond, "and the former first comes after it");
        irv_cover("pushed");
    }
    else
        irv_cover("first");
}
// One page holds any node, at fixed places.
static DirEntry entry(uint64_t len)
{
    DirEntry e;
    char* p = (char*)irv_array("name", len + 1);
    irv_assume(p[0] != 0 && p[len - 1] != 0);
    e.filename = std::string(p, len);
    irv_havoc(e.id.data(), 32, "id");
    e.type = (uint32_t)irv_var("type", 0, 0xFFFFFFFFu);
    return e;
}
static BtreeNode* any_node(int s, bool inner, int at, uint64_t len)
{
    auto* n = new BtreeNode(7, 9);
    n->m_entries.reserve(M + 1);
    for (int i = 0; i < s; ++i)
        n->m_entries.push_back(entry(i == at ? len : 20));
    n->m_child_indices.reserve(M + 2);
    for (int i = 0; inner && i <= s; ++i)
        n->m_child_indices.push_back((uint32_t)irv_var("child", 0, 0xFFFFFFFFu));
    return n;
}
static void layout(int s, int at, bool inner)
{
    uint64_t len = irv_var("len", 16, 255);
    auto* n = any_node(s, inner, at, len);
    uint8_t* p = (uint8_t*)irv_array("page", PAGE);
    irv_unroll(16);
    orig_to(n, p, PAGE);
    int c = inner ? s + 1 : 0;
    uint16_t cn, en;
    memcpy(&cn, p + 4, 2);
    memcpy(&en, p + 6, 2);
    irv_assert(u32(p) == 1 && cn == c && en == s, "the page says how many children and entries it has");
    for (int i = 0; i < c; ++i)
        irv_assert(u32(p + 8 + 4 * i) == n->m_child_indices[i], "each child at its place");
    if (s)
    {
        const uint8_t* e = p + 8 + 4 * c + 292 * at;
        auto& x = n->m_entries[at];
        uint64_t k = irv_var("k", 0, 255);
        if (k < len)
            irv_assert(e[k] == (uint8_t)x.filename[k], "each name at its place");
        else
            irv_assert(e[k] == 0, "filled with zeros");
        irv_assert(!memcmp(e + 256, x.id.data(), 32) && u32(e + 288) == x.type, "with its id and type");
    }
    irv_cover(inner ? "inner" : "leaf");
}
PROOF(C07_layout)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int s = choose("size", inner ? 1 : 0, M);
    layout(s, s - 1, inner);
}
PROOF_DEEP(C07_layout_all)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int s = choose("size", 2, M);
    layout(s, choose("at", 0, s - 2), inner);
}
static void parse(int s, int at, bool inner)
{
    int c = inner ? s + 1 : 0;
    uint8_t* p = (uint8_t*)irv_array("page", PAGE);
    uint32_t one = 1;
    uint16_t cn = c, en = s;
    memcpy(p, &one, 4);
    memcpy(p + 4, &cn, 2);
    memcpy(p + 6, &en, 2);
    uint64_t len = irv_var("len", 16, 255), k = irv_var("k", 0, 255);
    if (s)
    {
        uint8_t* e = p + 8 + 4 * c + 292 * at;
        e[len] = 0;
        irv_focus(len);
        irv_assume(k >= len || e[k] != 0);
    }
    for (int i = 0; i < s; ++i)
        if (uint8_t* e = p + 8 + 4 * c + 292 * i; i != at)
        {
            memset(e, 'a', 20);
            e[20] = 0;
        }
    uint8_t* old = irv_dup(p, PAGE);
    BtreeNode n(7, 9);
    n.m_entries.reserve(M + 1);
    n.m_child_indices.reserve(M + 2);
    irv_unroll(16);
    bool r = orig_from(&n, p, PAGE);
    irv_assert(r && (int)n.m_entries.size() == s && (int)n.m_child_indices.size() == c, "a node has what its page says");
    irv_assert(n.m_num == 9 && n.m_parent_num == 7 && !n.m_dirty, "and is unchanged otherwise");
    for (int i = 0; i < c; ++i)
        irv_assert(u32(old + 8 + 4 * i) == n.m_child_indices[i], "each child");
    if (s)
    {
        auto* e = old + 8 + 4 * c + 292 * at;
        auto& x = n.m_entries[at];
        irv_assert(!memcmp(e + 256, x.id.data(), 32) && u32(e + 288) == x.type, "each id and type");
        uint64_t m = x.filename.size();
        irv_assert(m <= len, "a name ends where it was ended");
        if (k < m)
            irv_assert((uint8_t)x.filename[k] == e[k] && e[k] != 0, "and has its bytes");
        else if (k == m)
            irv_assert(e[k] == 0, "and is read to its end");
    }
    irv_cover(inner ? "inner" : "leaf");
}
PROOF(C07_parse)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int s = choose("size", inner ? 1 : 0, 1);
    parse(s, s - 1, inner);
}
PROOF_DEEP(C07_parse_more)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int s = choose("size", 2, 3);
    parse(s, choose("at", 0, s - 1), inner);
}
PROOF(C07_parse_free)
{
    uint8_t* p = (uint8_t*)irv_array("page", PAGE);
    uint32_t zero = 0;
    memcpy(p, &zero, 4);
    BtreeNode n(7, 9);
    irv_assert(!orig_from(&n, p, PAGE) && n.m_entries.empty() && n.m_child_indices.empty(), "a free page is no node");
    irv_cover("free");
}
PROOF(C07_too_long_stored)
{
    auto* n = any_node(1, false, 0, irv_var("len", 256, 4096));
    uint8_t* p = (uint8_t*)irv_array("page", PAGE);
    irv_unroll(16);
    try
    {
        orig_to(n, p, PAGE);
        irv_assert(false, "a name too long is refused");
    }
    catch (const ExceptionBase& e)
    {
        irv_assert(e.error_number() == ENAMETOOLONG, "as too long");
        irv_cover("refused");
    }
}
// The cache of nodes
static BtreeNode* cached(uint32_t pg, uint32_t parent, bool dirty)
{
    auto* n = new BtreeNode(parent, pg);
    n->m_dirty = dirty;
    X.d->m_node_cache.emplace(pg, std::unique_ptr<BtreeNode>(n));
    return n;
}
PROOF(C07_flush)
{
    auto* d = world();
    int s = choose("cached", 0, 3), expect = 0;
    BtreeNode* n[3];
    bool dirty[3];
    for (int i = 0; i < s; ++i)
    {
        dirty[i] = irv_split(irv_var("dirty", 0, 1));
        expect += dirty[i];
        n[i] = cached(20 + i, 7, dirty[i]);
    }
    if (irv_split(irv_var("ask", 0, 1)))
    {
        d->m_dirty = irv_split(irv_var("self", 0, 1));
        irv_assert(d->BtreeDirectory::is_dirty() == (expect || d->m_dirty), "a directory has changes exactly if it or a node has");
        irv_cover("asked");
        return;
    }
    d->flush_cache();
    irv_assert(X.node_writes == expect, "every changed node is written once");
    for (int i = 0; i < s; ++i)
    {
        irv_assert(!n[i]->m_dirty, "and is no longer changed");
        int w = 0;
        for (int j = 0; j < X.node_writes; ++j)
            w += X.written[j] == 20u + i;
        irv_assert(w == dirty[i], "only changed nodes are written");
    }
    irv_cover("flushed");
}
PROOF(C07_retrieve)
{
    auto* d = world();
    auto* a = cached(20, 7, false);
    auto* b = cached(21, 8, true);
    uint32_t pg = (uint32_t)irv_var("page", 0, 0xFFFFFFFEu), parent = (uint32_t)irv_var("parent", 0, 0xFFFFFFFFu);
    if (irv_split(irv_var("existing", 0, 1)))
    {
        auto* r = d->retrieve_existing_node(pg);
        irv_assert(r == (pg == 20 ? a : pg == 21 ? b : nullptr) && !X.node_reads, "only what is known already");
        irv_cover("known");
        return;
    }
    try
    {
        auto* r = d->retrieve_node(parent, pg);
        if (pg == 20 || pg == 21)
            irv_assert(r == (pg == 20 ? a : b) && !X.node_reads, "a node is read once");
        else
        {
            irv_assert(X.node_reads == 1 && X.read_page == pg && X.read_into == r, "a node is read from its page");
            irv_assert(r->m_num == pg && r->m_parent_num == parent && r != a && r != b && !r->m_dirty, "as a new node");
            irv_assert(d->retrieve_existing_node(pg) == r, "and kept");
            irv_cover("read");
        }
    }
    catch (const CorruptedDirectoryException&)
    {
        irv_assert((pg == 20 && parent != 7) || (pg == 21 && parent != 8), "only a node of another parent is refused");
        irv_assert(parent != INVALID_PAGE, "and only if the parent is known");
        irv_cover("refused");
    }
}
PROOF(C07_adjust)
{
    auto* d = world();
    int s = choose("size", 1, 5), at = choose("at", 0, s), at2 = choose("at2", 0, s);
    BtreeNode n(7, 9);
    for (int i = 0; i <= s; ++i)
        n.m_child_indices.push_back(30 + i);
    auto* a = cached(30 + at, 9, false);
    auto* b = at2 == at ? nullptr : cached(30 + at2, 9, false);
    auto* c = cached(50, 9, false);
    uint32_t parent = (uint32_t)irv_var("parent", 0, 0xFFFFFFFFu);
    d->adjust_children_in_cache(&n, parent);
    irv_assert(a->m_parent_num == parent && a->m_dirty, "a cached child knows its parent");
    if (b)
        irv_assert(b->m_parent_num == parent && b->m_dirty, "every one of them");
    irv_assert(c->m_parent_num == 9 && !c->m_dirty && !X.node_reads, "nothing else changes");
    irv_cover("adopted");
}
PROOF(C07_del)
{
    auto* d = world();
    auto* a = cached(20, 7, false);
    auto* b = cached(21, 8, true);
    if (irv_split(irv_var("none", 0, 1)))
    {
        d->del_node(nullptr);
        irv_assert(!X.frees && d->m_node_cache.size() == 2, "nothing is deleted");
        irv_cover("nothing");
        return;
    }
    d->del_node(a);
    irv_assert(X.frees == 1 && X.freed == 20 && !d->m_node_cache.contains(20), "a node goes with its page");
    irv_assert(d->retrieve_existing_node(21) == b, "the others stay");
    irv_cover("deleted");
}
PROOF(C07_iterate)
{
    auto* d = world();
    bool inner = irv_split(irv_var("inner", 0, 1));
    int s = choose("size", inner ? 1 : 0, M);
    BtreeNode n(7, 9);
    n.m_entries.reserve(M + 1);
    for (int i = 0; i < s; ++i)
    {
        DirEntry e;
        char b[8];
        irv_havoc(b, 8, "key");
        e.filename = std::string(b, 8);
        irv_havoc(e.id.data(), 32, "id");
        e.type = (uint32_t)irv_var("type", 0, 0xFFFFFFFFu);
        n.m_entries.push_back(std::move(e));
    }
    int present = inner ? choose("cached", 0, 1) : 0;
    for (int i = 0; inner && i <= s; ++i)
        n.m_child_indices.push_back(30 + i);
    for (int i = 0; i < present; ++i)
        cached(30 + i, 9, false);
    int depth = (int)irv_var("depth", 0, 31);
    X.at = depth + 1;
    auto see = [&](const std::string& name, const id_type& id, int type)
    {
        irv_assert(X.count < M, "no more entries than there are");
        auto& e = n.m_entries[X.count];
        irv_assert(&name == &e.filename || (name.size() == 8 && !memcmp(name.data(), e.filename.data(), 8)), "every name");
        irv_assert(!memcmp(id.data(), e.id.data(), 32) && type == (int)e.type, "with its id and type");
        ++X.count;
    };
    Directory::callback cb(see);
    orig_iterate(d, &n, &cb, depth);
    irv_assert(X.count == s, "every entry is listed once");
    irv_assert(X.visits == (inner ? s + 1 : 0), "and what is below");
    for (int i = 0; i < X.visits; ++i)
        irv_assert(X.visited[i] == 30u + i, "each child once");
    irv_cover("listed");
}
#endif
