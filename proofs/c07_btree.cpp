// C07: the operations on the nodes of the B-tree, each over contracts of the others.
// irv: contract ^securefs::BtreeDirectory::retrieve_node\( => c_retrieve
// irv: contract ^securefs::BtreeDirectory::retrieve_existing_node\( => c_existing
// irv: contract ^securefs::BtreeDirectory::get_root_node\( => c_root
// irv: contract ^securefs::BtreeDirectory::allocate_page\( => c_allocate
// irv: contract ^securefs::BtreeDirectory::deallocate_page\( => c_deallocate
// irv: contract ^securefs::BtreeDirectory::del_node\( => c_del
// irv: contract ^securefs::BtreeDirectory::adjust_children_in_cache\(securefs::BtreeNode\*, unsigned int\) => c_adjust
// irv: contract ^securefs::BtreeDirectory::insert_and_balance\( => c_insert
// irv: original ^securefs::BtreeDirectory::insert_and_balance\( => orig_insert
// irv: contract ^securefs::BtreeDirectory::balance_up\( => c_balance
// irv: original ^securefs::BtreeDirectory::balance_up\( => orig_balance
// irv: contract ^securefs::BtreeDirectory::rotate\( => c_rotate
// irv: original ^securefs::BtreeDirectory::rotate\( => orig_rotate
// irv: contract ^securefs::BtreeDirectory::merge\( => c_merge
// irv: original ^securefs::BtreeDirectory::merge\( => orig_merge
// irv: contract ^securefs::BtreeDirectory::find_node\([^()]*\)$ => c_find
// irv: original ^securefs::BtreeDirectory::find_node\([^()]*\)$ => orig_find
// irv: contract ^securefs::BtreeDirectory::find_sibling\( => c_sibling
// irv: original ^securefs::BtreeDirectory::find_sibling\( => orig_sibling
// irv: contract ^securefs::BtreeDirectory::replace_with_sub_entry\( => c_replace
// irv: original ^securefs::BtreeDirectory::replace_with_sub_entry\( => orig_replace
// irv: assumes names are only handled as whole strings and through the comparison function, so names of 8 bytes in any order stand for all
// irv: assumes page numbers are only compared for equality by the operations on nodes
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <array>
#include <map>
#include <optional>
#include <thread>
#include <atomic>
#include <chrono>
#define private public
#define protected public
#include "btree_dir.cpp"
#undef private
#undef protected
using namespace securefs;
namespace securefs
{
FileBase::~FileBase() {}
void FileBase::throw_invalid_cast(int to) { throw VFSException(error_number_for_not(to)); }
int FileBase::get_real_type() { return 4; }
}
static const int M = BTREE_MAX_NUM_ENTRIES;
struct Snap
{
    uint64_t k, id[4];
    uint32_t type;
};
struct List    // the entries and children of one or more nodes, in order
{
    int n, c;
    Snap e[3 * M + 4];
    uint32_t child[3 * M + 8];
};
static const uint32_t PAGE = 100, ADDED = 90, ROOT = 80;
static struct
{
    BtreeDirectory* d;
    BtreeNode* node[40];
    int nodes;
    uint32_t next_page, fresh[4];
    int freshes;
    uint32_t parent_of[200];    // ghost: the parent every child page knows
    bool uncached[200];
    uint32_t freed;
    int frees, inserts, balances, finds, replaces;
    BtreeNode *grown, *found, *leaf;
    Snap lifted;
    uint32_t lifted_child;
    int64_t at;
    uint64_t key;
    bool equal;
    struct
    {
        const BtreeNode *parent, *n;
        BtreeNode* sibling;
        int index;
    } sib_of[2];
    struct
    {
        BtreeNode *left, *right, *up;
        int64_t at;
        DirEntry* sep;
        bool merged;
    } done[4];
    int did;
} X;
static Snap snap(const DirEntry& e)
{
    Snap s;
    irv_assert(e.filename.size() == 8, "a name is kept whole");
    memcpy(&s.k, e.filename.data(), 8);
    memcpy(s.id, e.id.data(), 32);
    s.type = e.type;
    return s;
}
static bool same(const Snap& a, const Snap& b)
{
    return a.k == b.k && a.id[0] == b.id[0] && a.id[1] == b.id[1] && a.id[2] == b.id[2] && a.id[3] == b.id[3] && a.type == b.type;
}
static DirEntry entry()
{
    DirEntry e;
    char b[8];
    irv_havoc(b, 8, "key");
    e.filename = std::string(b, 8);
    irv_havoc(e.id.data(), 32, "id");
    e.type = (uint32_t)irv_var("type", 0, 0xFFFFFFFFu);
    return e;
}
static int c07_cmp(std::string_view a, std::string_view b)
{
    irv_assert(a.size() == 8 && b.size() == 8, "whole names are compared");
    uint64_t x, y;
    memcpy(&x, a.data(), 8);
    memcpy(&y, b.data(), 8);
    return x > y ? -1 : x < y;    // not the order of the bytes
}
static void add(List& l, const BtreeNode& n)
{
    for (auto& e : n.m_entries)
        l.e[l.n++] = snap(e);
    for (auto c : n.m_child_indices)
        l.child[l.c++] = c;
}
static void equal(const List& a, const List& b, const char*)
{
    irv_assert(a.n == b.n && a.c == b.c, "as many entries and children as before");
    for (int i = 0; i < a.n; ++i)
        irv_assert(same(a.e[i], b.e[i]), "every entry stays, in its place");
    for (int i = 0; i < a.c; ++i)
        irv_assert(a.child[i] == b.child[i], "every child stays, in its place");
}
static BtreeDirectory* world()
{
    memset(&X, 0, sizeof X);
    X.d = (BtreeDirectory*)malloc(sizeof(BtreeDirectory));
    memset(X.d, 0, sizeof(BtreeDirectory));
    X.d->cmpfn_.fn = &c07_cmp;
    X.next_page = PAGE;
    return X.d;
}
static void enlist(BtreeNode* n) { X.node[X.nodes++] = n; }
static BtreeNode* node(uint32_t parent, uint32_t page, int n, bool inner)
{
    auto* r = new BtreeNode(parent, page);
    r->m_entries.reserve(M + 1);
    for (int i = 0; i < n; ++i)
        r->m_entries.push_back(entry());
    if (inner)
    {
        r->m_child_indices.reserve(M + 2);
        for (int i = 0; i <= n; ++i)
        {
            X.parent_of[X.next_page] = page;
            r->m_child_indices.push_back(X.next_page++);
        }
    }
    enlist(r);
    return r;
}
static uint64_t key(const DirEntry& e)
{
    uint64_t k;
    memcpy(&k, e.filename.data(), 8);
    return ~k;
}
static void sorted(BtreeNode* n)
{
    for (size_t i = 0; i + 1 < n->m_entries.size(); ++i)
        irv_assume(key(n->m_entries[i]) < key(n->m_entries[i + 1]));
}
// Only the order of names matters: the names of a node, and the one looked up at `pos`.
static const uint64_t WANTED = 1000;
static void rename_to(DirEntry& e, uint64_t rank)
{
    uint64_t k = ~rank;
    memcpy(e.filename.data(), &k, 8);
}
static void lookup_in(BtreeNode* n, int pos, bool hit)
{
    for (int i = 0; i < (int)n->m_entries.size(); ++i)
        rename_to(n->m_entries[i], WANTED + 2 * i - 2 * pos + (i >= pos && !hit));
}
static BtreeNode* lookup(uint32_t page)
{
    for (int i = 0; i < X.nodes; ++i)
        if (X.node[i]->m_num == page)
            return X.node[i];
    return nullptr;
}
static int choose(const char* name, int lo, int hi) { return (int)irv_concretize(irv_var(name, lo, hi)); }
extern "C"
{
    BtreeNode* c_retrieve(BtreeDirectory*, uint32_t parent, uint32_t num)
    {
        for (int i = 0; i < X.freshes; ++i)
            if (X.fresh[i] == num && !lookup(num))
            {
                auto* n = new BtreeNode(parent, num);
                n->m_entries.reserve(M + 1);
                n->m_child_indices.reserve(M + 2);
                enlist(n);
                return n;
            }
        auto* n = lookup(num);
        irv_assert(n != nullptr, "a page of the tree is read");
        irv_assert(parent == INVALID_PAGE || parent == n->m_parent_num, "with its parent");
        return n;
    }
    BtreeNode* c_existing(BtreeDirectory*, uint32_t num) { return lookup(num); }
    BtreeNode* c_root(BtreeDirectory* d)
    {
        auto p = d->get_root_page();
        return p == INVALID_PAGE ? nullptr : c_retrieve(d, INVALID_PAGE, p);
    }
    uint32_t c_allocate(BtreeDirectory*)
    {
        uint32_t p = 10 + X.freshes;
        X.fresh[X.freshes++] = p;
        return p;
    }
    void c_deallocate(BtreeDirectory*, uint32_t num)
    {
        X.freed = num;
        ++X.frees;
    }
    void c_del(BtreeDirectory*, BtreeNode* n)
    {
        X.freed = n->m_num;
        ++X.frees;
        for (int i = 0; i < X.nodes; ++i)
            if (X.node[i] == n)
                X.node[i] = X.node[--X.nodes];
        delete n;
    }
    void c_adjust(BtreeDirectory*, BtreeNode* n, uint32_t parent)
    {
        for (auto c : n->m_child_indices)
            X.parent_of[c] = parent;
    }
    void c_insert(BtreeDirectory* d, BtreeNode* n, DirEntry* e, uint32_t child, int depth)
    {
        ++X.inserts;
        X.grown = n;
        X.lifted = snap(*e);
        X.lifted_child = child;
        X.at = depth;
    }
    void c_balance(BtreeDirectory*, BtreeNode* n, int depth)
    {
        ++X.balances;
        X.grown = n;
        X.at = depth;
    }
    void c_rotate(BtreeDirectory*, BtreeNode* l, BtreeNode* r, DirEntry* sep)
    {
        if (X.did < 4)
            X.done[X.did] = {l, r, nullptr, 0, sep, false};
        ++X.did;
    }
    void c_merge(BtreeDirectory*, BtreeNode* l, BtreeNode* r, BtreeNode* p, ptrdiff_t i)
    {
        if (X.did < 4)
            X.done[X.did] = {l, r, p, i, nullptr, true};
        ++X.did;
    }
    std::tuple<BtreeNode*, ptrdiff_t, bool> c_find(BtreeDirectory*, std::string_view name)
    {
        irv_assert(name.size() == 8 && !memcmp(name.data(), &X.key, 8), "the name is looked up");
        ++X.finds;
        return std::make_tuple(X.found, (ptrdiff_t)X.at, X.equal);
    }
    std::pair<ptrdiff_t, BtreeNode*> c_sibling(BtreeDirectory*, const BtreeNode* parent, const BtreeNode* n)
    {
        for (auto& t : X.sib_of)
            if (t.parent == parent && t.n == n)
                return {t.index, t.sibling};
        irv_assert(false, "the sibling of the node");
        return {0, nullptr};
    }
    BtreeNode* c_replace(BtreeDirectory*, BtreeNode* n, ptrdiff_t i, int depth)
    {
        irv_assert(n == X.found && i == X.at && depth == 0, "the entry that was found is removed");
        ++X.replaces;
        return X.leaf;
    }
    void orig_insert(BtreeDirectory*, BtreeNode*, DirEntry*, uint32_t, int);
    void orig_balance(BtreeDirectory*, BtreeNode*, int);
    void orig_rotate(BtreeDirectory*, BtreeNode*, BtreeNode*, DirEntry*);
    void orig_merge(BtreeDirectory*, BtreeNode*, BtreeNode*, BtreeNode*, ptrdiff_t);
    std::tuple<BtreeNode*, ptrdiff_t, bool> orig_find(BtreeDirectory*, std::string_view);
    std::pair<ptrdiff_t, BtreeNode*> orig_sibling(BtreeDirectory*, const BtreeNode*, const BtreeNode*);
    BtreeNode* orig_replace(BtreeDirectory*, BtreeNode*, ptrdiff_t, int);
}
static void adopted(BtreeNode* n)
{
    for (auto c : n->m_child_indices)
        irv_assert(X.parent_of[c] == n->m_num, "every child knows its parent");
}
static void rotation(int l, int r, bool inner)
{
    auto* d = world();
    auto *a = node(ROOT, 50, l, inner), *b = node(ROOT, 51, r, inner);
    DirEntry sep = entry();
    List was{}, now{};
    add(was, *a);
    was.e[was.n++] = snap(sep);
    add(was, *b);
    orig_rotate(d, a, b, &sep);
    add(now, *a);
    now.e[now.n++] = snap(sep);
    add(now, *b);
    equal(was, now, "");
    int al = a->m_entries.size(), bl = b->m_entries.size();
    irv_assert(al >= M / 2 && bl >= M / 2 && al <= M && bl <= M, "both nodes have enough entries and not too many");
    if (inner)
        irv_assert((int)a->m_child_indices.size() == al + 1 && (int)b->m_child_indices.size() == bl + 1, "one child more than entries");
    irv_assert(a->m_dirty && b->m_dirty && a->m_num == 50 && b->m_num == 51, "both are to be written");
    irv_assert(a->m_parent_num == ROOT && b->m_parent_num == ROOT, "they keep their parent");
    adopted(a);
    adopted(b);
    irv_cover("rotated");
}
PROOF(C07_rotate)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int other = choose("other", M - M / 2 + 1, M);    // with a node that has one entry too few
    if (irv_split(irv_var("left", 0, 1)))
        rotation(M / 2 - 1, other, inner);
    else
        rotation(other, M / 2 - 1, inner);
}
PROOF(C07_rotate_all)
{
    int l = choose("l", 0, M), r = choose("r", M - l, M);
    rotation(l, r, irv_split(irv_var("inner", 0, 1)));
}
static void merging(int l, int r, int p, int i, bool inner)
{
    auto* d = world();
    auto* up = node(INVALID_PAGE, ROOT, p, true);
    auto *a = node(ROOT, up->m_child_indices[i], l, inner), *b = node(ROOT, up->m_child_indices[i + 1], r, inner);
    List was{}, above{}, now{}, then{};
    add(was, *a);
    was.e[was.n++] = snap(up->m_entries[i]);
    add(was, *b);
    add(above, *up);
    for (int k = i; k + 1 < above.n; ++k)
        above.e[k] = above.e[k + 1];
    for (int k = i + 1; k + 1 < above.c; ++k)
        above.child[k] = above.child[k + 1];
    --above.n;
    --above.c;
    uint32_t gone = b->m_num;
    orig_merge(d, a, b, up, i);
    add(now, *a);
    add(then, *up);
    equal(was, now, "");
    equal(above, then, "");
    irv_assert(X.frees == 1 && X.freed == gone, "the emptied node is released");
    irv_assert(a->m_dirty && up->m_dirty, "what changed is to be written");
    adopted(a);
    irv_cover("merged");
}
PROOF(C07_merge)
{
    bool inner = irv_split(irv_var("inner", 0, 1));
    int l = M / 2 - 1, r = l + choose("more", 0, M - 1 - 2 * l);
    if (irv_split(irv_var("swap", 0, 1)))
        std::swap(l, r);
    int p = irv_split(irv_var("one", 0, 1)) ? 1 : irv_split(irv_var("two", 0, 1)) ? 4 : M;
    merging(l, r, p, choose("i", 0, p - 1), inner);
}
PROOF(C07_merge_all)
{
    int p = choose("p", 1, M);
    merging(M / 2 - 1, M / 2, p, choose("i", 0, p - 1), irv_split(irv_var("inner", 0, 1)));
}
PROOF(C07_sibling)
{
    auto* d = world();
    int p = choose("p", 1, M);
    auto* up = node(INVALID_PAGE, ROOT, p, true);
    int i = choose("i", 0, p);
    auto* n = new BtreeNode(ROOT, up->m_child_indices[i]);
    int j = i == p ? i - 1 : i + 1;
    auto* s = new BtreeNode(ROOT, up->m_child_indices[j]);
    enlist(n);
    enlist(s);
    auto r = orig_sibling(d, up, n);
    irv_assert(r.second == s || i > 0, "a neighbour");
    irv_assert(r.second == s && r.first == (i == p ? i - 1 : i), "and the entry between them");
    irv_cover("sibling");
}
PROOF(C07_insert)
{
    auto* d = world();
    bool inner = irv_split(irv_var("inner", 0, 1)), root = irv_split(irv_var("root", 0, 1));
    int s = choose("size", inner ? 1 : 0, M);
    if (!root)
        node(INVALID_PAGE, ROOT, 1, true);
    BtreeNode* up = root ? nullptr : X.node[0];
    auto* n = node(root ? INVALID_PAGE : ROOT, 50, s, inner);
    d->m_flags[4] = root ? 50 : ROOT;
    DirEntry e = entry();
    int pos = choose("pos", 0, s);
    rename_to(e, WANTED);
    lookup_in(n, pos, false);
    List was{}, now{};
    add(was, *n);
    for (int k = was.n++; k > pos; --k)
        was.e[k] = was.e[k - 1];
    was.e[pos] = snap(e);
    if (inner)
    {
        for (int k = was.c++; k > pos + 1; --k)
            was.child[k] = was.child[k - 1];
        was.child[pos + 1] = ADDED;
        X.parent_of[ADDED] = 50;
    }
    irv_unroll(16);
    uint64_t below = irv_var("depth", 0, 30);
    orig_insert(d, n, &e, inner ? ADDED : INVALID_PAGE, below);
    irv_assert(n->m_dirty && n->m_num == 50, "the node is to be written");
    add(now, *n);
    if (s < M)
    {
        equal(was, now, "");
        irv_assert(X.freshes == 0 && !X.inserts && d->get_root_page() == (root ? 50 : ROOT), "nothing else changes");
        irv_assert(n->m_parent_num == (root ? INVALID_PAGE : ROOT), "nor its parent");
        irv_cover("inserted");
        return;
    }
    // split
    irv_assert(X.freshes == (root ? 2 : 1), "pages for the new nodes");
    BtreeNode* b = nullptr;
    if (root)
    {
        auto* t = lookup(d->get_root_page());
        irv_assert(t && t != n && t->m_parent_num == INVALID_PAGE && t->m_entries.size() == 1 && t->m_child_indices.size() == 2 && t->m_dirty, "a new root");
        irv_assert(t->m_child_indices[0] == 50, "over the node");
        b = lookup(t->m_child_indices[1]);
        now.e[now.n++] = snap(t->m_entries[0]);
        irv_assert(n->m_parent_num == t->m_num && b && b != n && b != t && b->m_parent_num == t->m_num && !X.inserts, "and its new sibling");
    }
    else
    {
        irv_assert(X.inserts == 1 && X.grown == up && X.at == (int64_t)below + 1, "the middle goes to the parent");
        b = lookup(X.lifted_child);
        irv_assert(b && b != n && b->m_parent_num == ROOT && n->m_parent_num == ROOT, "with the new sibling");
        now.e[now.n++] = X.lifted;
        irv_assert(d->get_root_page() == ROOT, "the root stays");
    }
    irv_assert(b->m_dirty, "which is to be written");
    int al = n->m_entries.size(), bl = b->m_entries.size();
    add(now, *b);
    equal(was, now, "");
    irv_assert(al >= M / 2 && bl >= M / 2 && al <= M && bl <= M, "both nodes have enough entries and not too many");
    if (inner)
    {
        irv_assert((int)n->m_child_indices.size() == al + 1 && (int)b->m_child_indices.size() == bl + 1, "one child more than entries");
        adopted(n);
        adopted(b);
    }
    irv_cover("split");
}
PROOF(C07_balance)
{
    auto* d = world();
    int kind = choose("kind", 0, 3);
    if (kind == 0)    // the root has lost its last entry
    {
        auto* n = node(INVALID_PAGE, ROOT, 0, irv_split(irv_var("inner", 0, 1)));
        d->m_flags[4] = ROOT;
        bool inner = !n->m_child_indices.empty();
        uint32_t child = inner ? n->m_child_indices[0] : 0;
        orig_balance(d, n, 0);
        if (inner)
            irv_assert(d->get_root_page() == child && X.frees == 1 && X.freed == ROOT && X.parent_of[child] == INVALID_PAGE, "its child becomes the root");
        else
            irv_assert(d->get_root_page() == ROOT && X.frees == 0, "an empty root stays");
        irv_assert(!X.did && !X.balances, "nothing else happens");
        irv_cover("root");
        return;
    }
    if (kind == 1)    // enough entries
    {
        bool root = irv_split(irv_var("root", 0, 1));
        auto* n = node(root ? INVALID_PAGE : ROOT, root ? ROOT : 50, choose("size", root ? 1 : M / 2, M), irv_split(irv_var("inner", 0, 1)));
        d->m_flags[4] = ROOT;
        orig_balance(d, n, 0);
        irv_assert(!X.did && !X.balances && !X.frees && d->get_root_page() == ROOT, "nothing happens");
        irv_cover("enough");
        return;
    }
    // one too few
    bool chain = irv_split(irv_var("chain", 0, 1));    // the parent has too few as well
    int p = chain ? M / 2 - 1 : choose("p", 1, 3), s = choose("sibling", M / 2, M);
    bool last = irv_split(irv_var("last", 0, 1));
    BtreeNode* top = chain ? node(INVALID_PAGE, ROOT, 1, true) : nullptr;
    auto* up = chain ? node(ROOT, top->m_child_indices[0], p, true) : node(INVALID_PAGE, ROOT, p, true);
    int i = last ? p : choose("i", 0, chain ? 0 : p - 1);
    X.at = last ? p - 1 : i;
    auto* n = node(up->m_num, up->m_child_indices[i], M / 2 - 1, false);
    auto* b = node(up->m_num, up->m_child_indices[last ? i - 1 : i + 1], s, false);
    sorted(n);
    sorted(b);
    if (last)
        irv_assume(key(b->m_entries[s - 1]) < key(up->m_entries[X.at]) && key(up->m_entries[X.at]) < key(n->m_entries[0]));
    else
        irv_assume(key(n->m_entries[M / 2 - 2]) < key(up->m_entries[X.at]) && key(up->m_entries[X.at]) < key(b->m_entries[0]));
    BtreeNode* uncle = nullptr;
    if (chain)
    {
        uncle = node(ROOT, top->m_child_indices[1], M / 2, true);
        sorted(up);
        sorted(uncle);
        irv_assume(key(up->m_entries[p - 1]) < key(top->m_entries[0]) && key(top->m_entries[0]) < key(uncle->m_entries[0]));
    }
    X.sib_of[0] = {up, n, b, (int)X.at};
    X.sib_of[1] = {top, up, uncle, 0};
    int64_t between = X.at;
    int depth = (int)irv_var("depth", 0, 25);
    d->m_flags[4] = ROOT;
    orig_balance(d, n, depth);
    auto *l = last ? b : n, *r = last ? n : b;
    irv_assert(X.did >= 1 && X.done[0].left == l && X.done[0].right == r, "the two neighbours in order");
    if (X.done[0].merged)
        irv_assert(X.done[0].up == up && X.done[0].at == between && M / 2 - 1 + s + 1 <= M, "merged only if that fits");
    else
        irv_assert(X.done[0].sep == &up->m_entries[between] && M / 2 - 1 + s >= M - 1 && up->m_dirty, "the entry between them is replaced");
    if (X.did == 1 && X.balances == 1)
        irv_assert(X.grown == up && X.at == depth + 1, "and then the parent");
    else if (chain)    // within this call
    {
        irv_assert(X.did == 2 && X.done[1].merged && X.done[1].left == up && X.done[1].right == uncle && X.done[1].up == top, "and then the parent too");
        irv_assert(!X.balances || X.grown == top, "and what is above it");
    }
    else
        irv_assert(X.did == 1 && !X.balances, "once");
    irv_cover(X.done[0].merged ? "merged" : "rotated");
}
PROOF(C07_replace_leaf)
{
    auto* d = world();
    int s = choose("size", 1, M), i = choose("i", 0, s - 1);
    auto* n = node(ROOT, 50, s, false);
    List was{}, now{};
    add(was, *n);
    for (int k = i; k + 1 < was.n; ++k)
        was.e[k] = was.e[k + 1];
    --was.n;
    auto* r = orig_replace(d, n, i, 0);
    add(now, *n);
    equal(was, now, "");
    irv_assert(r == n && n->m_dirty, "the leaf has one entry less");
    irv_cover("removed");
}
// an inner entry: the last entry of the leaf before it takes its place (at most three levels below)
PROOF_SMALL(C07_replace_inner)
{
    auto* d = world();
    int s = choose("size", 1, 3), i = choose("i", 0, s - 1), levels = choose("levels", 0, 2);
    auto* n = node(ROOT, 50, s, true);
    uint32_t page = n->m_child_indices[i], parent = 50;
    BtreeNode* x = nullptr;
    for (int k = 0; k <= levels; ++k)
    {
        int z = choose("z", 1, 3);
        x = node(parent, page, z, k < levels);
        if (k < levels)
        {
            parent = page;
            page = x->m_child_indices[z];
        }
    }
    List was{}, now{}, leaf{}, after{};
    add(was, *n);
    add(leaf, *x);
    was.e[i] = leaf.e[--leaf.n];
    auto* r = orig_replace(d, n, i, 0);
    add(now, *n);
    equal(was, now, "");
    irv_assert(r == x && n->m_dirty && x->m_dirty, "the leaf has one entry less");
    add(after, *x);
    equal(leaf, after, "");
    irv_cover("replaced");
}
// lookup: one node of any size, and up to two levels below it
static void finding(int levels, int most)
{
    auto* d = world();
    X.key = ~WANTED;
    uint32_t parent = INVALID_PAGE, page = ROOT;
    d->m_flags[4] = ROOT;
    BtreeNode* n = nullptr;
    bool hit = false;
    int pos = 0;
    for (int k = 0; k <= levels && !hit; ++k)
    {
        int s = choose("size", k < levels ? 1 : 0, most);
        n = node(parent, page, s, k < levels);
        hit = s && irv_split(irv_var("hit", 0, 1));
        pos = choose("pos", 0, hit ? s - 1 : s);
        lookup_in(n, pos, hit);
        if (k < levels)
        {
            parent = page;
            page = n->m_child_indices[pos];
        }
    }
    irv_unroll(16);
    auto r = orig_find(d, std::string_view((const char*)&X.key, 8));
    irv_assert(std::get<0>(r) == n && std::get<1>(r) == pos && std::get<2>(r) == hit, "the entry, or the leaf it belongs to");
    irv_cover(hit ? "found" : "absent");
}
PROOF(C07_find_node) { finding(0, M); }
PROOF_SMALL(C07_find)
{
    if (irv_split(irv_var("deep", 0, 1)))
        finding(2, 2);
    else
        finding(1, 4);
}
PROOF(C07_find_empty)
{
    auto* d = world();
    d->m_flags[4] = INVALID_PAGE;
    X.key = ~WANTED;
    auto r = orig_find(d, std::string_view((const char*)&X.key, 8));
    irv_assert(!std::get<0>(r) && !std::get<2>(r), "nothing is in an empty directory");
    irv_assert(d->empty(), "which is empty");
    irv_cover("empty");
}
// the operations of the directory
static BtreeDirectory* operation(bool& nothing)
{
    auto* d = world();
    nothing = irv_split(irv_var("nothing", 0, 1));
    d->m_flags[4] = INVALID_PAGE;
    X.key = ~WANTED;
    if (nothing)
        return d;
    d->m_flags[4] = ROOT;
    int s = choose("size", 1, 3);
    X.found = node(INVALID_PAGE, ROOT, s, false);
    X.equal = irv_split(irv_var("equal", 0, 1));
    X.at = choose("at", 0, X.equal ? s - 1 : s);
    lookup_in(X.found, X.at, X.equal);
    return d;
}
PROOF(C07_get)
{
    bool nothing;
    auto* d = operation(nothing);
    id_type id;
    int type = -1;
    auto r = d->BtreeDirectory::get_entry_impl(std::string_view((const char*)&X.key, 8), id, type);
    irv_assert(r.has_value() == (!nothing && X.equal), "a name is found exactly if it is there");
    if (r)
    {
        Snap s = snap(X.found->m_entries[X.at]);
        irv_assert(type == (int)s.type && !memcmp(id.data(), s.id, 32), "with its id and type");
        irv_assert(r->size() == 8 && !memcmp(r->data(), &s.k, 8), "and the name as it was added");
        irv_cover("found");
    }
    else
        irv_cover("absent");
}
PROOF(C07_add)
{
    bool nothing;
    auto* d = operation(nothing);
    id_type id;
    irv_havoc(id.data(), 32, "id");
    int type = (int)irv_var("t", 0, 15);
    bool r = d->BtreeDirectory::add_entry_impl(std::string_view((const char*)&X.key, 8), id, type);
    irv_assert(r == (nothing || !X.equal), "a name is added exactly if it is not there");
    if (nothing)
    {
        auto* n = lookup(d->get_root_page());
        irv_assert(n && n->m_entries.size() == 1 && n->m_dirty && d->m_dirty && !X.inserts, "the first entry is the root");
        X.lifted = snap(n->m_entries[0]);
    }
    else
        irv_assert(X.inserts == (r ? 1 : 0), "it is inserted once");
    if (r)
    {
        if (!nothing)
            irv_assert(X.grown == X.found && X.lifted_child == INVALID_PAGE && X.at == 0, "into the leaf it belongs to");
        irv_assert(X.lifted.k == X.key && X.lifted.type == (uint32_t)type && !memcmp(X.lifted.id, id.data(), 32), "the name with the id and type");
        irv_cover("added");
    }
    else
        irv_cover("refused");
}
PROOF(C07_remove)
{
    bool nothing;
    auto* d = operation(nothing);
    X.leaf = nothing ? nullptr : irv_split(irv_var("other_leaf", 0, 1)) ? node(ROOT, 60, 6, false) : X.found;
    id_type id;
    int type = -1;
    int64_t at = X.at;
    bool r = d->BtreeDirectory::remove_entry_impl(std::string_view((const char*)&X.key, 8), id, type);
    irv_assert(r == (!nothing && X.equal), "a name is removed exactly if it is there");
    irv_assert(X.replaces == r && X.balances == r, "once, and the tree is balanced");
    if (r)
    {
        Snap s = snap(X.found->m_entries[at]);
        irv_assert(X.grown == X.leaf && X.at == 0, "from the leaf that lost an entry");
        irv_assert(type == (int)s.type && !memcmp(id.data(), s.id, 32), "its id and type are reported");
        irv_cover("removed");
    }
    else
        irv_cover("absent");
}
PROOF(C07_too_long)
{
    auto* d = world();
    uint64_t n = irv_var("n", 256, 1u << 20);
    char* p = (char*)irv_array("name", n);
    int op = choose("op", 0, 2);
    id_type id;
    int type;
    try
    {
        if (op == 0)
            d->BtreeDirectory::add_entry_impl(std::string_view(p, n), id, 4);
        else if (op == 1)
            d->BtreeDirectory::get_entry_impl(std::string_view(p, n), id, type);
        else
            d->BtreeDirectory::remove_entry_impl(std::string_view(p, n), id, type);
        irv_assert(false, "a name too long is refused");
    }
    catch (const ExceptionBase& e)
    {
        irv_assert(e.error_number() == ENAMETOOLONG && !X.finds, "as too long");
        irv_cover("refused");
    }
}
PROOF(C07_empty)
{
    auto* d = world();
    int s = choose("size", 0, M);
    node(INVALID_PAGE, ROOT, s, s && irv_split(irv_var("inner", 0, 1)));
    d->m_flags[4] = ROOT;
    irv_assert(d->empty() == (s == 0), "a directory is empty exactly if its root is");
    irv_cover("asked");
}
#endif
