// C08: metadata of full-format file objects.
// irv: contract ^securefs::generate_random\( => c_random
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::hkdf\( => c_hkdf
// irv: contract ^securefs::AES_SIV::AES_SIV\( => c_siv
// irv: contract ^securefs::AES_SIV::~AES_SIV\( => c_siv_end
// irv: contract ^securefs::make_cryptstream_aes_gcm\( => c_make
// irv: contract ^securefs::OSService::get_current_time\( => c_now
// irv: contract ^securefs::OSService::getuid => c_getuid
// irv: contract ^securefs::OSService::getgid => c_getgid
// irv: contract ^securefs::OSService::get_default\( => c_os
#include "stream_spec.h"
#include "nolog.h"
#ifdef IRV
#include <map>
#include "streams.cpp"
#include "files.cpp"
using namespace securefs;
using spec::SpecStream;
#include "file_env.h"

static uint32_t flag(FileBase* f, int i)
{
    return i == 0 ? f->get_mode() : i == 1 ? f->get_uid() : i == 2 ? f->get_gid() : i == 3 ? f->get_nlink()
        : i == 4 ? f->get_root_page() : i == 5 ? f->get_start_free_page() : f->get_num_free_page();
}
static fuse_timespec tm(FileBase* f, int i)
{
    return i == 0 ? f->get_atime() : i == 1 ? f->get_mtime() : i == 2 ? f->get_ctime() : f->get_birthtime();
}
static bool same(fuse_timespec a, fuse_timespec b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }

// opening reads every field from its place in the header
PROOF(C08_open)
{
    Env e;
    FileBase* f = open<RegularFile>(e, irv_split(irv_var("padded", 0, 1)));
    irv_assert(e.h.reads >= 1 && e.h.writes == 0, "opening reads the header and writes none");
    irv_assert(G.sivkey, "attribute names are encrypted");
    irv_assert(e.s.writes == 0 && e.s.resizes == 0, "opening leaves the content alone");
    irv_assert(f->get_id().data()[G.k] == G.id[G.k], "the id");
    if (!e.h.present)
    {
        irv_assert(f->get_num_free_page() == 0, "a new file has no free pages");
        irv_cover("new");
        return;
    }
    for (int i = 0; i < 7; ++i)
        irv_assert(flag(f, i) == le32(e.h.h + 4 * i), "mode, owner, group, links and pages are those stored");
    if (G.store)
        for (int i = 0; i < 4; ++i)
        {
            fuse_timespec t = tm(f, i);
            irv_assert((uint64_t)t.tv_sec == le64(e.h.h + 28 + 12 * i) && (uint64_t)t.tv_nsec == le32(e.h.h + 36 + 12 * i),
                       "the times are those stored");
        }
    irv_cover("read");
}
struct State
{
    uint32_t fl[7];
    fuse_timespec t[4];
    bool dirty;
};
static void arbitrary(FileBase* f)
{
    for (int i = 0; i < 7; ++i)
        f->m_flags[i] = (uint32_t)irv_var("flag", 0, 0xFFFFFFFFu);
    fuse_timespec* t[4] = {&f->m_atime, &f->m_mtime, &f->m_ctime, &f->m_birthtime};
    for (int i = 0; i < 4; ++i)
    {
        t[i]->tv_sec = irv_var("sec", 0, ~0ull);
        t[i]->tv_nsec = irv_var("nsec", 0, 999999999);
    }
    f->m_dirty = irv_var("dirty", 0, 1);
}
static State get(FileBase* f)
{
    State s;
    for (int i = 0; i < 7; ++i)
        s.fl[i] = flag(f, i);
    for (int i = 0; i < 4; ++i)
        s.t[i] = tm(f, i);
    s.dirty = f->m_dirty;
    return s;
}
// flush stores every field at its place; reading it back gives the same values
PROOF(C08_flush)
{
    Env e;
    FileBase* f = open<RegularFile>(e);
    arbitrary(f);
    State a = get(f);
    uint64_t fl = e.s.flushes;
    f->flush();
    irv_assert(e.h.writes == (a.dirty ? 1 : 0), "the header is stored exactly when something changed");
    irv_assert(e.h.flushes >= 1 && e.s.flushes > fl, "header and content are flushed");
    irv_assert(!f->m_dirty, "clean after a flush");
    State b = get(f);
    for (int i = 0; i < 7; ++i)
        irv_assert(a.fl[i] == b.fl[i], "flushing changes no field");
    if (!a.dirty)
        return;
    for (int i = 0; i < 7; ++i)
        irv_assert(le32(e.h.h + 4 * i) == a.fl[i], "every field is stored at its place");
    if (G.store)
        for (int i = 0; i < 4; ++i)
            irv_assert(le64(e.h.h + 28 + 12 * i) == (uint64_t)a.t[i].tv_sec && le32(e.h.h + 36 + 12 * i) == (uint64_t)a.t[i].tv_nsec,
                       "every time is stored at its place");
    // scramble the object and read the header again
    for (int i = 0; i < 7; ++i)
        f->m_flags[i] = (uint32_t)irv_var("junk", 0, 0xFFFFFFFFu);
    f->m_atime = f->m_mtime = f->m_ctime = f->m_birthtime = fuse_timespec{};
    f->read_header();
    State c = get(f);
    for (int i = 0; i < 7; ++i)
        irv_assert(a.fl[i] == c.fl[i], "the fields read back unchanged");
    if (G.store)
        for (int i = 0; i < 4; ++i)
            irv_assert(same(a.t[i], c.t[i]), "the times read back unchanged");
    irv_cover("round trip");
}
// a setter changes its own field (and the change time), nothing else
PROOF(C08_setters)
{
    Env e;
    FileBase* f = open<RegularFile>(e);
    arbitrary(f);
    State a = get(f);
    G.nows = 0;
    int which = irv_concretize(irv_var("which", 0, 11));
    uint32_t v = irv_var("v", 0, 0xFFFFFFFFu);
    fuse_timespec t{(time_t)irv_var("s", 0, ~0ull), (long)irv_var("n", 0, 999999999)};
    int field = which, tfield = -1;
    bool nochange = which < 7 && v == a.fl[which < 7 ? which : 0];
    switch (which)
    {
    case 0: f->set_mode(v); break;
    case 1: f->set_uid(v); break;
    case 2: f->set_gid(v); break;
    case 3: f->set_nlink(v); break;
    case 4: f->set_root_page(v); break;
    case 5: f->set_start_free_page(v); break;
    case 6: f->set_num_free_page(v); break;
    case 7: f->set_atime(t); field = -1; tfield = 0; break;
    case 8: f->set_mtime(t); field = -1; tfield = 1; break;
    case 9: f->set_ctime(t); field = -1; tfield = 2; break;
    case 10:
        f->unlink();
        field = 3;
        v = a.fl[3] - 1;
        break;
    default:
        f->fsync();
        irv_assert(e.d.syncs == 1 && e.m.syncs == 1, "both files are synced");
        field = -1;
    }
    State b = get(f);
    for (int i = 0; i < 7; ++i)
        irv_assert(b.fl[i] == (i == field ? v : a.fl[i]), "a setter changes its own field only");
    for (int i = 0; i < 4; ++i)
    {
        if (i == tfield)
            irv_assert(same(b.t[i], t), "the time is set");
        else if (i == 2 && which < 4 && G.store && !nochange)
            irv_assert(same(b.t[i], G.now) && G.nows == 1, "a change of the metadata sets the change time");
        else
            irv_assert(same(b.t[i], a.t[i]), "the other times are left alone");
    }
    if (which <= 10 && !(which < 4 && nochange))
        irv_assert(b.dirty, "a change will be stored");
    if (a.dirty)
        irv_assert(b.dirty, "a pending change stays pending");
    irv_assert(f->is_unlinked() == (b.fl[3] == 0), "unlinked exactly when no link is left");
    irv_cover("set");
}
PROOF(C08_initialize)
{
    Env e;
    FileBase* f = open<RegularFile>(e);
    State z = get(f);
    G.nows = 0;
    uint32_t mode = irv_var("mode", 0, 0xFFFFFFFFu), uid = irv_var("uid", 0, 0xFFFFFFFFu), gid = irv_var("gid", 0, 0xFFFFFFFFu);
    f->initialize_empty(mode, uid, gid);
    State b = get(f);
    irv_assert(b.fl[0] == mode, "mode");
    irv_assert(b.fl[1] == (uid == 0xFFFFFFFFu ? 4711 : uid), "owner");
    irv_assert(b.fl[2] == (gid == 0xFFFFFFFFu ? 4712 : gid), "group");
    irv_assert(b.fl[3] == 1, "one link");
    irv_assert(b.fl[4] == 0xFFFFFFFFu && b.fl[5] == 0xFFFFFFFFu && b.fl[6] == 0, "no pages");
    for (int i = 0; i < 4; ++i)
        irv_assert(same(b.t[i], G.store ? G.now : fuse_timespec{}), "all times are now");
    irv_assert(!G.store || G.nows == 1, "one reading of the clock");
    if (!e.h.present)
        irv_assert(b.dirty, "a new file will be stored");
    irv_cover("initialised");
}
PROOF(C08_utimens)
{
    Env e;
    FileBase* f = open<RegularFile>(e);
    arbitrary(f);
    State a = get(f);
    G.nows = 0;
    fuse_timespec ts[2] = {{(time_t)irv_var("s0", 0, ~0ull), (long)irv_var("n0", 0, 999999999)},
                           {(time_t)irv_var("s1", 0, ~0ull), (long)irv_var("n1", 0, 999999999)}};
    bool given = irv_split(irv_var("given", 0, 1));
    f->utimens(given ? ts : nullptr);
    State b = get(f);
    for (int i = 0; i < 7; ++i)
        irv_assert(b.fl[i] == a.fl[i], "only times change");
    if (!G.store)
    {
        irv_assert(e.d.utimes == 1 && e.m.utimes == 0 && e.d.ts == (given ? ts : nullptr), "the times are kept by the data file");
        for (int i = 0; i < 4; ++i)
            irv_assert(same(b.t[i], a.t[i]), "times in the header are not used");
        irv_cover("outside");
        return;
    }
    irv_assert(G.nows >= 1 && b.dirty && e.d.utimes == 0, "the times will be stored");
    irv_assert(same(b.t[2], G.now), "the change time is now");
    irv_assert(same(b.t[0], given ? ts[0] : G.now) && same(b.t[1], given ? ts[1] : G.now), "access and modification time are those given, or now");
    irv_assert(same(b.t[3], a.t[3]), "the birth time is left alone");
    irv_cover("inside");
}
PROOF(C08_stat)
{
    Env e;
    FileBase* f = open<RegularFile>(e, irv_split(irv_var("padded", 0, 1)));
    arbitrary(f);
    State a = get(f);
    fuse_stat st;
    f->stat(&st);
    irv_assert(st.st_ino == ~le64(G.id), "the inode number is made of the id");
    irv_assert(st.st_mode == a.fl[0] && st.st_uid == a.fl[1] && st.st_gid == a.fl[2] && st.st_nlink == a.fl[3], "mode, owner, group, links");
    irv_assert((uint64_t)st.st_size == e.s.sz - (G.maxpad ? G.pad : 0), "the size is that of the content");
    if (G.store)
        irv_assert(same(st.st_atim, a.t[0]) && same(st.st_mtim, a.t[1]) && same(st.st_ctim, a.t[2]), "times");
    State b = get(f);
    irv_assert(a.dirty == b.dirty && a.fl[0] == b.fl[0] && same(a.t[0], b.t[0]), "asking changes nothing");
    irv_cover("stat");
}
// reads, writes and truncations keep the times current
PROOF(C08_touch)
{
    Env e;
    RegularFile* f = open<RegularFile>(e);
    arbitrary(f);
    State a = get(f);
    G.nows = 0;
    uint64_t n = irv_var("len", 0, 1ull << 40), off = irv_var("off", 0, 1ull << 40);
    uint8_t* p = (uint8_t*)irv_array("p", n);
    int op = irv_concretize(irv_var("op", 0, 2));
    if (op == 0)
    {
        uint64_t r = f->read(p, off, n), sz = e.s.sz;
        irv_assert(r == (off >= sz ? 0 : sz - off < n ? sz - off : n), "the content is read");
    }
    else if (op == 1)
    {
        f->write(p, off, n);
        irv_assert(e.s.writes == 1 && e.s.w_off == off && e.s.w_len == n, "the content is written");
    }
    else
    {
        f->truncate(n);
        irv_assert(e.s.sz == n && f->size() == n, "the content is resized");
    }
    State b = get(f);
    for (int i = 0; i < 7; ++i)
        irv_assert(b.fl[i] == a.fl[i], "only times change");
    irv_assert(same(b.t[3], a.t[3]), "the birth time is left alone");
    if (!G.store)
        irv_assert(same(b.t[0], a.t[0]) && same(b.t[1], a.t[1]) && same(b.t[2], a.t[2]), "times in the header are not used");
    else if (op == 0)
    {
        irv_assert(same(b.t[1], a.t[1]) && same(b.t[2], a.t[2]), "reading leaves modification and change time alone");
        irv_assert(same(b.t[0], G.nows ? G.now : a.t[0]), "the access time is kept or set to now");
        if (a.t[0].tv_sec < a.t[1].tv_sec || a.t[0].tv_sec < a.t[2].tv_sec)
            irv_assert(G.nows == 1 && b.dirty, "an outdated access time is renewed");
    }
    else
    {
        irv_assert(same(b.t[1], G.now) && same(b.t[2], G.now) && G.nows == 1 && b.dirty, "modification and change time are now");
        irv_assert(same(b.t[0], a.t[0]), "the access time is left alone");
    }
    irv_cover("touched");
}
// the type is that of the mode; a mismatch is reported
template <class T, class U>
static void cast(int have, int want)
{
    Env e;
    FileBase* f = open<T>(e);
    arbitrary(f);
    uint32_t mode = f->get_mode();
    irv_assert(f->get_real_type() == (int)((mode & S_IFMT) >> 12), "the stored type is that of the mode");
    irv_assert(f->type() == have, "the type of the object");
    int r = 0;
    void* q = nullptr;
    try
    {
        q = f->template cast_as<U>();
    }
    catch (const InvalidCastException& x)
    {
        r = 1;
    }
    catch (const ExceptionBase&)
    {
        r = 2;
    }
    bool match = (mode & S_IFMT) == (uint32_t)have << 12;
    irv_assert(r == (!match ? 2 : have != want ? 1 : 0), "used exactly when mode, object and request agree on the type");
    if (r == 0)
        irv_assert(q == (void*)static_cast<U*>(static_cast<FileBase*>(f)), "the object itself");
    irv_cover("cast");
}
PROOF(C08_cast_rr) { cast<RegularFile, RegularFile>(8, 8); }
PROOF(C08_cast_rs) { cast<RegularFile, Symlink>(8, 10); }
PROOF(C08_cast_rd) { cast<RegularFile, Directory>(8, 4); }
PROOF(C08_cast_sr) { cast<Symlink, RegularFile>(10, 8); }
PROOF(C08_cast_ss) { cast<Symlink, Symlink>(10, 10); }
// a link's target round-trips
PROOF(C08_symlink)
{
    Env e;
    Symlink* f = open<Symlink>(e);
    irv_assume(e.s.sz == 0);
    uint64_t n = irv_var("n", 0, 1ull << 40), x = irv_var("x", 0, 1ull << 40);
    irv_focus(x);
    char* p = (char*)irv_array("target", n);
    f->set(std::string_view(p, n));
    irv_assert(e.s.sz == n && e.s.w_off == 0, "the target is the content");
    if (irv_split(n <= 15))
        irv_unroll(16);
    std::string r = f->get();
    irv_assert(r.size() == n, "length of the target");
    if (x < n)
        irv_assert(r[x] == p[x], "the target reads back");
    irv_cover("link");
}
#endif
