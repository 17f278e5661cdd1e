// C10: name translation of the lite format.
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
// irv: contract ^securefs::ThreadLocal<securefs::AES_SIV>::get\( => c_siv_of
// irv: contract ^securefs::ThreadLocalBase::ThreadLocalBase\( => c_tl_begin
// irv: contract ^securefs::ThreadLocalBase::~ThreadLocalBase\( => c_tl_end
// irv: contract ^securefs::AES_SIV::encrypt_and_authenticate\( => c_siv_enc
// irv: contract ^securefs::AES_SIV::decrypt_and_verify\( => c_siv_dec
// irv: contract ^absl::Splitter::operator absl::InlinedVector => c_split
// irv: contract ^una::norm::to_nfc_utf8 => c_nfc
// irv: contract ^una::cases::to_casefold_utf8 => c_fold
// irv: assumes the Unicode normalisation functions of the library (a stand-in natively; out of scope)
// irv: contract ^securefs::base32_encode\( => c_b32
// irv: contract ^securefs::base32_decode\( => c_unb32
// irv: assumes AES-SIV is deterministic and accepts exactly what it produced (C05); base32 is injective and inverted by decoding (C16)
// irv: assumes ThreadLocal::get returns an object its initializer made (one per thread)
// irv: contract ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::reserve\(unsigned long\) => c_reserve
// irv: original ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::reserve\(unsigned long\) => orig_reserve
// irv: assumes the contents of a std::string do not depend on its capacity (reserve is given a large one, so that appends do not reallocate)
#include "irv.h"
#include "nolog.h"
#ifdef IRV
#include <sstream>
#include <variant>
#include "platform.h"
#define private public
#define protected public
#include "lite_format.cpp"
#undef private
#undef protected
using namespace securefs;
using namespace securefs::lite_format;

static std::string* g_first;    // the string reserved first
struct Piece
{
    const uint8_t* t;
    uint64_t n;
    bool is_long;
    uint8_t* enc;
    uint64_t encn;
};
static bool symlink_on();
static void group(const uint8_t* in, size_t n, std::string& out);
static struct
{
    uint8_t key[32];
    const uint8_t* text;    // the stored name
    uint64_t n, x, k;
    uint8_t iv[16], digest[32];
    uint8_t *ct, *raw, *pt;
    uint64_t rawn, ctn;
    bool ok, refuse;
    int encs, decs, b32s, unb32s, hb, hu, hf;
    void* h;
    // what is encrypted: pieces, then (at most once) the last name for the table
    Piece p[4];
    unsigned count, cur;
    const char* path;
    bool want_last, in_last;
    uint8_t* last;
    uint64_t lastn;
    std::string* out;
} X;
extern "C"
{
    void orig_reserve(std::string*, size_t);
    void c_reserve(std::string* s, size_t n)
    {
        orig_reserve(s, n < (1 << 25) ? 1 << 25 : n);
        if (!g_first)
            g_first = s;
    }
    void c_nowarn(const void*, size_t, const char*, int) {}
    void c_tl_begin(void*) {}
    void c_tl_end(void*) {}
    void* c_siv_of(void*) { return &X; }
    // the piece whose turn it is
    static Piece& turn()
    {
        while (X.cur < X.count && X.p[X.cur].n == 0)
            ++X.cur;
        if (X.cur >= X.count)
        {
            irv_assert(X.want_last && !X.in_last, "every name is encrypted once");
            X.in_last = true;
            X.cur = X.count - 1;
        }
        return X.p[X.cur];
    }
    void c_hash_begin(void* h, int alg, const void* key, size_t kl, size_t dl)
    {
        irv_assert(alg == 3 && dl == 32, "a 32 byte BLAKE2b");
        irv_assert(kl == 32 && ((const uint8_t*)key)[X.k] == X.key[X.k], "keyed by the name key");
        X.h = h;
        X.hb = 1;
        X.hu = X.hf = 0;
    }
    void c_hash_update(void* h, int, const void* in, size_t n)
    {
        Piece& p = turn();
        irv_assert(h == X.h && X.hu++ == 0 && n == p.n && (X.x >= n || ((const uint8_t*)in)[X.x] == p.t[X.x]), "the whole name is hashed");
        irv_assert(p.is_long && !X.in_last, "only long names are hashed");
    }
    void c_hash_final(void* h, int, void* out, size_t n)
    {
        irv_assert(h == X.h && n == 32 && X.hu == 1, "the whole digest is taken");
        irv_havoc(X.digest, 32, "digest");
        memcpy(out, X.digest, 32);
        X.hf = 1;
    }
    void c_siv_enc(AES_SIV* s, const void* in, size_t n, const void*, size_t an, void* ct, void* iv)
    {
        Piece& p = turn();
        irv_assert((void*)s == &X, "the name key");
        irv_assert(an == 0, "no associated data");
        if (p.is_long && !X.in_last)
            irv_assert(X.hf == 1 && n == 32 && ((const uint8_t*)in)[X.k] == X.digest[X.k], "the hash of a long name is encrypted");
        else
            irv_assert(n == p.n && (X.x >= n || ((const uint8_t*)in)[X.x] == p.t[X.x]), "the name is encrypted");
        X.ct = (uint8_t*)irv_array("ct", n);
        X.ctn = n;
        irv_havoc(X.iv, 16, "tag");
        memcpy(ct, X.ct, n);
        memcpy(iv, X.iv, 16);
        X.encs = 1;
    }
    bool c_siv_dec(AES_SIV* s, const void* ct, size_t n, const void*, size_t an, void* pt, const void* iv)
    {
        irv_assert((void*)s == &X, "the name key");
        irv_assert(X.rawn >= 16 && n == X.rawn - 16 && (X.x >= n || ((const uint8_t*)ct)[X.x] == X.raw[16 + X.x]), "everything after the tag is verified");
        irv_assert(((const uint8_t*)iv)[X.k & 15] == X.raw[X.k & 15], "the tag comes first");
        irv_assert(an == 0, "no associated data");
        memcpy(pt, X.pt, n);
        ++X.decs;
        return X.ok;
    }
    void c_b32(const uint8_t* in, size_t n, std::string& out)
    {
        if (symlink_on())
            return group(in, n, out);
        Piece& p = X.p[X.cur];
        irv_assert(X.encs == 1 && n == X.ctn + 16, "tag and ciphertext are encoded");
        irv_assert(in[X.k & 15] == X.iv[X.k & 15], "the tag comes first");
        irv_assert(X.x >= X.ctn || in[16 + X.x] == X.ct[X.x], "then the ciphertext");
        if (X.in_last)
        {
            irv_assert(&out == X.out, "the name goes to the caller");
            out = std::string((char*)X.last, X.lastn);
        }
        else
            out = std::string((char*)p.enc, p.encn);
        X.encs = X.hf = 0;
        ++X.b32s;
        if (!X.in_last)
            ++X.cur;
    }
    void c_unb32(const char* in, size_t n, std::string& out)
    {
        irv_assert(n == X.n && (X.x >= n || (uint8_t)in[X.x] == X.text[X.x]), "the whole stored name is decoded");
        if (X.refuse)
            throwVFSException(EINVAL);
        out = std::string((char*)X.raw, X.rawn);
        ++X.unb32s;
    }
    void c_split(absl::InlinedVector<std::string_view, 7>* r, const absl::Splitter* s)
    {
        new (r) absl::InlinedVector<std::string_view, 7>();
        for (unsigned i = 0; i < X.count; ++i)
            r->emplace_back((const char*)X.p[i].t, X.p[i].n);
    }
}
static key_type begin(uint64_t cap, const char* what)
{
    memset(&X, 0, sizeof(X));
    g_first = nullptr;
    irv_havoc(X.key, 32, "key");
    X.n = irv_len(what, 1, cap, 300);
    X.text = (uint8_t*)irv_array(what, X.n);
    X.x = irv_var("x", 0, 1ull << 32);
    X.k = irv_var("k", 0, 31);
    irv_focus(X.x);
    key_type k;
    memcpy(k.data(), X.key, 32);
    return k;
}
// what the decoding of base32 gives
static void decoded()
{
    if (irv_split(irv_var("tiny", 0, 1)))
        X.rawn = irv_concretize(irv_var("raw", 0, 31));
    else
        X.rawn = irv_len("raw", 32, 1ull << 30, 300);
    X.raw = (uint8_t*)irv_array("raw", X.rawn);
    X.pt = (uint8_t*)irv_array("plain", X.rawn);
    X.ok = irv_split(irv_var("ok", 0, 1));
    X.refuse = irv_split(irv_var("refuse", 0, 1));
}
static void judge(NameTranslator& t)
{
    bool thrown = false;
    std::variant<InvalidNameTag, LongNameTag, std::string> r;
    try
    {
        r = t.decrypt_path_component(std::string_view((const char*)X.text, X.n));
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    irv_assert(thrown == X.refuse, "text that is no encoding is refused");
    if (thrown)
        return;
    irv_assert(r.index() != 1, "not a long name");
    if (X.rawn <= 16 || !X.ok)
    {
        irv_assert(r.index() == 0, "what does not verify does not decode");
        irv_cover("refused");
        return;
    }
    irv_assert(X.decs == 1 && r.index() == 2, "a stored name decodes");
    const std::string& s = *std::get_if<std::string>(&r);
    irv_assert(s.size() == X.rawn - 16 && (X.x >= s.size() || (uint8_t)s[X.x] == X.pt[X.x]), "the name is what was decrypted");
    irv_cover("decoded");
}
PROOF(C10_decrypt_component_legacy)
{
    LegacyNameTranslator t(begin(1 << 20, "stored"));
    decoded();
    judge(t);
}
PROOF(C10_decrypt_component)
{
    key_type k = begin(1 << 20, "stored");
    uint64_t m = irv_concretize(irv_var("suffix", 0, 3));
    char* sfx = (char*)irv_array("suffix", m);
    NewStyleNameTranslator t(k, irv_var("threshold", 1, 1u << 30), std::string(sfx, m));
    const char* want = m ? sfx : "...";
    uint64_t wn = m ? m : 3;
    bool ends = irv_split(X.n >= wn) && memcmp(X.text + X.n - wn, want, wn) == 0;
    decoded();
    if (irv_split(ends))
    {
        auto r = t.decrypt_path_component(std::string_view((const char*)X.text, X.n));
        irv_assert(r.index() == 1, "a name with the suffix is a long name");
        irv_cover("long");
        return;
    }
    judge(t);
}
// paths: every component is translated in its place.  The pieces are those the path was split into
static Piece piece(unsigned th)
{
    Piece p;
    p.n = irv_split(irv_var("empty", 0, 1)) ? 0 : irv_len("name", 1, 1 << 20, 300);
    p.t = (uint8_t*)irv_array("name", p.n);
    p.is_long = p.n ? irv_split(p.n > th) : false;
    p.encn = p.n ? irv_len("enc", 28, 1ull << 22, 500) : 0;
    p.enc = (uint8_t*)irv_array("enc", p.encn);
    return p;
}
static void paths(unsigned pieces)
{
    key_type k = begin(1 << 20, "path");
    unsigned th = irv_var("threshold", 1, 1u << 30);
    uint64_t m = irv_split(irv_var("default suffix", 0, 1)) ? 0 : 5;
    char* sfx = (char*)irv_array("suffix", m);
    X.count = pieces;
    for (unsigned i = 0; i < pieces; ++i)
        X.p[i] = piece(th);
    bool ask = X.p[pieces - 1].is_long ? irv_split(irv_var("ask", 0, 1)) : true;
    X.want_last = ask && X.p[pieces - 1].is_long;
    X.lastn = irv_len("entry", 28, 1ull << 22, 500);
    X.last = (uint8_t*)irv_array("entry", X.lastn);
    std::string out;
    X.out = &out;
    NewStyleNameTranslator t(k, th, std::string(sfx, m));
    std::string r = t.encrypt_full_path(std::string_view((const char*)X.text, X.n), ask ? &out : nullptr);
    const char* want = m ? sfx : "...";
    irv_assert(r[0] == '.', "relative to the root");
    uint64_t pos = 1, wn = m ? m : 3;
    unsigned named = 0;
    for (unsigned i = 0; i < pieces; ++i)
    {
        irv_assert(r[pos] == '/', "one separator for every one of the path");
        irv_assert(X.x >= X.p[i].encn || (uint8_t)r[pos + 1 + X.x] == X.p[i].enc[X.x], "the name is the encoding");
        pos += 1 + X.p[i].encn;
        if (X.p[i].n)
            ++named;
        if (X.p[i].is_long)
        {
            FORALL(j, wn)
            irv_assert(r[pos + j] == want[j], "and the suffix of a long name");
            pos += wn;
        }
    }
    irv_assert(r.size() == pos, "and nothing else");
    irv_assert(X.b32s == (int)(named + X.want_last), "every name is translated");
    if (X.want_last)
        irv_assert(out.size() == X.lastn && (X.x >= X.lastn || (uint8_t)out[X.x] == X.last[X.x]), "the entry for the table");
    else
        irv_assert(out.empty(), "no entry for the table");
    irv_cover("path");
}
PROOF(C10_encrypt_path_1) { paths(1); }
PROOF(C10_encrypt_path_2) { paths(2); }
PROOF_DEEP(C10_encrypt_path_3) { paths(3); }

// symlink targets: the whole target is encrypted, and encoded in groups of 60 bytes
static struct
{
    bool on;
    uint64_t total, groups, full, lastn, y;
    uint8_t* e;    // the encodings, one after another
} L;
static bool symlink_on() { return L.on; }
static uint64_t t_groups(void*, uint64_t n) { return n; }
static uint64_t t_len(void*, uint64_t n) { return n <= L.full ? 97 * n : 97 * L.full + 1 + L.lastn; }
static void group(const uint8_t* in, size_t n, std::string& out)
{
    uint64_t b = 60 * L.groups;
    irv_assert(b < L.total && n == (L.total - b < 60 ? L.total - b : 60), "the next group of 60 bytes");
    irv_assert(L.y < b || L.y >= b + n || in[L.y - b] == (L.y < 16 ? X.iv[L.y] : X.ct[L.y - 16]), "tag and ciphertext are encoded in order");
    out.assign((const char*)L.e + 96 * L.groups, n == 60 ? 96 : L.lastn);
    ++L.groups;
}
PROOF(C10_encrypt_symlink)
{
    key_type k = begin(1 << 20, "target");
    NewStyleNameTranslator t(k, irv_var("threshold", 1, 1u << 30), "");
    X.count = 1;
    X.p[0].t = X.text;
    X.p[0].n = X.n;
    memset(&L, 0, sizeof(L));
    L.on = true;
    L.total = X.n + 16;
    L.full = L.total / 60;
    L.lastn = irv_len("rest", 2, 95, 95);
    L.y = irv_var("y", 0, 1 << 21);
    L.e = (uint8_t*)irv_array("encodings", 1 << 22);
    irv_track(t_groups, nullptr);
    irv_track(t_len, nullptr);
    std::string r = t.encrypt_path_for_symlink(std::string_view((const char*)X.text, X.n));
    uint64_t rest = L.total - 60 * L.full;
    irv_assert(L.groups == L.full + (rest > 0), "every group is encoded");
    irv_assert(r.size() == 97 * L.full + (rest ? 1 + L.lastn : 0), "the stored target");
    irv_cover("target");
}
// what the other translators do
struct Spec : public NameTranslator
{
    const char* p;
    uint64_t n;
    std::string* last;
    int calls = 0, kind = 0;
    std::string text(std::string_view v, int k)
    {
        irv_assert(v.size() == n && (X.x >= n || v[X.x] == p[X.x]), "the text is handed on");
        ++calls;
        kind = k;
        return std::string((char*)X.raw, X.rawn);
    }
    std::string encrypt_full_path(std::string_view v, std::string* l) override
    {
        irv_assert(l == last, "the name for the table is handed on");
        return text(v, 1);
    }
    std::variant<InvalidNameTag, LongNameTag, std::string> decrypt_path_component(std::string_view v) override { return text(v, 2); }
    std::string encrypt_path_for_symlink(std::string_view v) override { return text(v, 3); }
    std::string decrypt_path_from_symlink(std::string_view v) override { return text(v, 4); }
    unsigned max_virtual_path_component_size(unsigned n) override { return n / 2; }
};
static struct
{
    bool nfc, fold;
    uint8_t *a, *b;
    uint64_t an, bn;
    int done;
} N;
extern "C"
{
    std::string c_nfc(std::string_view v)
    {
        irv_assert(N.nfc && N.done++ == 0 && v.size() == X.n && (X.x >= v.size() || (uint8_t)v[X.x] == X.text[X.x]), "the path is composed");
        return std::string((char*)N.a, N.an);
    }
    std::string c_fold(std::string_view v)
    {
        uint64_t n = N.nfc ? N.an : X.n;
        const uint8_t* p = N.nfc ? N.a : X.text;
        irv_assert(N.fold && N.done++ == N.nfc && v.size() == n && (X.x >= n || (uint8_t)v[X.x] == p[X.x]), "the (composed) path is case folded");
        return std::string((char*)N.b, N.bn);
    }
}
PROOF(C10_normalising)
{
    begin(1 << 20, "path");
    N.done = 0;
    N.nfc = irv_split(irv_var("nfc", 0, 1));
    N.fold = irv_split(irv_var("fold", 0, 1));
    if (!N.nfc && !N.fold)
        return;    // make_name_translator does not build such a one
    N.an = irv_len("composed", 16, 1 << 21, 300);
    N.a = (uint8_t*)irv_array("composed", N.an);
    N.bn = irv_len("folded", 16, 1 << 21, 300);
    N.b = (uint8_t*)irv_array("folded", N.bn);
    X.rawn = irv_len("result", 16, 1 << 21, 300);
    X.raw = (uint8_t*)irv_array("result", X.rawn);
    auto spec = new Spec;
    PathNormalizingNameTranslator t(std::shared_ptr<NameTranslator>(std::shared_ptr<void>(), spec), N.fold, N.nfc);
    std::string last, r;
    spec->last = irv_split(irv_var("ask", 0, 1)) ? &last : nullptr;
    int what = irv_concretize(irv_var("what", 1, 4));
    spec->p = (const char*)X.text;
    spec->n = X.n;
    std::string_view v((const char*)X.text, X.n);
    if (what == 1)
    {
        spec->p = (const char*)(N.fold ? N.b : N.a);
        spec->n = N.fold ? N.bn : N.an;
        r = t.encrypt_full_path(v, spec->last);
        irv_assert(N.done == N.nfc + N.fold, "every configured normalisation is applied");
    }
    else if (what == 2)
    {
        auto q = t.decrypt_path_component(v);
        irv_assert(q.index() == 2, "the result is handed on");
        r = std::move(*std::get_if<std::string>(&q));
    }
    else
        r = what == 3 ? t.encrypt_path_for_symlink(v) : t.decrypt_path_from_symlink(v);
    irv_assert(spec->calls == 1 && spec->kind == what, "one call of the inner translator");
    irv_assert(r.size() == X.rawn && (X.x >= X.rawn || (uint8_t)r[X.x] == X.raw[X.x]), "the result is handed on");
    irv_cover("normalised");
}
PROOF(C10_no_op)
{
    begin(1 << 20, "path");
    IRV_ONLY(if (irv_split(X.n < 16)) irv_unroll(18);)
    NoOpNameTranslator t;
    std::string_view v((const char*)X.text, X.n);
    int what = irv_concretize(irv_var("what", 1, 4));
    uint64_t pre = 0;
    std::string r, last;
    if (what == 1)
    {
        bool slash = irv_split(X.text[0] == '/');
        pre = slash ? 1 : 2;
        r = t.encrypt_full_path(v, &last);
        irv_assert(r[0] == '.' && (slash || r[1] == '/') && last.empty(), "relative to the root");
    }
    else if (what == 2)
    {
        auto q = t.decrypt_path_component(v);
        irv_assert(q.index() == 2, "every name is plain");
        r = std::move(*std::get_if<std::string>(&q));
    }
    else
        r = what == 3 ? t.encrypt_path_for_symlink(v) : t.decrypt_path_from_symlink(v);
    irv_assert(r.size() == X.n + pre && (X.x >= X.n || (uint8_t)r[pre + X.x] == X.text[X.x]), "the text as it is");
    irv_assert(t.is_no_op(), "kind");
    irv_cover("plain");
}
// the last separator: everything behind it is the name, everything up to it the parent
static uint64_t g_at;
static bool no_slash(void*, uint64_t n) { return X.x + n < X.n || X.x >= X.n || X.text[X.x] != '/'; }
static bool no_slash_at(void*, uint64_t n) { return g_at + n < X.n || g_at >= X.n || X.text[g_at] != '/'; }
PROOF(C10_components_of_path)
{
    begin(1 << 20, "path");
    std::string_view v((const char*)X.text, X.n);
    g_at = irv_var("at", 0, 1 << 20);
    irv_inv(no_slash, nullptr);
    irv_inv(no_slash_at, nullptr);
    uint64_t ls, ds;
    // both find the same separator: neither lies before the other
    bool first = irv_split(irv_var("first", 0, 1));
    auto last = [&]
    {
        std::string_view l = NameTranslator::get_last_component(v);
        ls = X.n - l.size();
        irv_assert(l.data() == v.data() + ls && l.size() <= X.n, "the name ends the path");
        irv_assert(X.x < ls || X.x >= X.n || X.text[X.x] != '/', "the name holds no separator");
        irv_assert(ls == 0 || X.text[ls - 1] == '/', "the name begins behind one");
        g_at = ls - 1;
    };
    auto parent = [&]
    {
        std::string_view d = NameTranslator::remove_last_component(v);
        ds = d.size();
        irv_assert(d.data() == v.data() && ds <= X.n, "the parent begins the path");
        irv_assert(X.x < ds || X.x >= X.n || X.text[X.x] != '/', "no separator behind the parent");
        irv_assert(ds == 0 || X.text[ds - 1] == '/', "the parent ends in a separator");
        g_at = ds - 1;
    };
    if (first)
        last(), parent();
    else
        parent(), last();
    irv_assert(first ? ds >= ls : ls >= ds, "parent and name make up the path");
    irv_cover("split");
}
// every configuration gives the translator it asks for
PROOF(C10_choice)
{
    NameNormalizationFlags f;
    f.no_op = irv_split(irv_var("no_op", 0, 1));
    f.should_case_fold = irv_split(irv_var("fold", 0, 1));
    f.should_normalize_nfc = irv_split(irv_var("nfc", 0, 1));
    f.long_name_threshold = irv_split(irv_var("modern", 0, 1)) ? irv_var("threshold", 1, 1u << 31) : 0;
    bool own = irv_split(irv_var("sfx", 0, 1));
    f.long_name_suffix = own ? ".ab" : "";
    key_type k;
    irv_havoc(k.data(), 32, "key");
    auto r = make_name_translator(f, StrongType<key_type, tNameMasterKey>(k));
    irv_assert(r->is_no_op() == f.no_op, "plain names only if asked for");
    if (f.no_op)
        return;
    NameTranslator* inner = r.get();
    if (f.should_case_fold || f.should_normalize_nfc)
    {
        auto q = (PathNormalizingNameTranslator*)r.get();
        irv_assert(q->case_fold_ == f.should_case_fold && q->nfc_ == f.should_normalize_nfc, "the normalisations asked for");
        inner = q->delegate_.get();
    }
    irv_assert(!memcmp(((AESSIVBasedNameTranslator*)inner)->name_master_key_.data(), k.data(), 32), "the name key");
    if (f.long_name_threshold)
    {
        auto q = (NewStyleNameTranslator*)inner;
        irv_assert(q->threshold_ == f.long_name_threshold, "the threshold");
        irv_assert(q->long_name_suffix_.size() == 3, "the suffix has its length");
        irv_assert(q->long_name_suffix_[0] == '.', "the suffix begins with a dot");
        irv_assert(q->long_name_suffix_[1] == (own ? 'a' : '.') && q->long_name_suffix_[2] == (own ? 'b' : '.'), "the suffix");
    }
    irv_cover("chosen");
}
#endif
