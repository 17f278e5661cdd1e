// C03: full-format file content.
// irv: assumes AES-GCM is a secure AEAD and HMAC-SHA256 a secure MAC of what they are called with (the proof shows which calls are made with what)
// irv: contract ^bool securefs::is_all_zeros\( => c_all_zeros
// irv: contract ^securefs::is_all_zeros\( => c_all_zeros
// irv: assumes no more than one null nonce is drawn in a row
// irv: contract ^securefs::generate_random\( => c_random
// irv: contract ^securefs::warn_if_key_not_random\( => c_nowarn
#include "stream_spec.h"
#include "nolog.h"
#include "streams.cpp"
using namespace securefs;
using spec::SpecStream;
typedef internal::AESGCMCryptStream S;
#ifdef IRV
struct Ghost
{
    SpecStream *u, *m;
    uint64_t bs, ivs, ms, hs, ehs, start, count, residue;
    uint64_t b, x, y, f, kf, idf;
    uint8_t key[32], mkey[32], id[32];
    const uint8_t *in;
    uint8_t *out;
    uint8_t pt, eb, mb;
    bool done, bad, check;
    const uint8_t *nz, *rnd;
    uint64_t nz_at, rnd_len, draws;
    // hashing
    uint64_t hashed;
    uint8_t mac[32];
    int hstate, begun;
    void* hobj;
    bool header;
} G;

extern "C" bool c_all_zeros(const void* p, size_t n)
{
    if (!(p == G.rnd && G.draws >= 2) && irv_var("all_zero", 0, 1))
    {
        if (G.x < n)
            irv_assume(((const uint8_t*)p)[G.x] == 0);
        if (G.y < n)
            irv_assume(((const uint8_t*)p)[G.y] == 0);
        return true;
    }
    uint64_t w = irv_var("nonzero_at", 0, 1ull << 40);
    irv_assume(w < n && ((const uint8_t*)p)[w] != 0);
    G.nz = (const uint8_t*)p;
    G.nz_at = w;
    return false;
}
extern "C" void c_nowarn(const void*, size_t, const char*, int) {}
extern "C" void c_random(void* p, size_t n)
{
    irv_havoc(p, n, "random");
    G.rnd = (const uint8_t*)p;
    G.rnd_len = n;
    ++G.draws;
}

static uint64_t meta_at(uint64_t block) { return 32 + G.ehs + block * G.ms; }
// what the code obtained from the data stream (compared with what it should have obtained at the end)
static uint64_t got() { return G.u->last_rc; }
static uint64_t should_get()
{
    uint64_t p = G.start * G.bs;
    uint64_t r = G.u->sz > p ? G.u->sz - p : 0, w = G.count * G.bs;
    return r < w ? r : w;
}
static uint64_t mgot() { return G.m->last_rc; }
static uint64_t should_mget()
{
    uint64_t p = meta_at(G.start);
    uint64_t r = G.m->sz > p ? G.m->sz - p : 0, w = G.count * G.ms;
    return r < w ? r : w;
}
static void check_key_aad(const uint8_t* k, size_t keylen, const uint8_t* aad, size_t aadlen)
{
    irv_assert(keylen == 32 && k[G.kf] == G.key[G.kf], "the data key is used");
    irv_assert(aadlen == 32 && aad[G.idf] == G.id[G.idf], "the associated data is the file id");
}
extern "C" bool c_gcm_decrypt(const void* key, size_t keylen, void* msg, const void* mac, size_t maclen, const void* iv,
                              int ivlen, const void* aad, size_t aadlen, const void* ct, size_t ctlen)
{
    check_key_aad((const uint8_t*)key, keylen, (const uint8_t*)aad, aadlen);
    irv_assert(ivlen == (int)G.ivs && maclen == 16 && (const uint8_t*)mac == (const uint8_t*)iv + G.ivs, "a nonce is followed by its tag");
    if (G.header)
    {
        irv_assert(ctlen == G.hs && (const uint8_t*)ct == (const uint8_t*)iv + G.ms, "the header is nonce, tag, ciphertext");
        if (G.x < G.ehs)
            irv_assert(((const uint8_t*)iv)[G.x] == G.m->d[32 + G.x], "the stored header is decrypted");
        irv_havoc(msg, ctlen, "decrypted");
        G.done = true;
        if (G.f < ctlen)
            G.pt = ((uint8_t*)msg)[G.f];
        return irv_var("tag_matches", 0, 1);
    }
    uint64_t pos = (uint8_t*)ct - (uint8_t*)irv_last_alloc();
    uint64_t idx = pos / G.bs, at = idx * G.bs;
    irv_assert(pos == at && at < got(), "only stored blocks are decrypted");
    uint64_t left = got() - at, len = left < G.bs ? left : G.bs;
    irv_assert(ctlen == len, "ciphertext length");
    irv_assert((uint8_t*)msg == G.out + at, "the plaintext goes to the position of the block");
    if (G.x < len)
        irv_assert(((const uint8_t*)ct)[G.x] == G.u->d[(G.start + idx) * G.bs + G.x], "the bytes decrypted are the stored bytes of the block");
    uint64_t ma = idx * G.ms + G.y;
    if (G.y < G.ms)
        irv_assert(((const uint8_t*)iv)[G.y] == (ma < mgot() ? G.m->d[meta_at(G.start) + ma] : 0),
                   "nonce and tag are those stored for the block");
    irv_havoc(msg, ctlen, "decrypted");
    bool ok = irv_var("tag_matches", 0, 1);
    if (!ok)
        G.bad = true;
    if (idx == G.b)
    {
        G.done = true;
        if (G.f < ctlen)
            G.pt = ((uint8_t*)msg)[G.f];
    }
    return ok;
}
static bool block_ok(uint64_t n)
{
    if (n <= G.b)
        return true;
    uint64_t at = G.b * G.bs;
    if (at >= got())
        return true;
    uint64_t left = got() - at, len = left < G.bs ? left : G.bs;
    if (G.f >= len)
        return true;
    uint8_t o = G.out[at + G.f];
    if (G.done)
        return o == G.pt;
    uint64_t ma = G.b * G.ms + G.y;
    return o == 0 && (G.x >= len || G.u->d[(G.start + G.b) * G.bs + G.x] == 0)
        && (G.y >= G.ms || ma >= mgot() || G.m->d[meta_at(G.start) + ma] == 0);
}
static bool inv_block(void*, uint64_t n) { return block_ok(n); }
static bool inv_notyet(void*, uint64_t n) { return n > G.b || !G.done; }
static bool inv_bad(void*, uint64_t n) { return !(G.bad && G.check); }
static uint64_t track_got(void*, uint64_t n)
{
    uint64_t at = n * G.bs;
    return at <= got() ? at : got();
}

static uint64_t total() { return G.count * G.bs + G.residue; }
static uint64_t blocks() { return G.count + (G.residue ? 1 : 0); }
extern "C" void c_gcm_encrypt(const void* key, size_t keylen, void* ct, void* mac, size_t maclen, const void* iv,
                              int ivlen, const void* aad, size_t aadlen, const void* msg, size_t msglen)
{
    check_key_aad((const uint8_t*)key, keylen, (const uint8_t*)aad, aadlen);
    irv_assert(ivlen == (int)G.ivs && maclen == 16 && (const uint8_t*)mac == (const uint8_t*)iv + G.ivs, "a nonce is followed by its tag");
    irv_assert(G.rnd == iv && G.rnd_len == G.ivs, "the nonce was drawn for this block");
    G.rnd = nullptr;
    G.draws = 0;
    if (G.header)
    {
        irv_assert(msglen == G.hs && (const uint8_t*)ct == (const uint8_t*)iv + G.ms, "the header is nonce, tag, ciphertext");
        if (G.f < G.hs)
            irv_assert(((const uint8_t*)msg)[G.f] == (G.f < G.count ? G.in[G.f] : 0), "the header is the given bytes, then zeros");
        irv_havoc(ct, msglen, "ciphertext");
        irv_havoc(mac, 16, "tag");
        G.done = true;
        if (G.x < G.ehs)
            G.eb = ((const uint8_t*)iv)[G.x];
        return;
    }
    uint8_t* base = (uint8_t*)irv_last_alloc();
    uint64_t pos = (uint8_t*)ct - base, idx = pos / G.bs, at = idx * G.bs;
    irv_assert(pos == at && at < total(), "only the requested blocks are encrypted");
    uint64_t left = total() - at, len = left < G.bs ? left : G.bs;
    irv_assert(msglen == len && (const uint8_t*)msg == G.in + at, "the plaintext is that of the block");
    irv_assert((uint8_t*)iv == base + total() + idx * G.ms, "the nonce and tag of a block are stored at its position");
    irv_assert(G.nz == iv && G.nz_at < G.ivs && ((const uint8_t*)iv)[G.nz_at] != 0, "the nonce is not zero");
    irv_havoc(ct, msglen, "ciphertext");
    irv_havoc(mac, 16, "tag");
    if (idx == G.b)
    {
        G.done = true;
        if (G.x < len)
            G.eb = ((const uint8_t*)ct)[G.x];
        if (G.y < G.ms)
            G.mb = ((const uint8_t*)iv)[G.y];
    }
}
static bool inv_written(void*, uint64_t n)
{
    if (n <= G.b || G.b >= blocks())
        return true;
    uint64_t at = G.b * G.bs, left = total() - at, len = left < G.bs ? left : G.bs;
    uint8_t* base = (uint8_t*)irv_last_alloc();
    return G.done && (G.x >= len || base[at + G.x] == G.eb) && (G.y >= G.ms || base[total() + G.b * G.ms + G.y] == G.mb);
}
static uint64_t track_total(void*, uint64_t n)
{
    uint64_t at = n * G.bs;
    return at <= total() ? at : total();
}

static S* make(SpecStream* u, SpecStream* m, unsigned bs, unsigned ivs, unsigned hs)
{
    key_type k, mk;
    id_type id;
    irv_havoc(G.key, 32, "key");
    irv_havoc(G.mkey, 32, "mkey");
    irv_havoc(G.id, 32, "id");
    memcpy(k.data(), G.key, 32);
    memcpy(mk.data(), G.mkey, 32);
    memcpy(id.data(), G.id, 32);
    G.u = u;
    G.m = m;
    G.bs = bs;
    G.ivs = ivs;
    G.ms = ivs + 16;
    G.hs = hs;
    G.ehs = G.hs + G.ms;
    G.check = irv_var("check", 0, 1);
    G.kf = irv_var("kf", 0, 31);
    G.idf = irv_var("idf", 0, 31);
    G.b = irv_var("b", 0, 1ull << 31);
    G.x = irv_var("x", 0, 1ull << 25);
    G.y = irv_var("y", 0, 100);
    G.f = irv_var("f", 0, 1ull << 25);
    G.done = G.bad = G.header = false;
    irv_focus(G.x);
    irv_focus(G.y);
    u->sz = irv_var("stored_size", 0, 1ull << 43);
    m->sz = irv_var("meta_size", 0, 1ull << 43);
    S* s = new S(std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), u),
                 std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), m), k, mk, id, false, bs, ivs, hs);
    s->m_check = G.check;
    irv_assert(!u->writes && !m->writes && !u->resizes && !m->resizes, "opening changes nothing");
    return s;
}
static void read_proof(unsigned bs, unsigned ivs, unsigned hs)
{
    SpecStream u, m;
    S* s = make(&u, &m, bs, ivs, hs);
    G.start = irv_var("start", 0, 1ull << 30);
    G.count = irv_var("count", 0, 1 << 20);
    uint64_t end = G.start + G.count;
    irv_assume(end <= (1ull << 30));
    G.out = (uint8_t*)irv_array("out", G.count * G.bs);
    irv_track(track_got, nullptr);
    irv_inv(inv_block, nullptr);
    irv_inv(inv_notyet, nullptr);
    irv_inv(inv_bad, nullptr);
    bool thrown = false;
    uint64_t r = 0;
    m.last_rc = u.last_rc = 0;
    try
    {
        r = s->read_multi_blocks(G.start, end, G.out);
    }
    catch (const MessageVerificationException&)
    {
        thrown = true;
    }
    irv_inv_clear();
    irv_assert(G.count == 0 || got() == should_get(), "the stored bytes of the requested blocks are read");
    if (thrown)
    {
        irv_assert((G.check && G.bad) || should_mget() % G.ms != 0, "a verification error is raised only for a mismatch");
        return;
    }
    irv_assert(!(G.bad && G.check), "a mismatch is reported when verification is on");
    irv_assert(r == (G.count ? should_get() : 0), "the number of bytes stored in the blocks is returned");
    if (r && G.b * G.bs < r)
    {
        irv_assert(mgot() == should_mget(), "the metadata of the requested blocks is read");
        irv_assert(block_ok(G.b + 1), "each block holds its decrypted bytes, or zeros when data, nonce and tag are all zero");
    }
    irv_cover("blocks were read");
}
static void write_proof(unsigned bs, unsigned ivs, unsigned hs)
{
    SpecStream u, m;
    S* s = make(&u, &m, bs, ivs, hs);
    G.start = irv_var("start", 0, 1ull << 30);
    G.count = irv_var("count", 0, 1 << 20);
    G.residue = irv_var("residue", 0, G.bs - 1);
    uint64_t end = G.start + G.count;
    irv_assume(end <= (1ull << 30));
    G.in = (uint8_t*)irv_array("in", total());
    irv_track(track_total, nullptr);
    irv_inv(inv_written, nullptr);
    irv_try_unroll(2);
    s->write_multi_blocks(G.start, end, G.residue, G.in);
    irv_inv_clear();
    irv_assert(total() == 0 || (u.writes == 1 && u.w_off == G.start * G.bs && u.w_len == total()),
               "the ciphertext is stored at the offset of its block, and nothing else");
    irv_assert(total() == 0 || (m.writes == 1 && m.w_off == meta_at(G.start) && m.w_len == blocks() * G.ms),
               "nonces and tags are stored at the position of their block, and nothing else");
    irv_assert(s->m_metastream.is_dirty, "the metadata stream's authentication code is due");
    if (G.b < blocks())
    {
        uint64_t at = G.b * G.bs, left = total() - at, len = left < G.bs ? left : G.bs;
        irv_assert(G.done, "every block is encrypted");
        if (G.x < len)
            irv_assert(u.d[(G.start + G.b) * G.bs + G.x] == G.eb, "the stored data is the ciphertext");
        if (G.y < G.ms)
            irv_assert(m.d[meta_at(G.start + G.b) + G.y] == G.mb, "the stored metadata is nonce and tag");
    }
    irv_cover("blocks were written");
}
PROOF(C03_read_4096_12) { read_proof(4096, 12, 32); }
PROOF(C03_write_4096_12) { write_proof(4096, 12, 32); }
PROOF_DEEP(C03_read_256_32) { read_proof(256, 32, 80); }
PROOF_DEEP(C03_write_256_32) { write_proof(256, 32, 80); }

PROOF(C03_limits)
{
    SpecStream u, m;
    S* s = make(&u, &m, 4096, 12, 32);
    uint64_t start = irv_var("start", 0, 1ull << 40), end = start + irv_var("n", 0, 1 << 20);
    irv_assume(end > (1ull << 30));
    uint64_t residue = irv_var("residue", 0, 4095);
    uint8_t* p = (uint8_t*)irv_array("p", (end - start + 1) * 4096);
    bool w = irv_var("write", 0, 1), thrown = false;
    irv_assume(w || start < end);
    try
    {
        if (w)
            s->write_multi_blocks(start, end, residue, p);
        else
            s->read_multi_blocks(start, end, p);
    }
    catch (const StreamTooLongException&)
    {
        thrown = true;
    }
    irv_assert(thrown && !u.writes && !m.writes, "blocks past the limit are refused");
    irv_cover("refused");
}

static void size_proof(uint64_t bs, uint64_t ivs)
{
    SpecStream u, m;
    S* s = make(&u, &m, bs, ivs, 32);
    irv_assert(s->size() == u.sz, "the size is that of the data stream");
    uint64_t n = irv_var("length", 0, 1ull << 42);
    s->adjust_logical_size(n);
    irv_assert(s->size() == n && u.sz == n, "the data stream gets the length");
    irv_assert(m.sz == meta_at((n + bs - 1) / bs), "the metadata stream holds exactly the entries of the stored blocks");
    irv_assert(s->m_metastream.is_dirty, "the metadata stream's authentication code is due");
    irv_cover("sizes");
}
PROOF(C03_size_4096_12) { size_proof(4096, 12); }
PROOF(C03_size_100_32) { size_proof(100, 32); }

// header: stored as nonce, tag, ciphertext of the given bytes padded with zeros, and read back
PROOF(C03_header)
{
    SpecStream u, m;
    S* s = make(&u, &m, 4096, irv_var("iv_size", 12, 32), irv_var("header_size", 1, 1 << 16));
    G.header = true;
    G.count = irv_var("length", 0, 1 << 17);
    uint8_t* p = (uint8_t*)irv_array("p", G.count);
    G.in = p;
    G.nz = G.rnd = nullptr;
    bool thrown = false;
    if (irv_split(irv_var("write", 0, 1)))
    {
        try
        {
            s->write_header(p, G.count);
        }
        catch (const InvalidArgumentException&)
        {
            thrown = true;
        }
        irv_assert(thrown == (G.count > G.hs), "refused exactly when too long");
        irv_assert(!u.writes, "the data is left alone");
        if (thrown)
        {
            irv_assert(!m.writes, "nothing is stored when refused");
            return;
        }
        irv_assert(G.done && m.writes == 1 && m.w_off == 32 && m.w_len == G.ehs, "the header is stored at its place");
        if (G.x < G.ehs)
            irv_assert(m.d[32 + G.x] == G.eb, "the stored header is nonce, tag, ciphertext");
        irv_assert(s->m_metastream.is_dirty, "the metadata stream's authentication code is due");
        irv_cover("written");
        return;
    }
    bool r = false, corrupt = false;
    uint64_t have = m.sz > 32 ? m.sz - 32 : 0;
    try
    {
        r = s->read_header(p, G.count);
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    catch (const CorruptedMetaDataException&)
    {
        corrupt = true;
    }
    irv_assert(thrown == (G.count > G.hs), "refused exactly when too long");
    irv_assert(!u.writes && !m.writes, "reading changes nothing");
    if (thrown)
        return;
    irv_assert(corrupt == (have > 0 && have < G.ehs), "a cut header is reported");
    if (corrupt)
        return;
    irv_assert(r == (have != 0), "an absent header is reported");
    if (r && G.f < G.count)
        irv_assert(p[G.f] == G.pt, "the decrypted header is returned");
    irv_cover("read");
}

// ---- the authentication code of the metadata stream
extern "C" void c_hash_begin(void* h, int alg, const void* k, size_t n, size_t dl)
{
    irv_assert(alg == 1 && dl == 32, "HMAC-SHA256 is used");
    irv_assert(n == 32 && ((const uint8_t*)k)[G.kf] == G.mkey[G.kf], "the metadata key is used");
    G.hobj = h;
    G.hashed = 0;
    G.hstate = 1;
    G.begun++;
}
extern "C" void c_hash_update(void* h, int alg, const void* in, size_t n)
{
    const uint8_t* p = (const uint8_t*)in;
    irv_assert(h == G.hobj && G.hstate >= 1, "the object keyed before");
    if (G.hstate == 1)
    {
        irv_assert(n == 32 && p[G.idf] == G.id[G.idf], "the file id comes first");
        G.hstate = 2;
        return;
    }
    if (G.x >= G.hashed && G.x - G.hashed < n)
    {
        G.done = true;
        irv_assert(p[G.x - G.hashed] == G.m->d[32 + G.x], "the stored bytes are authenticated in order");
    }
    G.hashed += n;
}
extern "C" void c_hash_final(void* h, int alg, void* out, size_t n)
{
    uint64_t body = G.m->sz > 32 ? G.m->sz - 32 : 0;
    irv_assert(h == G.hobj && G.hstate == 2, "the id was authenticated");
    irv_assert(G.hashed == body, "exactly the stored bytes after the code are authenticated");
    if (G.x < body)
        irv_assert(G.done, "every stored byte is authenticated");
    irv_assert(n == 32, "the whole code is used");
    irv_havoc(G.mac, 32, "mac");
    memcpy(out, G.mac, 32);
    G.hstate = 3;
}
static uint64_t h_body() { return G.m->sz > 32 ? G.m->sz - 32 : 0; }
static uint64_t t_hashed(void*, uint64_t n) { return n * G.m->last_len <= h_body() ? n * G.m->last_len : h_body(); }
static uint64_t t_off(void*, uint64_t n) { return 32 + (n * G.m->last_len <= h_body() ? n * G.m->last_len : h_body()); }
static bool p_done(void*, uint64_t n) { return G.done == (G.x < h_body() && G.x < n * G.m->last_len); }
// what was read last is still in the buffer
static bool p_buf(void*, uint64_t n)
{
    uint64_t k = G.x - G.hashed;
    return k >= G.m->last_rc || G.m->last_out[k] == G.m->d[32 + G.x];
}
PROOF(C03_hmac)
{
    SpecStream m;
    key_type mk;
    id_type id;
    irv_havoc(G.mkey, 32, "mkey");
    irv_havoc(G.id, 32, "id");
    memcpy(mk.data(), G.mkey, 32);
    memcpy(id.data(), G.id, 32);
    G.m = &m;
    G.kf = irv_var("kf", 0, 31);
    G.idf = irv_var("idf", 0, 31);
    G.x = irv_var("x", 0, 1ull << 43);
    irv_focus(G.x);
    G.done = false;
    G.begun = G.hstate = 0;
    m.sz = irv_var("stored_size", 0, 1ull << 43);
    uint64_t sz = m.sz;
    uint8_t stored[32];
    memcpy(stored, m.d, 32);
    irv_track(t_hashed, nullptr);
    irv_track(t_off, nullptr);
    irv_inv(p_done, nullptr);
    irv_inv(p_buf, nullptr);
    bool check = irv_split(irv_var("check", 0, 1)), thrown = false;
    auto sp = std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), &m);
    if (check)
    {
        try
        {
            new internal::HMACStream(mk, id, sp, true);
        }
        catch (const internal::InvalidHMACStreamException&)
        {
            thrown = true;
        }
        irv_inv_clear();
        irv_assert(!m.writes && !m.resizes, "opening changes nothing");
        if (sz == 0)
            irv_assert(!thrown, "an empty stream is accepted");
        else if (sz < 32)
            irv_assert(thrown, "a cut code is refused");
        else
        {
            irv_assert(G.begun == 1 && G.hstate == 3, "the code is computed");
            irv_assert(thrown == (memcmp(stored, G.mac, 32) != 0), "accepted exactly when the code matches");
        }
        irv_cover("opened");
        return;
    }
    internal::HMACStream* h = new internal::HMACStream(mk, id, sp, false);
    irv_assert(G.begun == 0 && !m.writes, "no verification when it is off");
    h->is_dirty = irv_var("dirty", 0, 1);
    bool dirty = h->is_dirty;
    h->flush();
    irv_inv_clear();
    if (dirty)
    {
        irv_assert(G.begun == 1 && G.hstate == 3, "the code is computed");
        irv_assert(m.writes == 1 && m.w_off == 0 && m.w_len == 32, "the code is stored at the start, and nothing else");
        for (int i = 0; i < 32; ++i)
            irv_assert(m.d[i] == G.mac[i], "the stored code is the one computed");
        irv_assert(m.flushes == 1, "the stream under it is flushed");
    }
    else
        irv_assert(!m.writes, "nothing is stored when nothing changed");
    irv_assert(!h->is_dirty, "clean after a flush");
    irv_cover("flushed");
}
// the stream seen through it is the stored one without its first 32 bytes
PROOF(C03_hmac_view)
{
    SpecStream m;
    key_type mk;
    id_type id;
    G.m = &m;
    m.sz = irv_var("stored_size", 0, 1ull << 43);
    uint64_t sz = m.sz, body = sz > 32 ? sz - 32 : 0;
    internal::HMACStream* h
        = new internal::HMACStream(mk, id, std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), &m), false);
    uint64_t off = irv_var("off", 0, 1ull << 43), len = irv_var("len", 0, 1ull << 43), x = irv_var("x", 0, 1ull << 43);
    irv_focus(x);
    uint8_t* p = (uint8_t*)irv_array("p", len);
    irv_assert(h->size() == body, "size");
    bool sparse = m.sparse = irv_var("sparse", 0, 1);
    irv_assert(h->is_sparse() == sparse, "sparseness");
    uint64_t n = h->read(p, off, len);
    irv_assert(n == (off >= body ? 0 : body - off < len ? body - off : len), "number of bytes read");
    if (x < n)
        irv_assert(p[x] == m.d[32 + off + x], "bytes read");
    irv_assert(!h->is_dirty, "reading leaves it clean");
    if (irv_split(irv_var("resize", 0, 1)))
    {
        h->resize(len);
        irv_assert(m.sz == len + 32 && h->is_dirty, "resized, and the code is due");
        irv_cover("resized");
    }
    else
    {
        h->write(p, off, len);
        irv_assert(m.w_off == off + 32 && m.w_len == len && m.writes == 1 && h->is_dirty, "written at its place, and the code is due");
        if (x < len)
            irv_assert(m.d[32 + off + x] == p[x], "bytes written");
        irv_cover("written");
    }
}
#endif
