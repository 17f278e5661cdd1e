// C02: lite-format file content.
// irv: assumes AES-GCM is a secure AEAD: decryption of what encryption produced under the same key, nonce and associated data returns the plaintext and anything else fails (the proof shows which calls are made with what)
// irv: contract ^bool securefs::is_all_zeros\( => c_all_zeros
// irv: contract ^securefs::is_all_zeros\( => c_all_zeros
// irv: contract ^bool std::all_of<unsigned char\*.*AESGCMCryptStream::read_multi_blocks => c_all_of
// irv: assumes no more than one null nonce is drawn in a row
// irv: contract ^securefs::generate_random\( => c_random
// irv: original ^securefs::is_all_zeros\( => orig_is_all_zeros
// irv: original ^bool std::all_of<unsigned char\*.*AESGCMCryptStream::read_multi_blocks => orig_all_of
#include "stream_spec.h"
#include "nolog.h"
#include "lite_stream.cpp"
using namespace securefs;
using spec::SpecStream;
typedef lite::AESGCMCryptStream S;

struct Calc final : public S::ParamCalculator
{
    uint8_t key[16];
    unsigned pad;
    void compute_session_key(const std::array<unsigned char, 16>& id, std::array<unsigned char, 16>& out) override
    {
        memcpy(out.data(), key, 16);
    }
    unsigned compute_padding(const std::array<unsigned char, 16>& id) override { return pad; }
};

#ifdef IRV
struct Ghost
{
    SpecStream* u;
    uint64_t hdr, ub, bs, ivs, pad, start, count, residue;
    uint64_t b, x, f, pf, kf;
    const uint8_t* key;
    uint8_t* out;
    const uint8_t* in;
    uint64_t inlen;
    uint8_t pt, x_byte;
    bool done, bad, check, reading;
    const uint8_t *nz, *rnd;
    uint64_t nz_at, rnd_len, draws;
    uint8_t eb;
} G;

// contract of the "all bytes are zero" tests: the answer is true exactly when every byte is zero
extern "C" bool c_all_zeros(const void* p, size_t n)
{
    if (!(p == G.rnd && G.draws >= 2) && irv_var("all_zero", 0, 1))
    {
        if (G.x < n)
            irv_assume(((const uint8_t*)p)[G.x] == 0);
        return true;
    }
    uint64_t w = irv_var("nonzero_at", 0, 1ull << 40);
    irv_assume(w < n && ((const uint8_t*)p)[w] != 0);
    G.nz = (const uint8_t*)p;
    G.nz_at = w;
    return false;
}
extern "C" bool c_all_of(const uint8_t* b, const uint8_t* e) { return c_all_zeros(b, e - b); }
extern "C" bool orig_is_all_zeros(const void* p, size_t n);
extern "C" bool orig_all_of(const uint8_t* b, const uint8_t* e);

static uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
// the stored bytes of the requested blocks: what the code obtained from the underlying stream (compared with
// what it should have obtained at the end)
static uint64_t remaining() { return G.u->last_rc; }
static uint64_t should_remain()
{
    uint64_t p = G.hdr + G.start * G.ub;
    uint64_t r = G.u->sz > p ? G.u->sz - p : 0, w = G.count * G.ub;
    return r < w ? r : w;
}

static void check_key_aad(const uint8_t* k, size_t keylen, const uint8_t* aad, size_t aadlen)
{
    irv_assert(keylen == 16, "the session key has 16 bytes");
    irv_assert(k[G.kf] == G.key[G.kf], "the file's session key is used");
    irv_assert(aadlen == 4 + G.pad, "associated data is the block number and the padding");
    if (G.pf < G.pad)
        irv_assert(aad[4 + G.pf] == G.u->d[16 + G.pf], "the padding is authenticated");
}

extern "C" bool c_gcm_decrypt(const void* key, size_t keylen, void* msg, const void* mac, size_t maclen, const void* iv,
                              int ivlen, const void* aad, size_t aadlen, const void* ct, size_t ctlen)
{
    check_key_aad((const uint8_t*)key, keylen, (const uint8_t*)aad, aadlen);
    uint64_t idx = (uint64_t)le32((const uint8_t*)aad) - G.start;
    uint64_t at = idx * G.ub, left = remaining() - at;
    uint64_t len = left < G.ub ? left : G.ub;
    irv_assert(at < remaining(), "only stored blocks are decrypted");
    irv_assert(ivlen == (int)G.ivs && maclen == 16 && ctlen == len - G.ivs - 16, "nonce, tag and ciphertext lengths");
    irv_assert((const uint8_t*)ct == (const uint8_t*)iv + G.ivs && (const uint8_t*)mac == (const uint8_t*)ct + ctlen,
               "a stored block is nonce, ciphertext, tag");
    if (G.x < len)
        irv_assert(((const uint8_t*)iv)[G.x] == G.u->d[G.hdr + G.start * G.ub + at + G.x],
                   "the bytes decrypted are the stored bytes of the block");
    irv_assert((uint8_t*)msg == G.out + idx * G.bs, "the plaintext goes to the position of the block");
    irv_havoc(msg, ctlen, "decrypted");
    bool ok = irv_var("tag_matches", 0, 1);
    if (!ok)
        G.bad = true;
    if (idx == G.b)
    {
        G.done = true;
        if (G.f < ctlen)
            G.pt = ((uint8_t*)msg)[G.f];
    }
    return ok;
}

// block b has been processed
static bool block_ok(uint64_t n)
{
    if (n <= G.b)
        return true;
    uint64_t at = G.b * G.ub, left = remaining() - at;
    uint64_t len = left < G.ub ? left : G.ub;
    if (at >= remaining() || len <= G.ivs + 16 || G.f >= len - G.ivs - 16)
        return true;
    uint8_t o = G.out[G.b * G.bs + G.f];
    if (G.done)
        return o == G.pt;
    return o == 0 && (G.x >= len || G.u->d[G.hdr + G.start * G.ub + at + G.x] == 0);
}
static bool inv_block(void*, uint64_t n) { return block_ok(n); }
static uint64_t track_plain(void*, uint64_t n)
{
    uint64_t rem = remaining(), at = n * G.ub;
    uint64_t e = rem % G.ub;
    return at <= rem ? n * G.bs : rem - n * (G.ivs + 16);
}
static bool inv_notyet(void*, uint64_t n) { return n > G.b || !G.done; }
static bool inv_bad(void*, uint64_t n) { return !(G.bad && G.check); }

extern "C" void c_random(void* p, size_t n)
{
    irv_havoc(p, n, "random");
    G.rnd = (const uint8_t*)p;
    G.rnd_len = n;
    ++G.draws;
}

// what write_multi_blocks stores for `count` whole blocks and a partial one of `residue` bytes
static uint64_t stored_len() { return G.count * G.ub + (G.residue ? G.residue + G.ivs + 16 : 0); }

extern "C" void c_gcm_encrypt(const void* key, size_t keylen, void* ct, void* mac, size_t maclen, const void* iv,
                              int ivlen, const void* aad, size_t aadlen, const void* msg, size_t msglen)
{
    check_key_aad((const uint8_t*)key, keylen, (const uint8_t*)aad, aadlen);
    uint64_t idx = (uint64_t)le32((const uint8_t*)aad) - G.start;
    uint64_t at = idx * G.ub, left = stored_len() - at;
    uint64_t len = left < G.ub ? left : G.ub;
    uint8_t* base = (uint8_t*)irv_last_alloc();
    irv_assert(at < stored_len(), "only the requested blocks are encrypted");
    irv_assert(ivlen == (int)G.ivs && maclen == 16 && msglen == len - G.ivs - 16, "nonce, tag and plaintext lengths");
    irv_assert((uint8_t*)iv == base + at, "the stored block starts with its nonce");
    irv_assert((uint8_t*)ct == (uint8_t*)iv + G.ivs && (uint8_t*)mac == (uint8_t*)ct + msglen,
               "a stored block is nonce, ciphertext, tag");
    irv_assert((const uint8_t*)msg == G.in + idx * G.bs, "the plaintext is that of the block");
    irv_assert(G.rnd == iv && G.rnd_len == G.ivs, "the nonce was drawn for this block");
    G.rnd = nullptr;
    G.draws = 0;
    irv_assert(G.nz == iv && G.nz_at < G.ivs && ((const uint8_t*)iv)[G.nz_at] != 0, "the nonce is not zero");
    irv_havoc(ct, msglen, "ciphertext");
    irv_havoc(mac, 16, "tag");
    if (idx == G.b)
    {
        G.done = true;
        if (G.x < len)
            G.eb = ((const uint8_t*)iv)[G.x];
    }
}
static bool inv_written(void*, uint64_t n)
{
    if (n <= G.b)
        return true;
    uint64_t at = G.b * G.ub, left = stored_len() - at, len = left < G.ub ? left : G.ub;
    if (at >= stored_len() || G.x >= len)
        return true;
    return G.done && ((uint8_t*)irv_last_alloc())[at + G.x] == G.eb;
}
static uint64_t track_in(void*, uint64_t n)
{
    uint64_t at = n * G.ub;
    return at <= stored_len() ? n * G.bs : G.count * G.bs + G.residue;
}
static uint64_t track_out(void*, uint64_t n)
{
    uint64_t at = n * G.ub;
    return at <= stored_len() ? at : stored_len();
}

static void setup(Calc* c, SpecStream* u, unsigned bs, unsigned ivs)
{
    irv_havoc(c->key, 16, "key");
    c->pad = irv_var("pad", 0, 1 << 16);
    G.u = u;
    G.bs = bs;
    G.ivs = ivs;
    G.pad = c->pad;
    G.key = c->key;
    G.hdr = 16 + G.pad;
    G.ub = G.bs + G.ivs + 16;
    G.check = irv_var("check", 0, 1);
    G.kf = irv_var("kf", 0, 15);
    G.pf = irv_var("pf", 0, 1 << 16);
    G.b = irv_var("b", 0, 1ull << 31);
    G.x = irv_var("x", 0, 1ull << 25);
    G.f = irv_var("f", 0, 1ull << 25);
    irv_focus(G.x);
}
static S* make(SpecStream* u, Calc* c, unsigned bs, unsigned ivs)
{
    setup(c, u, bs, ivs);
    u->sz = irv_var("stored_size", 16 + (1 << 16), 1ull << 43);
    return new S(std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), u), *c, G.bs, G.ivs, G.check);
}

PROOF(C02_all_zeros)
{
    uint64_t n = irv_var("n", 0, 1ull << 40), x = irv_var("x", 0, 1ull << 40);
    uint8_t* p = (uint8_t*)irv_array("p", n);
    irv_focus(x);
    int which = irv_var("which", 0, 1);
    bool zeroed = irv_var("zeroed", 0, 1);
    if (zeroed)
        memset(p, 0, n);
    bool r = which ? orig_is_all_zeros(p, n) : orig_all_of(p, p + n);
    if (zeroed)
        irv_assert(r, "zeros are recognised");
    if (r && x < n)
        irv_assert(p[x] == 0, "only zeros are recognised");
    irv_cover("tested");
}

static void read_proof(unsigned bs, unsigned ivs)
{
    SpecStream u;
    Calc c;
    S* s = make(&u, &c, bs, ivs);
    G.start = irv_var("start", 0, (1ull << 31) - 1);
    G.count = irv_var("count", 0, 1 << 20);
    uint64_t end = G.start + G.count;
    irv_assume(end <= (1ull << 31) - 1);
    G.out = (uint8_t*)irv_array("out", G.count * G.bs);
    G.done = G.bad = false;
    irv_track(track_plain, nullptr);
    irv_inv(inv_block, nullptr);
    irv_inv(inv_notyet, nullptr);
    irv_inv(inv_bad, nullptr);
    bool thrown = false;
    uint64_t r = 0;
    try
    {
        r = s->read_multi_blocks(G.start, end, G.out);
    }
    catch (const LiteMessageVerificationException&)
    {
        thrown = true;
    }
    irv_inv_clear();
    if (thrown)
    {
        irv_assert(G.check && G.bad, "a verification error is raised only for a mismatch");
        return;
    }
    irv_assert(!(G.bad && G.check), "a mismatch is reported when verification is on");
    irv_assert(remaining() == should_remain(), "the stored bytes of the requested blocks are read");
    uint64_t rem = remaining(), q = rem / G.ub, e = rem % G.ub;
    irv_assert(r == q * G.bs + (e > G.ivs + 16 ? e - G.ivs - 16 : 0), "the plaintext size of the stored bytes");
    uint64_t n = q + (e != 0);
    if (G.b < n)
        irv_assert(block_ok(n), "each block holds its decrypted bytes, or zeros when the block is all zeros");
    irv_cover("blocks were read");
}
static void write_proof(unsigned bs, unsigned ivs)
{
    SpecStream u;
    Calc c;
    S* s = make(&u, &c, bs, ivs);
    G.start = irv_var("start", 0, (1ull << 31) - 1);
    G.count = irv_var("count", 0, 1 << 20);
    G.residue = irv_var("residue", 0, G.bs);
    uint64_t end = G.start + G.count;
    irv_assume(end <= (1ull << 31) - 1);
    G.in = (uint8_t*)irv_array("in", G.count * G.bs + G.residue);
    G.done = false;
    irv_track(track_in, nullptr);
    irv_track(track_out, nullptr);
    irv_inv(inv_written, nullptr);
    irv_try_unroll(2);
    s->write_multi_blocks(G.start, end, G.residue, G.in);
    irv_inv_clear();
    irv_assert(u.writes == 1 || stored_len() == 0, "the blocks are stored by one write");
    irv_assert(stored_len() == 0 || (u.w_off == G.hdr + G.start * G.ub && u.w_len == stored_len()),
               "the blocks are stored at their place, and nothing else");
    uint64_t n = G.count + (G.residue ? 1 : 0);
    uint64_t at = G.b * G.ub, left = stored_len() - at, len = left < G.ub ? left : G.ub;
    if (G.b < n && G.x < len)
    {
        irv_assert(G.done, "every block is encrypted");
        irv_assert(u.d[G.hdr + G.start * G.ub + at + G.x] == G.eb, "the stored bytes are nonce, ciphertext and tag");
    }
    irv_cover("blocks were written");
}
PROOF(C02_read_4096_12) { read_proof(4096, 12); }
PROOF(C02_write_4096_12) { write_proof(4096, 12); }
PROOF_DEEP(C02_read_100_32) { read_proof(100, 32); }
PROOF_DEEP(C02_write_100_32) { write_proof(100, 32); }

// a fresh stream gets a random id and padding; an existing one is opened with the id and padding it holds
PROOF(C02_open)
{
    SpecStream u;
    Calc c;
    setup(&c, &u, irv_var("block_size", 0, 1u << 24), irv_var("iv_size", 0, 64));
    u.sz = irv_var("stored_size", 0, 1ull << 43);
    uint64_t sz = u.sz;
    G.rnd = nullptr;
    S* s = nullptr;
    try
    {
        s = new S(std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), &u), c, G.bs, G.ivs, G.check);
    }
    catch (const InvalidArgumentException&)
    {
        irv_assert(G.bs < 32 || G.ivs < 12 || G.ivs > 32 || (sz > 0 && sz < G.hdr), "only an invalid stream is refused");
        return;
    }
    irv_assert(!(G.bs < 32 || G.ivs < 12 || G.ivs > 32), "invalid sizes are refused");
    irv_assert(sz == 0 || sz >= G.hdr, "a truncated header is refused");
    irv_assert(s->get_header_size() == G.hdr, "header size");
    irv_assert(u.sz == (sz == 0 ? G.hdr : sz), "opening writes nothing but the header of an empty stream");
    if (sz)
        irv_assert(u.writes == 0, "opening leaves a stored stream alone");
    else
        irv_assert(G.rnd != nullptr, "the id is random");
    irv_assert(s->m_auxiliary.size() == 4 + G.pad, "associated data size");
    if (G.pf < G.pad)
        irv_assert(s->m_auxiliary[4 + G.pf] == u.d[16 + G.pf], "the padding is the stored one");
    irv_cover("opened");
}

// the plaintext size and the stored size determine each other
static void size_proof(uint64_t bs, uint64_t ivs)
{
    SpecStream u;
    Calc c;
    S* s = make(&u, &c, bs, ivs);
    uint64_t n = irv_var("length", 0, 1ull << 42);
    s->adjust_logical_size(n);
    irv_assert(s->size() == n, "size() returns the length that was set");
    uint64_t q = n / bs, r = n % bs;
    irv_assert(u.sz == G.hdr + q * G.ub + (r ? r + ivs + 16 : 0), "stored size of a plaintext size");
    u.sz = irv_var("any_stored", 0, 1ull << 43);
    uint64_t d = u.sz > G.hdr ? u.sz - G.hdr : 0;
    uint64_t p = s->size(), e = d % G.ub;
    irv_assert(p == d / G.ub * bs + (e > ivs + 16 ? e - ivs - 16 : 0), "plaintext size of a stored size");
    irv_assert(p == S::calculate_real_size(d ? d + 16 : 0, bs, ivs), "the size computed without opening agrees");
    irv_cover("sizes");
}
PROOF(C02_size_4096_12) { size_proof(4096, 12); }
PROOF(C02_size_32_32) { size_proof(32, 32); }
#endif
