// C06: HKDF.
// irv: assumes HMAC of the library is HMAC-SHA256 (the bounded check runs the real one)
#include "irv.h"
#ifdef IRV
#include "nolog.h"
#include "crypto.cpp"
using namespace securefs;

static struct
{
    const uint8_t *key, *salt, *info;
    uint8_t* out;
    uint64_t kn, sn, in, on, x;
    uint64_t round, step;
    bool extracted, hassalt;
    const uint8_t* prk_at;
    uint8_t prk[32];
    uint8_t ox;
    void* expander;
} G;
// one HMAC object for the extraction (if there is a salt), one for the expansion
extern "C" void c_hash_begin(void* h, int alg, const void* k, size_t n, size_t dl)
{
    const uint8_t* p = (const uint8_t*)k;
    irv_assert(alg == 1 && dl == 32, "HMAC-SHA256 is used");
    if (G.hassalt && !G.extracted)
    {
        irv_assert(G.step == 0 && p == G.salt && n == G.sn, "extraction is keyed with the salt");
        G.step = 10;
        return;
    }
    if (G.hassalt)
    {
        irv_assert(n == 32, "expansion is keyed with the extracted key");
        for (int i = 0; i < 32; ++i)
            irv_assert(p[i] == G.prk[i], "expansion is keyed with the extracted key");
    }
    else
        irv_assert(p == G.key && n == G.kn, "expansion is keyed with the key itself when there is no salt");
    irv_assert(!G.expander, "one expansion");
    G.expander = h;
}
extern "C" void c_hash_update(void* h, int alg, const void* in, size_t n)
{
    const uint8_t* p = (const uint8_t*)in;
    if (G.hassalt && !G.extracted)
    {
        irv_assert(G.step == 10 && p == G.key && n == G.kn, "extraction reads the key");
        G.step = 11;
        return;
    }
    irv_assert(h == G.expander, "expansion object");
    if (G.step == 0)
        irv_assert(n == (G.round ? 32 : 0) && p == G.out + (G.round ? 32 * (G.round - 1) : 0), "the previous block is chained");
    else if (G.step == 1)
        irv_assert(p == G.info && n == G.in, "the info is included");
    else
        irv_assert(G.step == 2 && n == 1 && *p == (uint8_t)(G.round + 1), "the counter is included");
    G.step++;
}
extern "C" void c_hash_final(void* h, int alg, void* out, size_t n)
{
    uint8_t* p = (uint8_t*)out;
    if (G.hassalt && !G.extracted)
    {
        irv_assert(G.step == 11 && n == 32, "extraction yields 32 bytes");
        irv_havoc(G.prk, 32, "prk");
        memcpy(out, G.prk, 32);
        G.extracted = true;
        G.step = 0;
        return;
    }
    irv_assert(h == G.expander && G.step == 3, "a block is the MAC of previous block, info and counter");
    uint64_t at = 32 * G.round;
    irv_assert(at < G.on && p == G.out + at && n == (G.on - at < 32 ? G.on - at : 32), "blocks follow one another");
    irv_havoc(out, n, "block");
    if (G.x - at < n)
        G.ox = p[G.x - at];
    G.step = 0;
    G.round++;
}
static uint64_t t_round(void*, uint64_t n) { return n; }
static uint64_t t_i(void*, uint64_t n) { return n < 2 ? 0 : 32 * (n - 1); }
static uint64_t t_j(void*, uint64_t n) { return n == 0 ? 0 : 32 * n <= G.on ? 32 : G.on - 32 * (n - 1); }
static bool p_x(void*, uint64_t n) { return G.x >= 32 * n || G.x >= G.on || G.out[G.x] == G.ox; }
PROOF(C06_hkdf)
{
    G.kn = irv_var("key_len", 0, 1ull << 40);
    G.sn = irv_var("salt_len", 0, 1ull << 40);
    G.in = irv_var("info_len", 0, 1ull << 40);
    G.on = irv_var("out_len", 0, 1ull << 40);
    G.x = irv_var("x", 0, 1ull << 40);
    irv_focus(G.x);
    G.key = (uint8_t*)irv_array("key", G.kn);
    G.salt = (uint8_t*)irv_array("salt", G.sn);
    G.info = (uint8_t*)irv_array("info", G.in);
    G.out = (uint8_t*)irv_array("out", G.on);
    G.hassalt = irv_split(G.sn > 0);
    bool nosalt = !G.hassalt && irv_split(irv_var("null_salt", 0, 1));
    irv_track(t_round, nullptr);
    irv_track(t_i, nullptr);
    irv_track(t_j, nullptr);
    irv_inv(p_x, nullptr);
    bool thrown = false;
    try
    {
        hkdf(G.key, G.kn, nosalt ? nullptr : G.salt, G.sn, G.info, G.in, G.out, G.on);
    }
    catch (const InvalidArgumentException&)
    {
        thrown = true;
    }
    irv_assert(thrown == (G.on > 255 * 32), "refused exactly when too long");
    if (thrown)
        return;
    irv_assert(G.round * 32 >= G.on && G.step == 0, "the whole output is produced");
    if (G.x < G.on)
        irv_assert(G.out[G.x] == G.ox, "the output is the concatenation of the blocks");
    irv_cover("derived");
}
PROOF(C06_hmac)
{
    // hmac_sha256_calculate / verify: one pass over the message under the key
    G.hassalt = true;
    G.kn = irv_var("msg_len", 0, 1ull << 40);
    G.sn = irv_var("key_len", 0, 1ull << 40);
    G.key = (uint8_t*)irv_array("msg", G.kn);
    G.salt = (uint8_t*)irv_array("key", G.sn);
    uint8_t mac[32];
    irv_havoc(mac, 32, "mac");
    if (irv_split(irv_var("verify", 0, 1)))
    {
        bool ok = hmac_sha256_verify(G.key, G.kn, G.salt, G.sn, mac, 32);
        irv_assert(G.extracted, "the MAC is computed");
        irv_assert(ok == (memcmp(mac, G.prk, 32) == 0), "accepted exactly when equal");
    }
    else
    {
        hmac_sha256_calculate(G.key, G.kn, G.salt, G.sn, mac, 32);
        irv_assert(G.extracted, "the MAC is computed");
        for (int i = 0; i < 32; ++i)
            irv_assert(mac[i] == G.prk[i], "the MAC is returned");
    }
    irv_cover("mac");
}
#endif
