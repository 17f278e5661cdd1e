// C05: AES-SIV.
// irv: assumes CMAC and CTR of the library are AES-CMAC and AES-CTR (the bounded check runs the real ones)
#include "irv.h"
#ifdef IRV
#include "nolog.h"
#include "crypto.cpp"
using namespace securefs;
typedef unsigned __int128 u128;

static struct
{
    const uint8_t *key, *aad, *text, *in, *siv;
    uint8_t* out;
    uint64_t ks, kf, alen, n, x;
    int cmacs, ctrs;
    uint8_t d0[16], a[16], v[16];
    bool enc;
    uint8_t px, ps[16];
} G;

static u128 be(const uint8_t* p)
{
    u128 r = 0;
    for (int i = 0; i < 16; ++i)
        r = r << 8 | p[i];
    return r;
}
static u128 dbl(u128 v) { return v << 1 ^ (v >> 127 ? 0x87 : 0); }
static uint8_t byte_of(u128 v, uint64_t i) { return (uint8_t)(v >> (8 * (15 - i))); }
extern "C" void c_cmac(const void* key, size_t kl, void* d, const void* in, size_t n)
{
    const uint8_t* m = (const uint8_t*)in;
    irv_assert(kl == G.ks && ((const uint8_t*)key)[G.kf] == G.key[G.kf], "CMAC uses the first half of the key");
    int k = G.cmacs++;
    if (k == 0)
    {
        irv_assert(n == 16, "S2V starts with the zero block");
        for (int i = 0; i < 16; ++i)
            irv_assert(m[i] == 0, "S2V starts with the zero block");
        irv_havoc(G.d0, 16, "d0");
        memcpy(d, G.d0, 16);
        return;
    }
    if (G.alen && k == 1)
    {
        irv_assert(n == G.alen && (G.x >= n || m[G.x] == G.aad[G.x]), "the associated data is authenticated");
        irv_havoc(G.a, 16, "a");
        memcpy(d, G.a, 16);
        return;
    }
    irv_assert(k == (G.alen ? 2 : 1), "one CMAC for every string");
    u128 D = be(G.d0);
    if (G.alen)
        D = dbl(D) ^ be(G.a);
    if (G.n >= 16)
    {
        irv_assert(n == G.n, "the message is authenticated");
        if (G.x < n)
        {
            uint8_t want = G.enc ? G.text[G.x] : G.px;
            if (G.x >= n - 16)
                want ^= byte_of(D, G.x - (n - 16));
            irv_assert(m[G.x] == want, "the end of the message is combined with D");
        }
    }
    else
    {
        irv_assert(n == 16, "a short message is padded");
        D = dbl(D);
        for (uint64_t i = 0; i < 16; ++i)
        {
            uint8_t t = i < G.n ? G.enc ? G.text[i] : G.ps[i] : i == G.n ? 0x80 : 0;
            irv_assert(m[i] == (uint8_t)(byte_of(D, i) ^ t), "a short message is padded and combined with 2D");
        }
    }
    irv_havoc(G.v, 16, "v");
    memcpy(d, G.v, 16);
}
extern "C" void c_ctr(const void* key, size_t kl, const void* iv, void* out, const void* in, size_t n)
{
    irv_assert(kl == G.ks && ((const uint8_t*)key)[G.kf] == G.key[G.ks + G.kf], "CTR uses the second half of the key");
    const uint8_t *q = (const uint8_t*)iv, *w = G.enc ? G.v : G.siv;
    irv_assert(!G.ctrs++, "one CTR pass");
    irv_assert(!G.enc || G.cmacs == (G.alen ? 3 : 2), "the IV is computed before encryption");
    for (int i = 0; i < 16; ++i)
        irv_assert(q[i] == (i == 8 || i == 12 ? w[i] & 0x7f : w[i]), "the counter is the IV without bits 31 and 63");
    irv_assert(n == G.n && out == G.out && in == G.in, "the whole text is processed");
    irv_havoc(out, n, "ctr");
    if (G.n < 16)
        memcpy(G.ps, out, G.n);
    else if (G.x < n)
        G.px = ((uint8_t*)out)[G.x];
}

static void setup()
{
    G.ks = irv_split(irv_var("big_key", 0, 1)) ? 32 : 16;
    G.key = (uint8_t*)irv_array("key", 2 * G.ks);
    G.kf = irv_var("kf", 0, 31);
    irv_assume(G.kf < G.ks);
    G.alen = irv_var("alen", 0, 1ull << 40);
    G.aad = (uint8_t*)irv_array("aad", G.alen);
    if (irv_split(G.alen == 0))
        G.alen = 0;
    G.n = irv_var("n", 0, 1ull << 40);
    G.x = irv_var("x", 0, 1ull << 40);
    irv_focus(G.x);
    if (irv_split(G.n < 16))
    {
        uint64_t k = irv_var("short", 0, 15);
        irv_assume(k == G.n);
        G.n = irv_concretize(k);
    }
}
static const void* aad_arg()
{
    return G.alen == 0 && irv_split(irv_var("null_aad", 0, 1)) ? nullptr : G.aad;
}
PROOF(C05_encrypt)
{
    setup();
    G.enc = true;
    uint8_t siv[16];
    uint8_t* t = (uint8_t*)irv_array("text", G.n);
    G.in = t;
    G.text = irv_dup(t, G.n);
    G.out = irv_split(irv_var("in_place", 0, 1)) ? t : (uint8_t*)irv_array("out", G.n);
    AES_SIV s(G.key, 2 * G.ks);
    s.encrypt_and_authenticate(t, G.n, aad_arg(), G.alen, G.out, siv);
    irv_assert(G.ctrs == 1 && G.cmacs == (G.alen ? 3 : 2), "S2V and CTR ran once");
    for (int i = 0; i < 16; ++i)
        irv_assert(siv[i] == G.v[i], "the synthetic IV is the S2V result");
    if (G.n < 16)
        for (uint64_t i = 0; i < G.n; ++i)
        {
            irv_assert(G.out[i] == G.ps[i], "the ciphertext is the CTR output");
            irv_assert(G.out == t || t[i] == G.text[i], "the plaintext is not changed");
        }
    else if (G.x < G.n)
    {
        irv_assert(G.out[G.x] == G.px, "the ciphertext is the CTR output");
        irv_assert(G.out == t || t[G.x] == G.text[G.x], "the plaintext is not changed");
    }
    irv_cover("encrypted");
}
PROOF(C05_decrypt)
{
    setup();
    G.enc = false;
    uint8_t siv[16], copy[16];
    irv_havoc(siv, 16, "siv");
    memcpy(copy, siv, 16);
    G.siv = copy;
    uint8_t* t = (uint8_t*)irv_array("ct", G.n);
    G.in = t;
    G.out = irv_split(irv_var("in_place", 0, 1)) ? t : (uint8_t*)irv_array("out", G.n);
    AES_SIV s(G.key, 2 * G.ks);
    bool ok = s.decrypt_and_verify(t, G.n, aad_arg(), G.alen, G.out, siv);
    irv_assert(G.ctrs == 1 && G.cmacs == (G.alen ? 3 : 2), "S2V and CTR ran once");
    irv_assert(ok == (be(G.v) == be(siv)), "accepted exactly when the S2V result of the plaintext is the given IV");
    if (G.n < 16)
        for (uint64_t i = 0; i < G.n; ++i)
            irv_assert(G.out[i] == G.ps[i], "the plaintext is the CTR output");
    else if (G.x < G.n)
        irv_assert(G.out[G.x] == G.px, "the plaintext is the CTR output");
    irv_cover(ok ? "accepted" : "refused");
}
#endif
