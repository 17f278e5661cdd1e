// A full-format file object over specified streams: the environment of the proofs about sources/files.cpp.
// The including harness has the `irv: contract` directives and includes streams.cpp and files.cpp first.
#pragma once
#ifdef IRV
struct SpecFile;
struct XattrHooks
{
    virtual ssize_t list(SpecFile*, char*, size_t) = 0;
    virtual ssize_t get(SpecFile*, const char*, void*, size_t) = 0;
    virtual void set(SpecFile*, const char*, void*, size_t, int) = 0;
    virtual void remove(SpecFile*, const char*) = 0;
};
// the header store: what was written is read back, a header that was never written is reported absent (C03)
struct SpecHeader : public HeaderBase
{
    uint8_t h[80];
    uint64_t size;
    bool present;
    int writes = 0, flushes = 0, reads = 0;
    length_type max_header_length() const noexcept override { return size; }
    bool read_header(void* out, length_type n) override
    {
        ++reads;
        irv_assert(n == size, "the whole header is read");
        if (!present)
            return false;
        memcpy(out, h, n);
        return true;
    }
    void write_header(const void* in, length_type n) override
    {
        ++writes;
        irv_assert(n == size, "the whole header is written");
        memcpy(h, in, n);
        present = true;
    }
    void flush_header() override { ++flushes; }
};
struct SpecFile : public FileStream
{
    int utimes = 0, syncs = 0, stats = 0;
    XattrHooks* x = nullptr;
    const fuse_timespec* ts = nullptr;
    length_type read(void*, offset_type, length_type) override { return 0; }
    void write(const void*, offset_type, length_type) override { irv_assert(false, "the files are written only through the streams"); }
    length_type size() const override { return 0; }
    void flush() override {}
    void resize(length_type) override { irv_assert(false, "the files are written only through the streams"); }
    void fsync() override { ++syncs; }
    void utimens(const fuse_timespec t[2]) override
    {
        ++utimes;
        ts = t;
    }
    void fstat(fuse_stat* st) const override { irv_havoc(st, sizeof(*st), "stat"); }
    void close() noexcept override {}
    ssize_t listxattr(char* b, size_t n) override { return x->list(this, b, n); }
    ssize_t getxattr(const char* k, void* b, size_t n) override { return x->get(this, k, b, n); }
    void setxattr(const char* k, void* b, size_t n, int f) override { x->set(this, k, b, n, f); }
    void removexattr(const char* k) override { x->remove(this, k); }
    void lock(bool) override {}
    void unlock() noexcept override {}
    length_type sequential_read(void*, length_type) override { return 0; }
    void sequential_write(const void*, length_type) override {}
};

static struct
{
    SpecHeader* h;
    SpecStream* s;
    SpecFile *data, *meta;
    uint8_t key[32], id[32], gen[128];
    uint64_t genlen, pad, maxpad;
    unsigned bs, ivs;
    bool store, check, sivkey;
    fuse_timespec now;
    uint64_t nows;
    uint64_t k;
} G;
extern "C"
{
    void c_nowarn(const void*, size_t, const char*, int) {}
#ifndef FILE_ENV_RANDOM
    void c_random(void* p, size_t n) { irv_havoc(p, n, "random"); }
#endif
    void c_siv(void*, const void* k, size_t n)
    {
        irv_assert(n == 32 && ((const uint8_t*)k)[G.k] == G.gen[64 + G.k], "attribute names are encrypted under the third derived key");
        G.sivkey = true;
    }
    void c_siv_end(void*) {}
    void c_hkdf(const void* key, size_t kn, const void* salt, size_t sn, const void* info, size_t in, void* out, size_t on)
    {
        irv_assert(kn == 32 && ((const uint8_t*)key)[G.k] == G.key[G.k] && sn == 0, "keys are derived from the master key");
        irv_assert(in == 32 && ((const uint8_t*)info)[G.k] == G.id[G.k], "keys are derived for this file id");
        irv_assert(on == (G.maxpad ? 128 : 96), "three keys, and one more for the padding");
        memcpy(out, G.gen, on);
    }
    unsigned long c_mod(const void* p, size_t n, unsigned long m)
    {
        irv_assert(n == 32 && ((const uint8_t*)p)[G.k] == G.gen[96 + G.k] && m == G.maxpad + 1, "the padding is the fourth key modulo the limit");
        return G.pad;
    }
    void c_now(fuse_timespec* t)
    {
        G.now.tv_sec = irv_var("now_sec", 0, ~0ull);
        G.now.tv_nsec = irv_var("now_nsec", 0, 999999999);
        *t = G.now;
        ++G.nows;
    }
    void* c_os() { return &G; }
    unsigned c_getuid() { return 4711; }
    unsigned c_getgid() { return 4712; }
    std::pair<std::shared_ptr<StreamBase>, std::shared_ptr<HeaderBase>>
    c_make(std::shared_ptr<StreamBase> d, std::shared_ptr<StreamBase> m, const key_type& dk, const key_type& mk,
           const id_type& id, bool check, unsigned bs, unsigned ivs, unsigned hs)
    {
        irv_assert(d.get() == static_cast<StreamBase*>(G.data) && m.get() == static_cast<StreamBase*>(G.meta), "data and metadata streams");
        irv_assert(dk.data()[G.k] == G.gen[G.k], "the first derived key encrypts the data");
        irv_assert(mk.data()[G.k] == G.gen[32 + G.k], "the second derived key authenticates the metadata");
        irv_assert(id.data()[G.k] == G.id[G.k], "the file id is bound");
        irv_assert(check == G.check && bs == G.bs && ivs == G.ivs, "the parameters are passed on");
        irv_assert(hs == (G.store ? 80 : 32), "header size");
        G.h->size = hs;
        return {std::shared_ptr<StreamBase>(std::shared_ptr<StreamBase>(), G.s), std::shared_ptr<HeaderBase>(std::shared_ptr<HeaderBase>(), G.h)};
    }
}
static uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint64_t le64(const uint8_t* p) { return le32(p) | (uint64_t)le32(p + 4) << 32; }

struct Env
{
    SpecHeader h;
    SpecStream s;
    SpecFile d, m;
};
template <class T>
static T* open(Env& e, bool padded = false)
{
    G.h = &e.h;
    G.s = &e.s;
    G.data = &e.d;
    G.meta = &e.m;
    irv_havoc(G.key, 32, "key");
    irv_havoc(G.id, 32, "id");
    irv_havoc(G.gen, 128, "derived");
    irv_havoc(e.h.h, 80, "header");
    e.h.present = irv_split(irv_var("present", 0, 1));
    e.s.sz = irv_var("size", 0, 1ull << 43);
    G.bs = irv_var("block_size", 0, 1u << 24);
    G.ivs = irv_var("iv_size", 0, 64);
    G.maxpad = padded ? irv_var("maxpad", 1, 1u << 24) : 0;
    G.pad = irv_var("pad", 0, 1u << 24);
    irv_assume(G.pad <= G.maxpad);
    if (padded)
        irv_assume(e.s.sz >= G.pad);
    G.store = irv_split(irv_var("store_time", 0, 1));
    G.check = irv_var("check", 0, 1);
    G.k = irv_var("k", 0, 31);
    G.sivkey = false;
    G.nows = 0;
    key_type key;
    id_type id;
    memcpy(key.data(), G.key, 32);
    memcpy(id.data(), G.id, 32);
    auto fd = std::shared_ptr<FileStream>(std::shared_ptr<FileStream>(), &e.d);
    auto fm = std::shared_ptr<FileStream>(std::shared_ptr<FileStream>(), &e.m);
    return new T(fd, fm, StrongType<key_type, tMasterKey>(key), id, StrongType<bool, tVerify>(G.check),
                 StrongType<unsigned, tBlockSize>(G.bs), StrongType<unsigned, tIvSize>(G.ivs),
                 StrongType<unsigned, tMaxPaddingSize>(G.maxpad), StrongType<bool, tStoreTimeWithinFs>(G.store));
}
#endif
