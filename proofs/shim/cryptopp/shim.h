// The part of Crypto++ the repository uses, for the verifier only (natively the real library is used).
// Every cryptographic call goes to a contract function c_* that the proof harness provides.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <new>
#include <string>
#include <utility>

typedef unsigned char byte;
extern "C"
{
    // AEAD.  c_* see the key, the nonce and every pointer of the call
    void c_gcm_encrypt(const void* key, size_t keylen, void* ct, void* mac, size_t maclen, const void* iv, int ivlen,
                       const void* aad, size_t aadlen, const void* msg, size_t msglen);
    bool c_gcm_decrypt(const void* key, size_t keylen, void* msg, const void* mac, size_t maclen, const void* iv,
                       int ivlen, const void* aad, size_t aadlen, const void* ct, size_t ctlen);
    void c_ecb_encrypt(const void* key, size_t keylen, void* out, const void* in, size_t n);
    void c_ctr(const void* key, size_t keylen, const void* iv, void* out, const void* in, size_t n);
    void c_cmac(const void* key, size_t keylen, void* digest, const void* in, size_t n);
    // incremental hashing: h identifies the object
    void c_hash_begin(void* h, int alg, const void* key, size_t keylen, size_t digestlen);
    void c_hash_update(void* h, int alg, const void* in, size_t n);
    void c_hash_final(void* h, int alg, void* out, size_t n);
    void c_random(void* out, size_t n);
    void c_pbkdf2(void* out, size_t n, const void* pw, size_t pwlen, const void* salt, size_t saltlen, unsigned iter);
    void c_scrypt(void* out, size_t n, const void* pw, size_t pwlen, const void* salt, size_t saltlen, uint64_t cost,
                  uint64_t r, uint64_t p);
    unsigned long c_mod(const void* p, size_t n, unsigned long m);
}

namespace CryptoPP
{
typedef unsigned char byte;
enum ByteOrder
{
    LITTLE_ENDIAN_ORDER = 0,
    BIG_ENDIAN_ORDER = 1
};
enum CipherDir
{
    ENCRYPTION,
    DECRYPTION
};
const std::string DEFAULT_CHANNEL = "";

template <class T>
inline void SecureWipeBuffer(T* buf, size_t n)
{
    memset((void*)buf, 0, n * sizeof(T));
}
template <class T>
inline void SecureWipeArray(T* buf, size_t n)
{
    memset((void*)buf, 0, n * sizeof(T));
}
inline void xorbuf(byte* buf, const byte* mask, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        buf[i] ^= mask[i];
}
inline void xorbuf(byte* out, const byte* in, const byte* mask, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        out[i] = in[i] ^ mask[i];
}
inline bool VerifyBufsEqual(const byte* a, const byte* b, size_t n) { return memcmp(a, b, n) == 0; }

template <class T>
class BasicSecBlock
{
public:
    typedef T value_type;
    typedef T* iterator;
    typedef const T* const_iterator;
    typedef size_t size_type;
    explicit BasicSecBlock(size_t n = 0) : n_(n), p_(n ? (T*)::operator new(n * sizeof(T)) : nullptr) {}
    BasicSecBlock(const T* p, size_t n) : BasicSecBlock(n)
    {
        if (n)
        {
            if (p)
                memcpy(p_, p, n * sizeof(T));
            else
                memset(p_, 0, n * sizeof(T));
        }
    }
    BasicSecBlock(const BasicSecBlock& o) : BasicSecBlock(o.p_, o.n_) {}
    ~BasicSecBlock()
    {
        if (p_)
            ::operator delete(p_);
    }
    BasicSecBlock& operator=(const BasicSecBlock& o)
    {
        if (this != &o)
        {
            New(o.n_);
            if (n_)
                memcpy(p_, o.p_, n_ * sizeof(T));
        }
        return *this;
    }
    T* data() { return p_; }
    const T* data() const { return p_; }
    T* BytePtr() { return p_; }
    const T* BytePtr() const { return p_; }
    T* begin() { return p_; }
    T* end() { return p_ + n_; }
    const T* begin() const { return p_; }
    const T* end() const { return p_ + n_; }
    operator T*() { return p_; }
    operator const T*() const { return p_; }
    size_t size() const { return n_; }
    size_t SizeInBytes() const { return n_ * sizeof(T); }
    bool empty() const { return n_ == 0; }
    void New(size_t n)
    {
        if (n == n_)
            return;
        if (p_)
            ::operator delete(p_);
        p_ = n ? (T*)::operator new(n * sizeof(T)) : nullptr;
        n_ = n;
    }
    void CleanNew(size_t n)
    {
        New(n);
        if (n_)
            memset(p_, 0, n_ * sizeof(T));
    }
    void resize(size_t n)
    {
        if (n == n_)
            return;
        T* q = n ? (T*)::operator new(n * sizeof(T)) : nullptr;
        size_t m = n < n_ ? n : n_;
        if (m)
            memcpy(q, p_, m * sizeof(T));
        if (p_)
            ::operator delete(p_);
        p_ = q;
        n_ = n;
    }
    void swap(BasicSecBlock& o)
    {
        std::swap(n_, o.n_);
        std::swap(p_, o.p_);
    }

private:
    size_t n_;
    T* p_;
};
typedef BasicSecBlock<byte> SecByteBlock;
typedef BasicSecBlock<byte> AlignedSecByteBlock;
template <class T, class A = void>
using SecBlock = BasicSecBlock<T>;
template <class T, unsigned int S>
class FixedSizeSecBlock
{
    T d_[S];

public:
    FixedSizeSecBlock() {}
    T* data() { return d_; }
    const T* data() const { return d_; }
    T* begin() { return d_; }
    T* end() { return d_ + S; }
    operator T*() { return d_; }
    operator const T*() const { return d_; }
    size_t size() const { return S; }
};
template <class T, unsigned int S>
using FixedSizeAlignedSecBlock = FixedSizeSecBlock<T, S>;

struct AES
{
    enum
    {
        BLOCKSIZE = 16,
        DEFAULT_KEYLENGTH = 16
    };
};
struct KeyHolder
{
    byte key_[64];
    size_t keylen_ = 0;
    void setkey(const byte* k, size_t n)
    {
        keylen_ = n;
        memcpy(key_, k, n);
    }
};
template <class C>
struct GCM
{
    class Encryption : public KeyHolder
    {
    public:
        void SetKeyWithIV(const byte* k, size_t n, const byte*, size_t) { setkey(k, n); }
        void SetKeyWithIV(const byte* k, size_t n, const byte*) { setkey(k, n); }
        void EncryptAndAuthenticate(byte* ct, byte* mac, size_t maclen, const byte* iv, int ivlen, const byte* aad,
                                    size_t aadlen, const byte* msg, size_t msglen)
        {
            c_gcm_encrypt(key_, keylen_, ct, mac, maclen, iv, ivlen, aad, aadlen, msg, msglen);
        }
    };
    class Decryption : public KeyHolder
    {
    public:
        void SetKeyWithIV(const byte* k, size_t n, const byte*, size_t) { setkey(k, n); }
        void SetKeyWithIV(const byte* k, size_t n, const byte*) { setkey(k, n); }
        bool DecryptAndVerify(byte* msg, const byte* mac, size_t maclen, const byte* iv, int ivlen, const byte* aad,
                              size_t aadlen, const byte* ct, size_t ctlen)
        {
            return c_gcm_decrypt(key_, keylen_, msg, mac, maclen, iv, ivlen, aad, aadlen, ct, ctlen);
        }
    };
};
template <class C>
struct ECB_Mode
{
    class Encryption : public KeyHolder
    {
    public:
        Encryption() {}
        Encryption(const byte* k, size_t n) { setkey(k, n); }
        void SetKey(const byte* k, size_t n) { setkey(k, n); }
        void ProcessData(byte* out, const byte* in, size_t n) { c_ecb_encrypt(key_, keylen_, out, in, n); }
    };
};
template <class C>
struct CTR_Mode
{
    class Encryption : public KeyHolder
    {
        byte iv_[16];

    public:
        Encryption(const byte* k, size_t n, const byte* iv)
        {
            setkey(k, n);
            memcpy(iv_, iv, 16);
        }
        void Resynchronize(const byte* iv, int n = -1) { memcpy(iv_, iv, 16); }
        void ProcessData(byte* out, const byte* in, size_t n) { c_ctr(key_, keylen_, iv_, out, in, n); }
    };
};
template <class C>
class CMAC : public KeyHolder
{
public:
    CMAC(const byte* k, size_t n) { setkey(k, n); }
    void CalculateDigest(byte* d, const byte* in, size_t n) { c_cmac(key_, keylen_, d, in, n); }
};

class HashTransformation
{
public:
    uint64_t state_[4] = {0, 0, 0, 0};
    int alg_;
    size_t dlen_;
    HashTransformation(int a, size_t d) : alg_(a), dlen_(d) {}
    void Update(const byte* in, size_t n) { c_hash_update(this, alg_, in, n); }
    void Final(byte* out) { c_hash_final(this, alg_, out, dlen_); }
    void TruncatedFinal(byte* out, size_t n) { c_hash_final(this, alg_, out, n); }
    void CalculateDigest(byte* out, const byte* in, size_t n)
    {
        Update(in, n);
        Final(out);
    }
    void CalculateTruncatedDigest(byte* out, size_t m, const byte* in, size_t n)
    {
        Update(in, n);
        TruncatedFinal(out, m);
    }
    bool TruncatedVerify(const byte* d, size_t n)
    {
        byte out[64];
        c_hash_final(this, alg_, out, n);
        return memcmp(out, d, n) == 0;
    }
    bool Verify(const byte* d) { return TruncatedVerify(d, dlen_); }
    size_t DigestSize() const { return dlen_; }
};
class MessageAuthenticationCode : public HashTransformation
{
public:
    using HashTransformation::HashTransformation;
    void SetKey(const byte* k, size_t n) { c_hash_begin(this, alg_, k, n, dlen_); }
};
class SHA256 : public HashTransformation
{
public:
    enum
    {
        DIGESTSIZE = 32
    };
    SHA256() : HashTransformation(2, 32) { c_hash_begin(this, 2, nullptr, 0, 32); }
};
template <class H>
class HMAC : public MessageAuthenticationCode
{
public:
    enum
    {
        DIGESTSIZE = 32
    };
    HMAC() : MessageAuthenticationCode(1, 32) {}
    HMAC(const byte* k, size_t n) : MessageAuthenticationCode(1, 32) { SetKey(k, n); }
};
class BLAKE2b : public HashTransformation
{
public:
    BLAKE2b(const byte* key, size_t keylen, const byte* salt = nullptr, size_t saltlen = 0,
            const byte* person = nullptr, size_t perlen = 0, bool tree = false, unsigned int digestSize = 64)
        : HashTransformation(3, digestSize)
    {
        c_hash_begin(this, 3, key, keylen, digestSize);
    }
};
class AutoSeededRandomPool
{
public:
    void GenerateBlock(byte* out, size_t n) { c_random(out, n); }
};
class Integer
{
    byte d_[64];
    size_t n_;

public:
    enum Signedness
    {
        UNSIGNED,
        SIGNED
    };
    Integer(const byte* p, size_t n, Signedness = UNSIGNED, ByteOrder = BIG_ENDIAN_ORDER) : n_(n) { memcpy(d_, p, n); }
    unsigned long Modulo(unsigned long m) const { return c_mod(d_, n_, m); }
};
template <class H>
class PKCS5_PBKDF2_HMAC
{
public:
    unsigned DeriveKey(byte* out, size_t n, byte, const byte* pw, size_t pwlen, const byte* salt, size_t saltlen,
                       unsigned iter, double = 0) const
    {
        c_pbkdf2(out, n, pw, pwlen, salt, saltlen, iter);
        return iter;
    }
};
class Scrypt
{
public:
    size_t DeriveKey(byte* out, size_t n, const byte* pw, size_t pwlen, const byte* salt, size_t saltlen,
                     uint64_t cost = 2, uint64_t r = 8, uint64_t p = 1) const
    {
        c_scrypt(out, n, pw, pwlen, salt, saltlen, cost, r, p);
        return 1;
    }
};
inline bool HasAESNI() { return false; }
inline bool HasSSE2() { return false; }
}    // namespace CryptoPP
