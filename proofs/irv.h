// Specification primitives.  The same harness is read by the deductive verifier (IRV defined: the irv_*
// functions are interpreted symbolically, variables range over ALL values) and compiled natively against the
// real libraries (values come from a replay file or a seeded generator): the native build replays
// counterexamples and searches for failing inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C"
{
    // an arbitrary value in [lo, hi]
    uint64_t irv_var(const char* name, uint64_t lo, uint64_t hi);
    // n arbitrary bytes in a new heap object
    void* irv_array(const char* name, uint64_t n);
    // n arbitrary bytes at p
    void irv_havoc(void* p, uint64_t n, const char* name);
    void irv_assume(bool c);
    void irv_assert(bool c, const char* name);
    void irv_cover(const char* name);
    // uninterpreted function of its arguments, result of `bits` bits
    uint64_t irv_uf(const char* name, uint64_t bits, ...);
    // an index at which unbounded comparisons are instantiated
    void irv_focus(uint64_t k);
    void irv_unroll(uint64_t n);
    void irv_try_unroll(uint64_t n);
    void irv_inv(bool (*pred)(void*, uint64_t), void* ctx);
    void irv_track(uint64_t (*spec)(void*, uint64_t), void* ctx);
    void irv_expect(void* p, uint8_t (*spec)(void*, uint64_t), void* ctx);
    // byte k of p becomes spec(ctx, k), for all k < n
    void irv_fill(void* p, uint64_t n, uint8_t (*spec)(void*, uint64_t), void* ctx);
    void irv_inv_clear();
    void* irv_last_alloc();    // verifier only: the variable sized heap object allocated last
    int irv_split(bool c);
    uint64_t irv_concretize(uint64_t v);
    uint64_t irv_size_of(const void* p);
}
#ifdef IRV
#define IRV_CAP(sym, nat) (sym)
#define IRV_ONLY(...) __VA_ARGS__
#define NATIVE_ONLY(...)
#else
#define IRV_CAP(sym, nat) (nat)
#define IRV_ONLY(...)
#define NATIVE_ONLY(...) __VA_ARGS__
#endif
// length/offset like variable: [lo, hi] for the proof, [lo, min(hi, cap)] natively
inline uint64_t irv_len(const char* name, uint64_t lo, uint64_t hi, uint64_t cap)
{
#ifndef IRV
    if (hi > cap)
        hi = cap;
#endif
    return irv_var(name, lo, hi);
}
// for every k < n: one arbitrary k for the proof, all of them natively
#ifdef IRV
#define FORALL(k, n) if (uint64_t k = irv_var(#k, 0, 1ull << 60); k < (uint64_t)(n))
#else
#define FORALL(k, n) for (uint64_t k = 0; k < (uint64_t)(n); ++k)
#endif
#include <cstdlib>
// a ghost copy of n bytes
inline uint8_t* irv_dup(const void* p, uint64_t n)
{
    void* r = irv_array("dup", n);
    memcpy(r, p, n);
    return (uint8_t*)r;
}
// harness run natively only: a bounded stand-in, never counted as proved
#define BOUNDED(name) extern "C" void bounded_##name()
extern "C" const char* irv_scratch();
extern "C" const char* irv_private();    // natively: a scratch directory of an unprivileged user, who the process becomes
extern "C" uint64_t irv_rand(uint64_t n);
#define PROOF(name) extern "C" void proof_##name()
// executed by the verifier for all values, but only up to a size the harness states: bounded, not counted as proved
#define PROOF_SMALL(name) extern "C" void proof_##name()
// proved in the thorough tier only
#define PROOF_DEEP(name) extern "C" void proof_##name()
