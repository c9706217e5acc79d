// Primitives shared by all harnesses. Under the symbolic executor they are interpreted by the engine; natively
// (replay of counterexamples and witnesses) they are implemented by rt.cpp from a file of concrete values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C"
{
uint64_t __vf_sym(uint64_t lo, uint64_t hi);      // arbitrary value in [lo, hi] (at most 2^23 values)
uint64_t __vf_raw(int bits);                      // arbitrary bit-vector
uint64_t __vf_choose(uint64_t lo, uint64_t hi);   // arbitrary value in [lo, hi], the executor forks on it
uint64_t __vf_concretise(uint64_t v);             // forks until v has one value
uint64_t __vf_ite(uint64_t c, uint64_t a, uint64_t b);
void __vf_assume(bool c);
void __vf_assert(bool c, char const* msg);
void __vf_assert_eq(uint64_t a, uint64_t b, char const* msg);
void __vf_reach(int id);
void __vf_out(uint64_t v);
uint32_t __vf_ref(int table, uint64_t idx);
void* __vf_alloc(uint64_t n);
void __vf_free(void* p);
uint64_t __vf_param(int k);
int __vf_native();
void vf_main();
}
#define VF_NOINLINE __attribute__((noinline))
template <typename T> static inline T* vf_buf(size_t n) { return (T*) __vf_alloc(n * sizeof(T)); }
static inline char32_t vf_cp() { return (char32_t) __vf_sym(0, 0x10FFFF); }
