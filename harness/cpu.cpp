// The choice of the vector width.  mode 0: every processor and operating system state
#include "vf.h"
#include <libunicode/simd_detector.h>
static uint32_t maxLeaf, leaf0[4], leaf1[4], leaf7[4], xcr[2];
extern "C" uint32_t vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t reg)
{
    if ((leaf > maxLeaf) & (leaf < 0x40000000)) return (uint32_t) __vf_raw(32); // a leaf the processor does not have: anything
    uint32_t* const r = leaf == 0 ? leaf0 : leaf == 1 ? leaf1 : leaf == 7 && sub == 0 ? leaf7 : nullptr;
    return r ? r[reg] : (uint32_t) __vf_raw(32);
}
extern "C" uint32_t vf_xgetbv(uint32_t index, uint32_t hi)
{
    __vf_assert(index == 0, "xgetbv of a register that need not exist");
    __vf_assert((leaf1[2] >> 27 & 1) != 0, "xgetbv without OSXSAVE (invalid opcode)");
    return xcr[hi];
}
extern "C" void vf_main()
{
    maxLeaf = leaf0[0] = (uint32_t) __vf_sym(1, 0x40);
    for (int k = 1; k < 4; k++) leaf0[k] = (uint32_t) __vf_raw(32);
    for (int k = 0; k < 4; k++) leaf1[k] = (uint32_t) __vf_raw(32);
    for (int k = 0; k < 4; k++) leaf7[k] = (uint32_t) __vf_raw(32);
    for (int k = 0; k < 2; k++) xcr[k] = (uint32_t) __vf_raw(32);
    size_t const w = unicode::detail::max_simd_size();
    bool const osavx = (leaf1[2] >> 27 & 1) & (leaf1[2] >> 28 & 1) & ((xcr[0] & 6) == 6);
    bool const os512 = osavx & ((xcr[0] & 0xE6) == 0xE6);
    bool const avx2 = osavx & (maxLeaf >= 7) & ((leaf7[1] >> 5 & 1) != 0);
    bool const avx512 = avx2 & os512 & ((leaf7[1] >> 16 & 1) != 0) & ((leaf7[1] >> 30 & 1) != 0) & ((leaf7[2] >> 12 & 1) != 0);
    __vf_assert((w == 128) | (w == 256) | (w == 512), "vector width");
    __vf_assert((w != 512) | avx512, "512 bits without AVX-512 F, BW, BITALG and operating system support");
    __vf_assert((w < 256) | avx2, "256 bits without AVX2 and operating system support");
    __vf_assert_eq(w, __vf_ite(avx512, 512, __vf_ite(avx2, 256, 128)), "widest supported width");
    __vf_out(w);
}
