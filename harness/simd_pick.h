// Symbolically the vector width is a parameter of the harness (simd_detector.cpp has a check of its own);
// natively the real detector decides.
#pragma once
#ifdef VF_SYMBOLIC
#include "vf.h"
namespace unicode::detail
{
auto max_simd_size() -> size_t { size_t const w = (size_t) __vf_param(7); return w ? w : 128; }
} // namespace unicode::detail
#endif
