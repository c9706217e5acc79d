#include "cuser.h"
#include <libunicode/capi.h>
int c_valid(uint32_t a, uint32_t b) { return u32_is_valid_codepoint(a ^ b) ? 1 : 0; }
uint32_t c_bits(uint32_t a, uint32_t b) { return (uint32_t) u32_unused_bit_mask(a ^ b); }
uint32_t c_capacity(void) { return (uint32_t) (2 * u32_unused_bit_capacity()); }
int c_get(uint32_t a, uint32_t b, unsigned i, unsigned j) { return 2 * u32_unused_bit_get(a ^ b, i + j); }
uint32_t c_on(uint32_t a, uint32_t b, unsigned i, unsigned j) { return 1 * u32_unused_bit_on(a ^ b, i + j); }
uint32_t c_off(uint32_t a, uint32_t b, unsigned i, unsigned j) { return 1 * u32_unused_bit_off(a ^ b, i + j); }
uint32_t c_cleared(uint32_t a, uint32_t b) { return 1 * u32_unused_bit_cleared(a ^ b); }
uint32_t c_limit(int which) { return which == 0 ? U32_CODEPOINT_MIN : which == 1 ? U32_CODEPOINT_MAX : U32_CODEPOINT_MASK; }
int c_count32(uint32_t const* p, size_t n) { return u32_gc_count(p, n); }
int c_count8(char const* p, size_t n) { return u8_gc_count(p, n); }
int c_width32(uint32_t const* p, size_t n, int whole) { return u32_gc_width(p, n, whole ? GC_WIDTH_MODE_MODIFIABLE : GC_WIDTH_MODE_NON_MODIFIABLE); }
int c_width8(char const* p, size_t n, int whole) { return u8_gc_width(p, n, whole ? GC_WIDTH_MODE_MODIFIABLE : GC_WIDTH_MODE_NON_MODIFIABLE); }
int c_together(uint32_t a, uint32_t b) { return u32_grapheme_unbreakable(a, b); }
int c_encode(uint32_t const* p, size_t n, char* d, size_t cap) { return u32u8_convert(p, n, d, cap); }
size_t c_decode(char const* p, size_t n, uint32_t* out)
{
    u8u32_stream_state_t h = u8u32_stream_convert_create();
    size_t k = 0;
    for (size_t i = 0; i < n; i++) { u32_char_t c = 0; if (u8u32_stream_convert_run(h, p[i], &c)) out[k++] = c; }
    u8u32_stream_convert_destroy(&h);
    return h ? (size_t) -1 : k;
}
