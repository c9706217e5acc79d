// What a C program sees of the C API (cuser.c is compiled as C, against capi.h of the tree).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int c_valid(uint32_t a, uint32_t b);                             /* the arguments reach the macros as a ^ b, i + j */
uint32_t c_bits(uint32_t a, uint32_t b);
uint32_t c_capacity(void);
int c_get(uint32_t a, uint32_t b, unsigned i, unsigned j);
uint32_t c_on(uint32_t a, uint32_t b, unsigned i, unsigned j);
uint32_t c_off(uint32_t a, uint32_t b, unsigned i, unsigned j);
uint32_t c_cleared(uint32_t a, uint32_t b);
uint32_t c_limit(int which);                                      /* 0 smallest, 1 largest codepoint, 2 mask */
int c_count32(uint32_t const* p, size_t n);
int c_count8(char const* p, size_t n);
int c_width32(uint32_t const* p, size_t n, int whole);
int c_width8(char const* p, size_t n, int whole);
int c_together(uint32_t a, uint32_t b);
int c_encode(uint32_t const* p, size_t n, char* d, size_t cap);
size_t c_decode(char const* p, size_t n, uint32_t* out);          /* streams p through a converter of its own; (size_t)-1: the handle is left */
#ifdef __cplusplus
}
#endif
