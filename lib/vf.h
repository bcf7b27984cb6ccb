/* Harness API. Under the engine these are intrinsics; natively vfnative.c feeds recorded values. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
uint64_t __vf_sym(int bits, const char* name);          /* arbitrary value */
void     __vf_assume(int cond);
void     __vf_assert(int cond, const char* msg);
void     __vf_fail(const char* msg);
void     __vf_reach(const char* what);                   /* reachability witness */
uint64_t __vf_conc(uint64_t v);                          /* fork over every feasible value */
void     __vf_out(uint64_t v);                           /* observation compared with native execution */
uint64_t __vf_heap_bytes(void);                          /* bytes currently allocated */
int      __vf_is_sym(uint64_t v);
/* in-memory files (scratch directory when native) */
void     __vf_file_put(const char* name, const void* buf, size_t len);
int      __vf_file_get(const char* name, void** buf, size_t* len);  /* 0 if absent; *buf malloc'ed */
#define vf_u8(n)  ((uint8_t)__vf_sym(8,n))
#define vf_u16(n) ((uint16_t)__vf_sym(16,n))
#define vf_u32(n) ((uint32_t)__vf_sym(32,n))
#define vf_i32(n) ((int32_t)__vf_sym(32,n))
static inline float vf_f32(const char* n) { uint32_t b=(uint32_t)__vf_sym(32,n); float f; memcpy(&f,&b,4); return f; }
static inline uint32_t vf_fbits(float f) { uint32_t b; memcpy(&b,&f,4); return b; }
static inline int vf_finite(float f) { return ((vf_fbits(f)>>23)&255)!=255; }
/* symbolic value in [lo,hi] */
static inline int vf_range(int lo, int hi, const char* n) { if (lo>=hi) return lo; uint32_t d=(uint32_t)(hi-lo), v=(uint32_t)__vf_sym(d<256?8:d<65536?16:32,n); __vf_assume(v<=d); return lo+(int)v; }
/* same, but each value explored as its own path */
static inline int vf_choose(int lo, int hi, const char* n) { return (int)(int32_t)(uint32_t)__vf_conc((uint32_t)vf_range(lo,hi,n)); }
static inline void vf_bytes(void* p, size_t n, const char* nm) { for (size_t i=0;i<n;i++) ((uint8_t*)p)[i]=(uint8_t)__vf_sym(8,nm); }
#define VF_ASSERT(c) __vf_assert(!!(c), #c)
#define VF_ASSERTM(c,m) __vf_assert(!!(c), m)
void vf_main(void);
#endif
