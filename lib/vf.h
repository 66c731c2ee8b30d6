/* Dual-mode harness support.
 *  - under CBMC (__CPROVER__ defined): inputs are nondeterministic and logged, assertions are obligations;
 *  - under gcc/g++ (-DVF_NATIVE): inputs come from the file named by $VF_INPUTS (the values of a counterexample), so
 *    the same harness replays the counterexample against the natively compiled real code.
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned char vf_u8; typedef unsigned short vf_u16; typedef unsigned int vf_u32; typedef unsigned long long vf_u64;

#ifndef VF_NATIVE
vf_u8 nondet_vf_u8(void); vf_u16 nondet_vf_u16(void); vf_u32 nondet_vf_u32(void); vf_u64 nondet_vf_u64(void);
long double nondet_vf_ld(void);
static inline vf_u8  vf_nd8(void)  { vf_u8  vf_in = nondet_vf_u8();  __CPROVER_input("vf8", vf_in);  return vf_in; }
static inline vf_u16 vf_nd16(void) { vf_u16 vf_in = nondet_vf_u16(); __CPROVER_input("vf16", vf_in); return vf_in; }
static inline vf_u32 vf_nd32(void) { vf_u32 vf_in = nondet_vf_u32(); __CPROVER_input("vf32", vf_in); return vf_in; }
static inline vf_u64 vf_nd64(void) { vf_u64 vf_in = nondet_vf_u64(); __CPROVER_input("vf64", vf_in); return vf_in; }
static inline long double vf_ndld(void) { long double vf_in = nondet_vf_ld(); __CPROVER_input("vfld", vf_in); return vf_in; }
static inline vf_u8  vf_ndbool(void) { vf_u8 vf_in = nondet_vf_u8(); __CPROVER_assume(vf_in <= 1); __CPROVER_input("vf8", vf_in); return vf_in; }
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), msg)
/* reachability obligation: must be refuted by the verifier, otherwise the harness is vacuous */
#define VF_COVER(c, msg) __CPROVER_assert(!(c), "VFCOVER " msg)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
__attribute__((weak)) int vf_fails;
static FILE *vf_in_file;
static void vf_next(const char *tag, unsigned char *dst, size_t n)
{
  static char line[256];
  if(!vf_in_file) { const char *p = getenv("VF_INPUTS"); if(p) vf_in_file = fopen(p, "r"); }
  memset(dst, 0, n);
  if(!vf_in_file) return;
  if(!fgets(line, sizeof line, vf_in_file)) return; /* missing inputs are zero: irrelevant to the counterexample */
  char t[32]; char hex[200];
  if(sscanf(line, "%31s %199s", t, hex) != 2 || strcmp(t, tag)) { fprintf(stderr, "VF: input stream out of step (%s, %s)\n", tag, line); _Exit(78); }
  size_t l = strlen(hex);
  for(size_t i = 0; i < n && 2 * i + 1 < l; i++) { unsigned v; sscanf(hex + l - 2 - 2 * i, "%2x", &v); dst[i] = (unsigned char)v; }
}
static inline vf_u8  vf_nd8(void)  { vf_u8 v;  vf_next("vf8", (unsigned char*)&v, 1);  return v; }
static inline vf_u8  vf_ndbool(void)  { vf_u8 v;  vf_next("vf8", (unsigned char*)&v, 1);  return v != 0; }
static inline vf_u16 vf_nd16(void) { vf_u16 v; vf_next("vf16", (unsigned char*)&v, 2); return v; }
static inline vf_u32 vf_nd32(void) { vf_u32 v; vf_next("vf32", (unsigned char*)&v, 4); return v; }
static inline vf_u64 vf_nd64(void) { vf_u64 v; vf_next("vf64", (unsigned char*)&v, 8); return v; }
static inline long double vf_ndld(void) { __float128 q; unsigned char b[16]; vf_next("vfld", b, 16); memcpy(&q, b, 16); return (long double)q; }
#define VF_ASSUME(c) do { if(!(c)) { fprintf(stderr, "VF: assumption not met: %s\n", #c); _Exit(77); } } while(0)
#define VF_ASSERT(c, msg) do { if(!(c)) { printf("VF-FAIL %s\n", msg); fflush(stdout); vf_fails = 1; } } while(0)
#define VF_COVER(c, msg) do { } while(0)
#endif
#ifdef __cplusplus
}
#endif
#endif
