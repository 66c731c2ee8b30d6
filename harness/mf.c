/* Contracts of the C mock runtime (MockedFunction.c), attached to the unmodified source included at the end of the prelude.
 *
 * Abstract state of a mock: name, dataSize, expected, actual, and a map slot -> pending block.
 * Representation invariant INV: expected <= N; slot i is empty for i >= expected; slot i is occupied for actual <= i < expected
 * (slots below `actual` may be occupied or not: an expectation recorded after an excess call is skipped, never delivered).
 * Universally quantified clauses are stated for an arbitrary witness (vf_o: a slot, vf_w: a byte of the data).
 */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <MockedFunction.h>

#define N EASYMOCK_MAX_MOCKED_CALL
#ifndef MAXD
#define MAXD 32
#endif

struct vf_ghost {
  vf_u8 exit_ok, fail_alloc, err_callstack;
  unsigned mallocs, frees, freed_o, errors, err_ints, err_strs;
  void *last_alloc; size_t last_size; void *watch_o;
  const char *err_name; unsigned err_int[4];
} vf_g;
static MockedFunction vf_mf;
static unsigned vf_o, vf_w;           /* witnesses */
static char vf_canary[8];
static const char vf_name[] = "int f(int a)";
/* snapshot */
static struct { const char *name; unsigned dataSize, expected, actual; void *slot_o; unsigned char byte_o; vf_u8 has_o; } vf_s;
static void vf_check_frame(void);

void vf_exit(int status)
{
  VF_ASSERT(vf_g.exit_ok, "C04.exit: a legal operation ended the process");
  VF_ASSERT(status != 0, "C04.exit: the process ends with a success status");
  vf_check_frame();
#ifdef VF_NATIVE
  fflush(stdout); _Exit(vf_fails);
#else
  __CPROVER_assume(0);
  while(1);
#endif
}
#ifdef VF_ABS
/* Assumed contracts of malloc, free and memcpy over abstract blocks: a block is a token with a size, a liveness flag and an abstract
 * content. Copying all dataSize bytes transfers the content, any other copy leaves an unrelated content. This covers every data
 * size; the companion jobs without VF_ABS use CBMC's byte-precise models for sizes up to MAXD. */
enum { TOK_DATA = N, TOK_OUT, TOK_NEW, TOK_END };
static char vf_tok[TOK_END];
static struct { vf_u8 live[TOK_END]; unsigned size[TOK_END]; vf_u8 content[TOK_END]; } vf_h;
static unsigned vf_tok_of(const void *p)
{
  VF_ASSERT(__CPROVER_same_object(p, vf_tok) && __CPROVER_POINTER_OFFSET(p) < TOK_END, "C04.mem: the C library is given a pointer that is not a block of the mock or of the caller");
  unsigned k = (unsigned)__CPROVER_POINTER_OFFSET(p);
  __CPROVER_assume(k < TOK_END);
  VF_ASSERT(vf_h.live[k], "C04.mem: a released block is used");
  return k;
}
void *vf_memcpy(void *d, const void *src, size_t n)
{
  if(n == 0) return d;
  unsigned kd = vf_tok_of(d), ks = vf_tok_of(src);
  VF_ASSERT(n <= vf_h.size[kd] && n <= vf_h.size[ks], "C04.mem: copy beyond the end of a block");
  vf_h.content[kd] = n == vf_mf.dataSize ? vf_h.content[ks] : nondet_vf_u8();
  return d;
}
#endif
void *vf_malloc(size_t n)
{
  vf_g.mallocs++;
  if(vf_g.fail_alloc) return NULL;
#ifdef VF_ABS
  VF_ASSERT(!vf_h.live[TOK_NEW] && n <= 0xffffffffu, "C04.mem: more than one allocation");
  vf_h.live[TOK_NEW] = 1; vf_h.size[TOK_NEW] = (unsigned)n;
  void *p = &vf_tok[TOK_NEW];
#else
  void *p = malloc(n);
#endif
  VF_ASSUME(p != NULL);
  vf_g.last_alloc = p; vf_g.last_size = n;
  return p;
}
void *vf_calloc(size_t n, size_t m)
{
  void *p = vf_malloc(n * m);
  if(p) memset(p, 0, n * m);
  return p;
}
void vf_free(void *p)
{
  if(p) { vf_g.frees++; if(p == vf_g.watch_o) vf_g.freed_o++; }
#ifdef VF_ABS
  if(p) vf_h.live[vf_tok_of(p)] = 0;
#else
  free(p);
#endif
}

/* assumed contract of the error sink (proved for easyMock.cpp by C09): any call is allowed; the ghost state records what is reported */
void easyMock_addError(easyMock_bool callstack, const char *fmt, ...)
{
  vf_g.errors++; vf_g.err_callstack = callstack != 0; vf_g.err_ints = 0; vf_g.err_strs = 0;
  va_list ap;
  va_start(ap, fmt);
  for(unsigned i = 0; fmt[i] != 0; i++)
  {
    if(fmt[i] != '%') continue;
    i++;
    if(fmt[i] == '%') continue;
    if(fmt[i] == 's') { const char *s = va_arg(ap, const char *); if(vf_g.err_strs == 0) vf_g.err_name = s; vf_g.err_strs++; }
    else if(fmt[i] == 'd' || fmt[i] == 'u' || fmt[i] == 'i') { unsigned v = va_arg(ap, unsigned); if(vf_g.err_ints < 4) vf_g.err_int[vf_g.err_ints] = v; vf_g.err_ints++; }
    else VF_ASSERT(0, "C02.err: unexpected conversion in the error format");
  }
  va_end(ap);
}
#ifdef VF_NOVA
/* the frame instrumentation cannot handle variadic callees: the content of the report is checked in a separate job */
static void vf_report(void) { vf_g.errors++; }
#define easyMock_addError(...) ((void)(__VA_ARGS__), vf_report())
#endif

#ifndef VF_NATIVE
#ifdef VF_ABS
#define FRAME_GHOST __CPROVER_object_whole(&vf_g), __CPROVER_object_whole(&vf_h)
#else
#define FRAME_GHOST __CPROVER_object_whole(&vf_g)
#endif
#ifdef VF_ABS
#define VF_RW(c) 1
#define VF_SAME(p, q) (mf->dataSize == 0 || vf_h.content[__CPROVER_POINTER_OFFSET(p)] == vf_h.content[__CPROVER_POINTER_OFFSET(q)])
#define VF_DATA_FRAME
#else
#define VF_RW(c) (mf->dataSize == 0 || (c))
#define VF_SAME(p, q) (mf->dataSize == 0 || ((const unsigned char *)(p))[vf_w] == ((const unsigned char *)(q))[vf_w])
#define VF_DATA_FRAME __CPROVER_assigns(mf->dataSize > 0: __CPROVER_object_upto(data, mf->dataSize))
#endif
/* ---- contracts ------------------------------------------------------------------------------------------------------ */
void MockedFunction_init(MockedFunction *mf, const char *name, easyMock_size_t dataSize)
__CPROVER_requires(__CPROVER_w_ok(mf, sizeof(*mf)))
__CPROVER_assigns(__CPROVER_object_whole(mf))
__CPROVER_ensures(mf->name == name && mf->dataSize == dataSize && mf->expectedCall == 0 && mf->actualCall == 0)
__CPROVER_ensures(mf->mockedData[vf_o] == NULL)
;
void MockedFunction_addExpectedCall(MockedFunction *mf, const void *data)
__CPROVER_requires(__CPROVER_w_ok(mf, sizeof(*mf)) && mf->expectedCall <= N && VF_RW(__CPROVER_r_ok(data, mf->dataSize)))
__CPROVER_assigns(mf->expectedCall < N: mf->expectedCall, mf->mockedData[mf->expectedCall])
__CPROVER_assigns(FRAME_GHOST)
__CPROVER_frees()
__CPROVER_ensures(mf->expectedCall == __CPROVER_old(mf->expectedCall) + 1)
__CPROVER_ensures(mf->mockedData[mf->expectedCall - 1] != NULL && mf->mockedData[mf->expectedCall - 1] != data)
__CPROVER_ensures(VF_SAME(mf->mockedData[mf->expectedCall - 1], data))
;
easyMock_bool MockedFunction_addActualCall(MockedFunction *mf)
__CPROVER_requires(__CPROVER_w_ok(mf, sizeof(*mf)) && mf->actualCall < (unsigned)-1)
__CPROVER_assigns(mf->actualCall)
__CPROVER_frees()
__CPROVER_ensures(mf->actualCall == __CPROVER_old(mf->actualCall) + 1)
__CPROVER_ensures((__CPROVER_return_value != 0) == (__CPROVER_old(mf->actualCall) < mf->expectedCall))
;
easyMock_bool MockedFunction_getCurrentCallParam(MockedFunction *mf, void *data)
__CPROVER_requires(__CPROVER_w_ok(mf, sizeof(*mf)) && VF_RW(__CPROVER_w_ok(data, mf->dataSize)))
__CPROVER_assigns(mf->actualCall >= 1 && mf->actualCall <= N: mf->mockedData[mf->actualCall - 1])
VF_DATA_FRAME
__CPROVER_assigns(FRAME_GHOST)
__CPROVER_frees(mf->actualCall >= 1 && mf->actualCall <= N: mf->mockedData[mf->actualCall - 1])
;
unsigned int MockedFunction_getNbActualCall(MockedFunction *mf)
__CPROVER_requires(__CPROVER_r_ok(mf, sizeof(*mf)))
__CPROVER_assigns() __CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value == mf->actualCall)
;
const char *MockedFunction_getName(MockedFunction *mf)
__CPROVER_requires(__CPROVER_r_ok(mf, sizeof(*mf)))
__CPROVER_assigns() __CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value == mf->name)
;
void MockedFunction_reset(MockedFunction *mf)
__CPROVER_requires(__CPROVER_w_ok(mf, sizeof(*mf)))
__CPROVER_assigns(mf->expectedCall, mf->actualCall, __CPROVER_object_upto(mf->mockedData, sizeof(mf->mockedData)))
__CPROVER_assigns(FRAME_GHOST)
__CPROVER_ensures(mf->expectedCall == 0 && mf->actualCall == 0 && mf->mockedData[vf_o] == NULL)
;
easyMock_bool MockedFunction_verify(MockedFunction *mf)
__CPROVER_requires(__CPROVER_r_ok(mf, sizeof(*mf)))
__CPROVER_assigns(FRAME_GHOST)
__CPROVER_frees()
__CPROVER_ensures((__CPROVER_return_value != 0) == (mf->expectedCall == mf->actualCall))
;
#endif

#define exit vf_exit
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#ifdef VF_ABS
#define memcpy vf_memcpy
#endif
#include VF_SOURCE
#undef exit
#undef malloc
#undef calloc
#undef free
#undef memcpy

/* the verifier makes every static object arbitrary at entry: the ghost state is set here */
static void vf_begin(void)
{
  memset(&vf_g, 0, sizeof vf_g); memset(&vf_s, 0, sizeof vf_s);
#ifdef VF_ABS
  memset(&vf_h, 0, sizeof vf_h);
#endif
}
static vf_u8 vf_holds(const unsigned char *b, vf_u8 v);
/* ---- arbitrary pre-states -------------------------------------------------------------------------------------------- */
static void vf_snapshot(void)
{
  vf_s.name = vf_mf.name; vf_s.dataSize = vf_mf.dataSize; vf_s.expected = vf_mf.expectedCall; vf_s.actual = vf_mf.actualCall;
  vf_s.slot_o = vf_mf.mockedData[vf_o];
}
static void vf_check_frame(void)
{
  VF_ASSERT(vf_mf.name == vf_s.name && vf_mf.dataSize == vf_s.dataSize, "C04.frame: name or data size of the mock changed");
  VF_ASSERT(vf_mf.expectedCall == vf_s.expected && vf_mf.actualCall == vf_s.actual, "C04.frame: a counter changed before the process was ended");
  VF_ASSERT(vf_mf.mockedData[vf_o] == vf_s.slot_o, "C04.frame: a slot changed before the process was ended");
}
static void vf_inv(void)
{
  VF_ASSERT(vf_mf.expectedCall <= N, "C01.inv: more expectations than slots");
  if(vf_o >= vf_mf.expectedCall) VF_ASSERT(vf_mf.mockedData[vf_o] == NULL, "C01.inv: a slot beyond the recorded expectations is occupied");
  else if(vf_o >= vf_mf.actualCall) VF_ASSERT(vf_mf.mockedData[vf_o] != NULL, "C01.inv: a pending expectation is missing");
}
static void vf_other_same(void)
{
  VF_ASSERT(vf_mf.mockedData[vf_o] == vf_s.slot_o, "C01.frame: another slot changed");
  if(vf_s.has_o && vf_mf.mockedData[vf_o] == vf_s.slot_o) VF_ASSERT(vf_holds(vf_mf.mockedData[vf_o], vf_s.byte_o), "C01.frame: the data of another pending expectation changed");
  VF_ASSERT(vf_g.freed_o == 0, "C01.frame: another pending expectation was released");
  VF_ASSERT(vf_mf.name == vf_s.name && vf_mf.dataSize == vf_s.dataSize, "C01.frame: name or data size changed");
}
static void vf_setup(void)
{
  vf_begin();
  vf_mf.name = vf_name;
  vf_mf.dataSize = vf_nd32(); VF_ASSUME(vf_mf.dataSize <= MAXD);
  vf_mf.expectedCall = vf_nd32(); VF_ASSUME(vf_mf.expectedCall <= N);
  vf_mf.actualCall = vf_nd32();
  vf_o = vf_nd32(); VF_ASSUME(vf_o < N);
  vf_w = vf_nd32(); VF_ASSUME(vf_w < vf_mf.dataSize || (vf_mf.dataSize == 0 && vf_w == 0));
  for(unsigned i = 0; i < N; i++)
  {
    vf_u8 occ = vf_ndbool();
    if(i < vf_mf.expectedCall && (i >= vf_mf.actualCall || occ))
    {
#ifdef VF_NATIVE
      vf_mf.mockedData[i] = calloc(vf_mf.dataSize ? vf_mf.dataSize : 1, 1);
#elif defined(VF_ABS)
      vf_mf.mockedData[i] = &vf_tok[i]; vf_h.live[i] = 1; vf_h.size[i] = vf_mf.dataSize;
#else
      vf_mf.mockedData[i] = vf_canary;  /* must not be touched: releasing or writing it fails an obligation */
#endif
    }
    else vf_mf.mockedData[i] = NULL;
  }
}
/* a live block of dataSize bytes whose witness byte (or abstract content) is v */
static unsigned char *vf_block(unsigned k, vf_u8 v)
{
#ifdef VF_ABS
  vf_h.live[k] = 1; vf_h.size[k] = vf_mf.dataSize; vf_h.content[k] = v;
  return (unsigned char *)&vf_tok[k];
#else
  unsigned char *b = malloc(vf_mf.dataSize);
  VF_ASSUME(b != NULL);
#ifdef VF_NATIVE
  for(size_t i = 0; i < vf_mf.dataSize; i++) b[i] = (unsigned char)(v ^ (i - vf_w) * 7); /* replay: every byte is compared */
#else
  if(vf_mf.dataSize) b[vf_w] = v;
#endif
  return b;
#endif
}
static void vf_poke(unsigned char *b, vf_u8 v)
{
#ifdef VF_ABS
  vf_h.content[__CPROVER_POINTER_OFFSET(b)] = v;
#else
  if(vf_mf.dataSize) b[vf_w] = v;
#endif
}
static vf_u8 vf_holds(const unsigned char *b, vf_u8 v)
{
  if(vf_mf.dataSize == 0) return 1;
#ifdef VF_ABS
  return vf_h.content[__CPROVER_POINTER_OFFSET(b)] == v;
#elif defined(VF_NATIVE)
  for(size_t i = 0; i < vf_mf.dataSize; i++) if(b[i] != (unsigned char)(v ^ (i - vf_w) * 7)) return 0;
  return 1;
#else
  return b[vf_w] == v;
#endif
}
#ifndef VF_ABS
enum { TOK_DATA = N, TOK_OUT };
#endif
static void vf_real_o(void)
{
  if(vf_mf.mockedData[vf_o])
  {
    vf_u8 v = vf_nd8();
    unsigned char *b = vf_block(vf_o, v);
    vf_s.byte_o = v; vf_s.has_o = 1;
    vf_mf.mockedData[vf_o] = b; vf_g.watch_o = b;
  }
}

/* ---- proof harnesses --------------------------------------------------------------------------------------------------- */
void h_init(void)
{
  vf_begin();
  vf_o = vf_nd32(); VF_ASSUME(vf_o < N);
  vf_mf.name = NULL; vf_mf.expectedCall = vf_nd32(); vf_mf.actualCall = vf_nd32(); vf_mf.dataSize = vf_nd32();
  vf_mf.mockedData[vf_o] = vf_ndbool() ? vf_canary : NULL;
  unsigned size = vf_nd32();
  VF_COVER(vf_mf.mockedData[vf_o] != NULL, "init: dirty slot");
  MockedFunction_init(&vf_mf, vf_name, size);
  VF_ASSERT(vf_mf.name == vf_name && vf_mf.dataSize == size, "C03.init: name or data size not recorded");
  VF_ASSERT(vf_mf.expectedCall == 0 && vf_mf.actualCall == 0, "C03.init: a count is not zero");
  VF_ASSERT(vf_mf.mockedData[vf_o] == NULL, "C03.init: an expectation is pending");
  VF_ASSERT(vf_g.errors == 0, "C03.init: an error is reported");
}
void h_add(void)
{
  vf_setup(); vf_real_o();
  unsigned E = vf_mf.expectedCall, A = vf_mf.actualCall;
  vf_u8 v = vf_nd8();
  unsigned char *data = vf_block(TOK_DATA, v);
  vf_snapshot();
  vf_g.fail_alloc = vf_ndbool();
  vf_u8 legal = E < N && !vf_g.fail_alloc;
  vf_g.exit_ok = !legal;
  VF_COVER(legal && E == N - 1 && vf_s.has_o, "add: last free slot");
  VF_COVER(E == N, "add: full queue");
  VF_COVER(E == 3 && vf_g.fail_alloc, "add: allocation failure");
  MockedFunction_addExpectedCall(&vf_mf, data);
  VF_ASSERT(legal, "C04.add: an expectation is accepted although the queue is full or memory is exhausted");
  if(!legal) return;
  VF_ASSERT(vf_mf.expectedCall == E + 1, "C02.add: the expectation is not counted exactly once");
  VF_ASSERT(vf_mf.actualCall == A, "C02.add: recording an expectation changes the number of calls");
  unsigned char *b = vf_mf.mockedData[E];
  VF_ASSERT(b != NULL, "C01.add: the expectation is not queued at its own position");
  if(b == NULL) return;
  VF_ASSERT(vf_g.mallocs == 1 && b == vf_g.last_alloc && vf_g.last_size >= vf_mf.dataSize, "C01.add: the expectation does not own a block large enough for its data");
  VF_ASSERT(vf_holds(data, v), "C01.add: the caller's data changed");
  VF_ASSERT(vf_holds(b, v), "C01.add: the queued data differs from the caller's data");
  vf_poke(data, v ^ 0xff);
  VF_ASSERT(vf_holds(b, v), "C01.add: the queued data is not a copy");
  VF_ASSERT(vf_g.frees == 0, "C01.add: memory is released");
  if(vf_o != E) vf_other_same();
  vf_inv();
}
void h_actual(void)
{
  vf_setup(); vf_real_o();
  VF_ASSUME(vf_mf.actualCall < 0xffffffffu);
  vf_snapshot();
  unsigned E = vf_mf.expectedCall, A = vf_mf.actualCall;
  VF_COVER(A < E, "actual: expected"); VF_COVER(A == E, "actual: just beyond"); VF_COVER(A > N, "actual: far beyond");
  easyMock_bool r = MockedFunction_addActualCall(&vf_mf);
  VF_ASSERT((r != 0) == (A < E), "C02.actual: a call is accepted without a matching expectation, or rejected with one");
  VF_ASSERT(vf_mf.actualCall == A + 1, "C02.actual: the call is not counted exactly once");
  VF_ASSERT(vf_mf.expectedCall == E, "C02.actual: a call changes the number of expectations");
  vf_other_same();
  if(r != 0 && A < N) VF_ASSERT(vf_mf.mockedData[A] != NULL, "C01.actual: an accepted call has no pending expectation");
  VF_ASSERT(MockedFunction_getNbActualCall(&vf_mf) == A + 1, "C02.actual: wrong call number");
}
/* an accepted call takes its own expectation */
void h_get(void)
{
  vf_setup();
  VF_ASSUME(vf_mf.actualCall >= 1 && vf_mf.actualCall - 1 < vf_mf.expectedCall);
  unsigned idx = vf_mf.actualCall - 1, E = vf_mf.expectedCall;
  VF_ASSUME(vf_mf.mockedData[idx] != NULL);
  VF_ASSUME(vf_o != idx);
  vf_real_o();
  vf_u8 v = vf_nd8();
  unsigned char *b = vf_block(idx, v);
  vf_mf.mockedData[idx] = b;
  unsigned char *out = vf_block(TOK_OUT, vf_nd8());
  vf_snapshot();
  VF_COVER(idx == N - 1 && vf_s.has_o, "get: last slot"); VF_COVER(idx == 0 && E == N && vf_s.has_o, "get: first of many");
  easyMock_bool r = MockedFunction_getCurrentCallParam(&vf_mf, out);
  VF_ASSERT(r != 0, "C01.get: an accepted call does not get its expectation");
  VF_ASSERT(vf_holds(out, v), "C01.get: the data handed out differs from the data recorded");
  VF_ASSERT(vf_mf.mockedData[idx] == NULL, "C01.get: the expectation stays pending after having been handed out");
  VF_ASSERT(vf_g.frees == 1, "C01.get: the block of the consumed expectation is not released exactly once");
  VF_ASSERT(vf_mf.expectedCall == E && vf_mf.actualCall == idx + 1, "C02.get: a counter changed");
  vf_other_same();
  vf_inv();
}
/* nothing pending: refused, nothing changes */
void h_get_empty(void)
{
  vf_setup();
  for(unsigned i = 0; i < N; i++) VF_ASSUME(vf_mf.mockedData[i] == NULL);
  unsigned E = vf_mf.expectedCall, A = vf_mf.actualCall;
  vf_u8 v = vf_nd8();
  unsigned char *out = vf_block(TOK_OUT, v);
  vf_snapshot();
  VF_COVER(vf_mf.dataSize > 0 && A == 5, "get_empty");
  easyMock_bool r = MockedFunction_getCurrentCallParam(&vf_mf, out);
  VF_ASSERT(r == 0, "C01.get_empty: data is handed out although nothing is pending");
  VF_ASSERT(vf_holds(out, v), "C01.get_empty: the caller's buffer is written although nothing is pending");
  VF_ASSERT(vf_mf.expectedCall == E && vf_mf.actualCall == A, "C02.get_empty: a counter changed");
  vf_other_same();
}
void h_name(void)
{
  vf_setup(); vf_snapshot();
  VF_COVER(1, "name");
  VF_ASSERT(MockedFunction_getName(&vf_mf) == vf_mf.name, "C02.name: wrong name");
  vf_check_frame();
}
void h_nb(void)
{
  vf_setup(); vf_snapshot();
  VF_COVER(1, "nb");
  VF_ASSERT(MockedFunction_getNbActualCall(&vf_mf) == vf_mf.actualCall, "C02.nb: wrong number of calls");
  vf_check_frame();
}
void h_verify(void)
{
  vf_setup(); vf_real_o(); vf_snapshot();
  VF_COVER(vf_mf.expectedCall == vf_mf.actualCall && vf_mf.actualCall == 2, "verify: equal"); VF_COVER(vf_mf.expectedCall > vf_mf.actualCall, "verify: too few");
  VF_COVER(vf_mf.expectedCall < vf_mf.actualCall, "verify: too many");
  unsigned E = vf_mf.expectedCall, A = vf_mf.actualCall;
  easyMock_bool r = MockedFunction_verify(&vf_mf);
  VF_ASSERT((r != 0) == (E == A), "C02.verify: the verdict is not 'as many calls as expectations'");
  VF_ASSERT(vf_g.errors == (E == A ? 0u : 1u), "C02.verify: the number of recorded errors is wrong");
#ifndef VF_NOVA
  if(E != A)
  {
    VF_ASSERT(vf_g.err_strs == 1 && vf_g.err_name == vf_mf.name, "C02.verify: the error does not name the function");
    VF_ASSERT(vf_g.err_ints == 2 && vf_g.err_int[0] == E && vf_g.err_int[1] == A, "C02.verify: the error does not report the expected and the actual number");
  }
#endif
  VF_ASSERT(vf_mf.expectedCall == E && vf_mf.actualCall == A, "C02.verify: verification changes a counter");
  vf_other_same();
}
void h_reset(void)
{
  vf_setup();
  unsigned occupied = 0;
  for(unsigned i = 0; i < N; i++) if(vf_mf.mockedData[i]) occupied++;
  vf_g.watch_o = vf_mf.mockedData[vf_o];
  vf_snapshot();
  vf_u8 had = vf_mf.mockedData[vf_o] != NULL;
  VF_COVER(had && vf_o == N - 1, "reset: last slot"); VF_COVER(had && vf_o < vf_mf.actualCall, "reset: skipped expectation"); VF_COVER(occupied == N, "reset: all slots");
  MockedFunction_reset(&vf_mf);
  VF_ASSERT(vf_mf.expectedCall == 0 && vf_mf.actualCall == 0, "C03.reset: a count is not zero");
  VF_ASSERT(vf_mf.mockedData[vf_o] == NULL, "C03.reset: an expectation is still pending");
  VF_ASSERT(vf_g.freed_o == had, "C03.reset: a block is not released exactly once");
  VF_ASSERT(vf_g.frees == occupied && vf_g.mallocs == 0, "C03.reset: the blocks released are not exactly the blocks held");
  VF_ASSERT(vf_mf.name == vf_s.name && vf_mf.dataSize == vf_s.dataSize, "C03.reset: name or data size changed");
  VF_ASSERT(vf_g.errors == 0, "C03.reset: an error is reported");
}
void h_reset_twice(void)
{
  vf_begin();
  for(unsigned i = 0; i < N; i++) vf_mf.mockedData[i] = NULL;
  vf_o = vf_nd32(); VF_ASSUME(vf_o < N);
  vf_mf.name = vf_name; vf_mf.dataSize = vf_nd32();
  vf_snapshot();
  VF_COVER(1, "reset_twice");
  MockedFunction_reset(&vf_mf);
  MockedFunction_reset(&vf_mf);
  VF_ASSERT(vf_mf.mockedData[vf_o] == NULL && vf_mf.expectedCall == 0 && vf_mf.actualCall == 0, "C03.reset: a repeated reset disturbs a pristine mock");
  VF_ASSERT(vf_g.frees == 0, "C03.reset: a repeated reset releases memory");
}

/* ---- bounded histories over two mocks against the abstract queue (bodies, not contracts) --------------------------------- */
#ifndef HOPS
#define HOPS 5
#endif
static MockedFunction vf_m[2];
void h_history(void)
{
  vf_begin();
  unsigned q[2][N], e[2] = {0, 0}, a[2] = {0, 0};
  MockedFunction_init(&vf_m[0], "f", 4); MockedFunction_init(&vf_m[1], "g", 4);
  VF_COVER(1, "history");
  for(unsigned k = 0; k < HOPS; k++)
  {
    vf_u8 m = vf_ndbool(); vf_u8 op = vf_nd8();
    if(op == 0)
    {
      if(e[m] == N) continue;
      unsigned v = vf_nd32();
      MockedFunction_addExpectedCall(&vf_m[m], &v);
      q[m][e[m]++] = v;
    }
    else if(op == 1)
    {
      easyMock_bool r = MockedFunction_addActualCall(&vf_m[m]);
      vf_u8 ok = a[m] < e[m];
      VF_ASSERT((r != 0) == ok, "C01.history: acceptance of a call");
      if(r != 0 && ok)
      {
        unsigned out = 0;
        VF_ASSERT(MockedFunction_getCurrentCallParam(&vf_m[m], &out) != 0, "C01.history: an accepted call gets no data");
        VF_ASSERT(out == q[m][a[m]], "C01.history: a call gets the data of another expectation");
      }
      a[m]++;
    }
    else if(op == 2)
    {
      MockedFunction_reset(&vf_m[m]);
      e[m] = a[m] = 0;
    }
    else
    {
      unsigned before = vf_g.errors;
      easyMock_bool r = MockedFunction_verify(&vf_m[m]);
      VF_ASSERT((r != 0) == (e[m] == a[m]), "C02.history: verdict");
      VF_ASSERT(vf_g.errors == before + (e[m] != a[m]), "C02.history: errors");
    }
  }
}
