/* Assumed contracts of the mock runtime as seen by generated C code (proved for the real runtime by C01-C04, C07-C11).
 * One expectation record per phase: the n-th accepted call is handed the bytes of the n-th expectation (C01). */
#include "vf.h"
#include <MockedFunction.h>
#include <easyMock_framework.h>
#include <easyMock.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#ifndef VF_NATIVE
/* goto-cc does not know constructor priorities; the attribute itself is honoured */
#define constructor(prio_) constructor
#endif
#ifndef VF_PROP
#define VF_PROP 0
#endif
#define PY(c, msg) VF_ASSERT(c, msg)
#define PN(c, msg) do { } while(0)
#if VF_PROP == 12 || VF_PROP == 0
#define P12(c, msg) PY(c, "C12." msg)
#else
#define P12 PN
#endif
#if VF_PROP == 13 || VF_PROP == 0
#define P13(c, msg) PY(c, "C13." msg)
#else
#define P13 PN
#endif
#if VF_PROP == 14 || VF_PROP == 0
#define P14(c, msg) PY(c, "C14." msg)
#else
#define P14 PN
#endif
#if VF_PROP == 15 || VF_PROP == 0
#define P15(c, msg) PY(c, "C15." msg)
#else
#define P15 PN
#endif
#if VF_PROP == 17 || VF_PROP == 0
#define P17(c, msg) PY(c, "C17." msg)
#else
#define P17 PN
#endif

#define VF_MF 40
#define VF_REC 320
#define VF_PAR 24
static struct {
  unsigned n_init, n_reg, n_unreg; MockedFunction *mf[VF_MF]; const easyMock_mockedFileRegister_t *reg, *unreg;
  unsigned n_reset[VF_MF], n_verify[VF_MF]; vf_u8 verdict[VF_MF];
  vf_u8 order, callstack, accept; 
  unsigned n_exp, n_add, n_act, n_get, n_pop, n_err, n_free;
  MockedFunction *exp_mf, *act_mf, *get_mf; const char *add_name;
  unsigned cur, nb, popsel;
  /* classification of the recorded errors */
  unsigned e_mismatch[VF_PAR], e_order, e_other, e_unexp;
  vf_u8 err[VF_PAR]; unsigned called[VF_PAR];
  vf_u8 in_match;
} vf_rt;
static void *vf_rec[2][VF_REC / sizeof(void *)];
static const char *vf_own;   /* name of the mock under scrutiny, as given to the runtime */
static char vf_popname[400];

/* b is a literal or the name of the mock */
static int vf_streq(const char *a, const char *b) { unsigned i = 0; while(b[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static unsigned vf_ownlen;
static int vf_eqpop(const char *a);
static int vf_contains(const char *a, const char *b)
{
  for(unsigned i = 0; ; i++)
  {
    unsigned k = 0;
    while(b[k] && a[i + k] == b[k]) k++;
    if(!b[k]) return 1;
    if(!a[i]) return 0;
  }
}
static void vf_cp(void *d, const void *s, unsigned n)
{
#ifdef VF_NATIVE
  memcpy(d, s, n);
#else
  VF_ASSERT(n <= VF_REC && (n % sizeof(void *) == 0 || n <= 24), "C12.C13.C14.C15.C17 more is copied than any object of the file holds");
  VF_ASSUME(n <= VF_REC && (n % sizeof(void *) == 0 || n <= 24));
  if(n % sizeof(void *) == 0) for(unsigned i = 0; i < n / sizeof(void *); i++) ((void **)d)[i] = ((void *const *)s)[i];
  else for(unsigned i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
#endif
}
static unsigned vf_idx(MockedFunction *mf)
{
  for(unsigned i = 0; i < vf_rt.n_init; i++) if(vf_rt.mf[i] == mf) return i;
  VF_ASSERT(0, "wiring: the runtime is given a mock that was never initialised");
  VF_ASSUME(0);
  return 0;
}
void MockedFunction_init(MockedFunction *mf, const char *name, easyMock_size_t dataSize)
{
  P17(vf_rt.n_init < VF_MF, "init: too many mocks");
  for(unsigned i = 0; i < vf_rt.n_init; i++)
  {
    P17(vf_rt.mf[i] != mf, "init: a mock is initialised twice");
    P17(!vf_streq(vf_rt.mf[i]->name, name), "init: two mocks have the same name");
  }
  mf->name = name; mf->dataSize = dataSize; mf->expectedCall = 0; mf->actualCall = 0;
  vf_rt.mf[vf_rt.n_init++] = mf;
}
void MockedFunction_addExpectedCall(MockedFunction *mf, const void *data)
{
  P12(mf->dataSize <= VF_REC, "rec: record size");
#ifndef VF_NATIVE
  P12(mf->dataSize == 0 || __CPROVER_r_ok(data, mf->dataSize), "rec: the record is smaller than declared");
#endif
  vf_rt.exp_mf = mf;
  if(vf_rt.n_exp < 2) vf_cp(vf_rec[vf_rt.n_exp], data, mf->dataSize);
  vf_rt.n_exp++;
}
easyMock_bool MockedFunction_addActualCall(MockedFunction *mf) { vf_rt.act_mf = mf; vf_rt.n_act++; return vf_rt.accept; }
easyMock_bool MockedFunction_getCurrentCallParam(MockedFunction *mf, void *data)
{
  vf_rt.get_mf = mf; vf_rt.n_get++;
#ifndef VF_NATIVE
  P12(mf->dataSize == 0 || __CPROVER_w_ok(data, mf->dataSize), "rec: the record is smaller than declared");
#endif
  if(!vf_rt.accept) return 0;
  vf_cp(data, vf_rec[vf_rt.cur], mf->dataSize);
  return 1;
}
unsigned int MockedFunction_getNbActualCall(MockedFunction *mf) { (void)mf; return vf_rt.nb; }
const char *MockedFunction_getName(MockedFunction *mf) { return mf->name; }
void MockedFunction_reset(MockedFunction *mf) { vf_rt.n_reset[vf_idx(mf)]++; }
easyMock_bool MockedFunction_verify(MockedFunction *mf) { unsigned i = vf_idx(mf); vf_rt.n_verify[i]++; return vf_rt.verdict[i]; }
void easyMock_registerMockedFile(const easyMock_mockedFileRegister_t *a) { vf_rt.n_reg++; vf_rt.reg = a; }
void easyMock_unregisterMockedFile(const easyMock_mockedFileRegister_t *a) { vf_rt.n_unreg++; vf_rt.unreg = a; }
void easyMock_addCall(const char *call) { vf_rt.n_add++; vf_rt.add_name = call; }
easyMock_bool easyMock_checkCallsOrder(void) { return vf_rt.order; }
easyMock_bool easyMock_printCallStack(void) { return vf_rt.callstack; }
void *easyMock_memcpy(void *d, const void *s, easyMock_size_t n) { vf_cp(d, s, n); return d; }

/* the consumed entry of the global order: this function's own name, or another one */
cstring easyMock_popCurrentCall(void)
{
  cstring rv;
  vf_rt.n_pop++;
  rv.heap = NULL;
#ifdef VF_NATIVE
  snprintf(rv.stack, sizeof rv.stack, "%s", vf_popname);
#else
  rv.heap = vf_popname;
#endif
  return rv;
}
/* contracts of cstring.c (proved by C07) */
const char *cstring_c_str(const cstring *s) { return s->heap ? s->heap : s->stack; }
int cstring_compare_const_char(const cstring *s, const char *o)
{
  const char *c = cstring_c_str(s);
  unsigned i = 0;
  while(o[i] && c[i] == o[i]) i++;
  return (int)(unsigned char)c[i] - (int)(unsigned char)o[i];
}
int cstring_compare_const_cstring(const cstring *s, const cstring *o) { return cstring_compare_const_char(s, cstring_c_str(o)); }
void cstring_free(cstring *s) { (void)s; vf_rt.n_free++; }
#ifndef VF_OWN_CSTRING
cstring cstring_new(void) { cstring rv; rv.stack[0] = 0; rv.heap = NULL; return rv; }
cstring cstring_new_init(const char *v) { cstring rv; rv.stack[0] = 0; rv.heap = (char *)v; return rv; }
void cstring_append(cstring *s, const char *v) { (void)s; (void)v; }
easyMock_size_t cstring_length(const cstring *s) { return (easyMock_size_t)strlen(cstring_c_str(s)); }
#endif

void easyMock_addError(easyMock_bool callstack, const char *fmt, ...)
{
  vf_u8 own = 0, popped = 0, nb = 0; int mism = -1; unsigned strs = 0;
  va_list ap;
  (void)callstack;
  vf_rt.n_err++;
  va_start(ap, fmt);
  for(unsigned i = 0; fmt[i] != 0; i++)
  {
    if(fmt[i] != '%') continue;
    i++;
    if(fmt[i] == '%') continue;
    if(fmt[i] == 's')
    {
      const char *s = va_arg(ap, const char *);
      strs++;
      if(s[0] == '\1' && s[1] > 0 && s[1] <= VF_PAR && s[2] == 0) mism = s[1] - 1;
      else if(vf_streq(s, vf_own)) { if(own) popped = 1; own = 1; }
      else if(vf_eqpop(s)) popped = 1;
    }
    else if(fmt[i] == 'd' || fmt[i] == 'u' || fmt[i] == 'i') { if(va_arg(ap, unsigned) == vf_rt.nb) nb = 1; }
    else VF_ASSERT(0, "unexpected conversion in the error format");
  }
  va_end(ap);
  P12(vf_rt.accept || own, "err: the error of an unexpected call does not name the function");
  if(mism >= 0)
  {
    P13(own, "err: the mismatch error does not name the function");
    P13(nb, "err: the mismatch error does not carry the call number");
    P13(vf_rt.err[mism] && vf_rt.called[mism], "err: a mismatch is reported that no comparator reported");
    vf_rt.e_mismatch[mism]++;
  }
  else if(own && popped) vf_rt.e_order++;
  else vf_rt.e_other++;
}
/* name handed back by the global order */
static void vf_set_pop(void)
{
  unsigned l = 0;
  for(unsigned i = 0; vf_own[i]; i++) { vf_popname[i] = vf_own[i]; l = i + 1; }
  vf_ownlen = l;
  vf_popname[l] = 0;
  if(vf_rt.popsel == 1) { vf_popname[l] = 'x'; vf_popname[l + 1] = 0; }
  else if(vf_rt.popsel == 2) { vf_popname[0] = 'N'; vf_popname[1] = 0; }
  else if(vf_rt.popsel == 3) vf_popname[l - 1] = 0;
}
#ifdef VF_NATIVE
#define VF_MINE() (vf_rt.popsel == 0)
#else
#define VF_MINE() (vf_rt.popsel == 0)
#endif

static int vf_eqpop(const char *a)
{
  for(unsigned i = 0; i < vf_ownlen + 2; i++) { if(a[i] != vf_popname[i]) return 0; if(!a[i]) return 1; }
  return 0;
}
