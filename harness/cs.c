/* Contracts of the dynamic string (cstring.c), attached to the unmodified source included below.
 *
 * Abstract value of a cstring: the characters of c_str() up to the first NUL; the content is at `stack` when heap is NULL, else in the
 * block `heap`, owned by the cstring. The C library functions are used by contract (VF_ABS): memory is real, but a string function
 * only establishes the bytes at the witness position vf_w, at the terminator and at offset 0 of what it writes; since vf_w is
 * arbitrary this decides every byte for strings of every length. Without VF_ABS the same harness runs on byte-precise C library
 * models (small capacities, bounded).
 */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <cstring.h>

#ifndef MAXL
#define MAXL 0x40000000ull
#endif
#define CAP CSTRING_MAX_STACK_SIZE

static struct { vf_u8 exit_ok, fail_alloc; unsigned mallocs, frees, reallocs; } vf_g;
static size_t vf_l1, vf_l2, vf_w, vf_w2;
static cstring vf_s, vf_t;
static char *vf_piece;
#ifndef VF_NATIVE
cstring nondet_vf_cstring(void);
#endif

void vf_exit(int status)
{
  VF_ASSERT(vf_g.exit_ok, "C07.exit: an operation on strings ended the process");
  VF_ASSERT(status != 0, "C07.exit: the process ends with a success status");
#ifdef VF_NATIVE
  fflush(stdout); _Exit(vf_fails);
#else
  __CPROVER_assume(0);
  while(1);
#endif
}
#ifdef VF_ABS
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
/* ghost: for each of the three strings, where it starts and the position of its first NUL (or unknown) */
enum { R_A, R_B, R_NEW, R_X, R_N };   /* R_X: a string object of the code itself, registered when first used */
static struct { const char *p[R_N]; size_t len[R_N]; vf_u8 known[R_N]; } vf_r;
static int vf_cmp_v; static size_t vf_diff;
static unsigned vf_region(const void *p)
{
  if(vf_r.p[R_NEW] && __CPROVER_same_object(p, vf_r.p[R_NEW])) return R_NEW;
  if(vf_r.p[R_A] && __CPROVER_same_object(p, vf_r.p[R_A])) return R_A;
  if(vf_r.p[R_B] && __CPROVER_same_object(p, vf_r.p[R_B])) return R_B;
  if(vf_r.p[R_X] && __CPROVER_same_object(p, vf_r.p[R_X])) return R_X;
  return R_N;
}
#define OFF(ptr_, r_) ((size_t)(__CPROVER_POINTER_OFFSET(ptr_) - __CPROVER_POINTER_OFFSET(vf_r.p[r_])))
static unsigned vf_region_reg(const void *p)
{
  unsigned r = vf_region(p);
  if(r < R_N || vf_r.p[R_X]) return r;
  vf_r.p[R_X] = p; vf_r.known[R_X] = 0;
  return R_X;
}
/* strlen: position of the first NUL at or after p */
static size_t vf_strlen_any(const char *p)
{
  VF_ASSERT(__CPROVER_r_ok(p, 1), "C07.mem: a string function reads through an invalid pointer");
  unsigned r = vf_region_reg(p);
  if(*p == 0)
  {
    if(r < R_N) { vf_r.known[r] = 1; vf_r.len[r] = OFF(p, r); }
    return 0;
  }
  if(r < R_N)
  {
    size_t o = OFF(p, r);
    if(vf_r.known[r] && o <= vf_r.len[r] && __CPROVER_r_ok(p, vf_r.len[r] - o + 1) && vf_r.p[r][vf_r.len[r]] == 0) return vf_r.len[r] - o;
    if(o <= vf_l1 && __CPROVER_r_ok(p, vf_l1 - o + 1) && vf_r.p[r][vf_l1] == 0) return vf_l1 - o;
    if(o <= vf_l1 + vf_l2 && __CPROVER_r_ok(p, vf_l1 + vf_l2 - o + 1) && vf_r.p[r][vf_l1 + vf_l2] == 0) return vf_l1 + vf_l2 - o;
  }
  VF_ASSERT(0, "C07.mem: a string function is given an unterminated string");
  __CPROVER_assume(0);
  return 0;
}
size_t vf_strlen(const char *p) { return vf_strlen_any(p); }
size_t vf_strnlen(const char *p, size_t n) { if(n == 0) return 0; size_t l = vf_strlen_any(p); return l < n ? l : n; }
/* copies n bytes; establishes the witness, the first, the last byte and the known terminator */
static void vf_copy(char *d, const char *s, size_t n)
{
  if(n == 0) return;
  VF_ASSERT(__CPROVER_w_ok(d, n), "C07.mem: copy beyond the end of the destination");
  VF_ASSERT(__CPROVER_r_ok(s, n), "C07.mem: copy beyond the end of the source");
  VF_ASSERT(!__CPROVER_same_object(d, s) || d + n <= s || s + n <= d, "C07.mem: overlapping copy");
  unsigned r = vf_region_reg(d), q = vf_region(s);
  if(r < R_N)
  {
    size_t o = OFF(d, r);
    size_t sl = (size_t)-1;
    if(q < R_N && vf_r.known[q] && OFF(s, q) <= vf_r.len[q]) sl = vf_r.len[q] - OFF(s, q);
    /* where the first NUL of the destination is after the copy */
    if(vf_r.known[r] && vf_r.len[r] < o) { }
    else if(sl < n) { vf_r.known[r] = 1; vf_r.len[r] = o + sl; }
    else if(vf_r.known[r] && vf_r.len[r] >= o + n) { }
    else vf_r.known[r] = 0;
    if(vf_w >= o && vf_w - o < n) { char c = s[vf_w - o]; d[vf_w - o] = c; }
    if(vf_w2 >= o && vf_w2 - o < n) d[vf_w2 - o] = s[vf_w2 - o];
    if(sl < n) d[sl] = 0;
  }
  d[0] = s[0]; d[n - 1] = s[n - 1];
}
void *vf_memcpy(void *d, const void *s, size_t n) { vf_copy(d, s, n); return d; }
void *vf_memmove(void *d, const void *s, size_t n) { vf_copy(d, s, n); return d; }
char *vf_strcpy(char *d, const char *s) { vf_copy(d, s, vf_strlen_any(s) + 1); return d; }
char *vf_strcat(char *d, const char *s) { vf_copy(d + vf_strlen_any(d), s, vf_strlen_any(s) + 1); return d; }
char *vf_strncat(char *d, const char *s, size_t n)
{
  size_t dl = vf_strlen_any(d), sl = vf_strlen_any(s);
  if(n < sl) sl = n;
  VF_ASSERT(__CPROVER_w_ok(d, dl + sl + 1), "C07.mem: copy beyond the end of the destination");
  vf_copy(d + dl, s, sl);
  d[dl + sl] = 0;
  unsigned r = vf_region(d);
  if(r < R_N) { vf_r.known[r] = 1; vf_r.len[r] = OFF(d, r) + dl + sl; }
  return d;
}
char *vf_strncpy(char *d, const char *s, size_t n)
{
  size_t sl = vf_strlen_any(s);
  VF_ASSERT(__CPROVER_w_ok(d, n), "C07.mem: copy beyond the end of the destination");
  vf_copy(d, s, sl + 1 < n ? sl + 1 : n);
  return d;   /* the padding beyond the terminator is left arbitrary */
}
static int vf_cmp(const char *a, const char *b, size_t n)
{
  unsigned ra = vf_region(a), rb = vf_region(b);
  VF_ASSERT(ra < R_N && rb < R_N && OFF(a, ra) == 0 && OFF(b, rb) == 0, "C07.cmp: comparison of something else than the two contents");
  if(ra == rb || vf_diff >= n) return 0;
  return ra == R_A ? vf_cmp_v : -vf_cmp_v;
}
int vf_strcmp(const char *a, const char *b) { return vf_cmp(a, b, (size_t)-1); }
int vf_strncmp(const char *a, const char *b, size_t n) { return vf_cmp(a, b, n); }
int vf_memcmp(const void *a, const void *b, size_t n)
{
  VF_ASSERT(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "C07.mem: comparison beyond the end of a string");
  return vf_cmp(a, b, n);
}
#endif
/* bounded mode: objects of constant size, one per possible size */
static void *vf_block(size_t n)
{
#if !defined(VF_ABS) && !defined(VF_NATIVE)
  for(size_t k = 1; k <= 2 * MAXL + 2; k++) if(n == k) return malloc(k);
  VF_ASSERT(0, "C07.mem: a block larger than needed for the content");
  return NULL;
#else
  return malloc(n);
#endif
}
void *vf_malloc(size_t n)
{
  vf_g.mallocs++;
  if(vf_g.fail_alloc) return NULL;
  void *p = vf_block(n);
  VF_ASSUME(p != NULL);
#ifdef VF_ABS
  vf_r.p[R_NEW] = p; vf_r.known[R_NEW] = 0;
#endif
  return p;
}
void *vf_calloc(size_t n, size_t m) { char *p = vf_malloc(n * m); if(p && n * m) { p[0] = 0;
#ifdef VF_ABS
  vf_r.known[R_NEW] = 1; vf_r.len[R_NEW] = 0;
#else
  memset(p, 0, n * m);
#endif
  } return p; }
void vf_free(void *p) { if(p) { VF_ASSERT(p == vf_s.heap || p == vf_t.heap || vf_g.mallocs || vf_g.reallocs, "C07.mem: something else than the own heap block is released"); vf_g.frees++; free(p); } }
void *vf_realloc(void *old, size_t n)
{
  if(old == NULL) return vf_malloc(n);
  vf_g.reallocs++;
  if(vf_g.fail_alloc) return NULL;
#ifdef VF_ABS
  VF_ASSERT(__CPROVER_DYNAMIC_OBJECT(old) && __CPROVER_POINTER_OFFSET(old) == 0, "C07.mem: realloc of something else than the own heap block");
  unsigned q = vf_region(old);
  size_t olen = __CPROVER_OBJECT_SIZE(old);
  char *p = malloc(n);
  VF_ASSUME(p != NULL && n > 0);
  char *o = old;
  size_t m = olen < n ? olen : n;
  vf_r.p[R_NEW] = p;
  vf_r.known[R_NEW] = q < R_N && vf_r.known[q] && vf_r.len[q] < m; vf_r.len[R_NEW] = q < R_N ? vf_r.len[q] : 0;
  if(m > 0) { p[0] = o[0]; p[m - 1] = o[m - 1]; if(vf_w < m) p[vf_w] = o[vf_w]; if(vf_w2 < m) p[vf_w2] = o[vf_w2]; if(vf_r.known[R_NEW]) p[vf_r.len[R_NEW]] = 0; }
  free(old);
  return p;
#else
  void *p = realloc(old, n);
  VF_ASSUME(p != NULL);
  return p;
#endif
}

#ifdef VF_ABS
#pragma CPROVER check pop
#endif
#if !defined(VF_ABS) && !defined(VF_NATIVE)
/* byte-precise model (the built-in one is imprecise on local structs with a symbolic length) */
static void *vf_memcpy(void *d, const void *s, size_t n) { for(size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#define memcpy vf_memcpy
#define memmove vf_memcpy
#endif
#define exit vf_exit
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#ifdef VF_ABS
#define strlen vf_strlen
#define strnlen vf_strnlen
#define memcpy vf_memcpy
#define memmove vf_memmove
#define strcpy vf_strcpy
#define strcat vf_strcat
#define strncat vf_strncat
#define strncpy vf_strncpy
#define strcmp vf_strcmp
#define strncmp vf_strncmp
#define memcmp vf_memcmp
#endif
#include VF_SOURCE
#undef exit
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strlen
#undef strnlen
#undef memcpy
#undef memmove
#undef strcpy
#undef strcat
#undef strncat
#undef strncpy
#undef strcmp
#undef strncmp
#undef memcmp

/* ---- arbitrary valid strings -------------------------------------------------------------------------------------------- */
static void vf_begin(void)
{
  memset(&vf_g, 0, sizeof vf_g);
#ifdef VF_ABS
  memset(&vf_r, 0, sizeof vf_r);
#endif
#ifndef VF_NATIVE
  vf_s = nondet_vf_cstring(); vf_t = nondet_vf_cstring();
#endif
  vf_s.heap = NULL; vf_t.heap = NULL;
}
/* fills a string of length l: byte-precise in bounded mode and natively, lazily (arbitrary memory) in abstract mode */
static void vf_fill(char *b, size_t l)
{
#if defined(VF_NATIVE) && defined(VF_N_ABS)
  for(size_t i = 0; i < l; i++) b[i] = (char)('a' + i % 23);
#elif !defined(VF_ABS)
  for(size_t i = 0; i < l; i++) { b[i] = (char)vf_nd8(); VF_ASSUME(b[i] != 0); }
#endif
  b[l] = 0;
}
static char *vf_put(cstring *s, size_t l)
{
  vf_u8 on_heap = vf_ndbool();
#ifdef VF_HEAP
  VF_ASSUME(on_heap == VF_HEAP);
#endif
  char *b;
#ifdef VF_HEAP
  VF_ASSUME(on_heap || l < CAP);
#endif
  if(on_heap || l >= CAP)
  {
    b = vf_block(l + 1);
    VF_ASSUME(b != NULL);
    s->heap = b;
  }
  else { s->heap = NULL; b = s->stack; }
  vf_fill(b, l);
  return b;
}
static size_t vf_len(void) { size_t l = vf_nd64(); VF_ASSUME(l <= MAXL); return l; }
/* an arbitrary cstring of length l1 and an arbitrary piece of length l2 */
static void vf_setup_append(vf_u8 with_s)
{
  vf_begin();
  vf_l1 = with_s ? vf_len() : 0; vf_l2 = vf_len();
  vf_w = vf_nd64(); vf_w2 = vf_nd64();
  vf_piece = vf_block(vf_l2 + 1);
  VF_ASSUME(vf_piece != NULL);
  vf_fill(vf_piece, vf_l2);
  char *b = NULL;
  if(with_s) b = vf_put(&vf_s, vf_l1);
#ifdef VF_ABS
  VF_ASSUME(vf_w < vf_l1 ? b[vf_w] != 0 : (vf_w >= vf_l1 + vf_l2 || vf_piece[vf_w - vf_l1] != 0));
  VF_ASSUME(vf_w2 >= vf_l2 || vf_piece[vf_w2] != 0);
  VF_ASSUME(vf_l1 == 0 || b[0] != 0); VF_ASSUME(vf_l2 == 0 || vf_piece[0] != 0);
  vf_r.p[R_A] = b; vf_r.len[R_A] = vf_l1; vf_r.known[R_A] = with_s;
  vf_r.p[R_B] = vf_piece; vf_r.len[R_B] = vf_l2; vf_r.known[R_B] = 1;
#endif
}
static void vf_check_whole(cstring *s, size_t total, char c, char c2)
{
  if(s->heap == NULL) VF_ASSERT(total < CAP, "C07.append: the content does not fit the inline buffer");
#ifndef VF_NATIVE
  else VF_ASSERT(__CPROVER_DYNAMIC_OBJECT(s->heap) && __CPROVER_POINTER_OFFSET(s->heap) == 0 && __CPROVER_rw_ok(s->heap, total + 1), "C07.append: the heap block does not hold the content");
#endif
  const char *r = s->heap ? s->heap : s->stack;
  if(vf_w < total) VF_ASSERT(r[vf_w] == c, "C07.append: a character of the result is not that of the concatenation");
#ifdef VF_NATIVE
  if(strlen(r) != total) VF_ASSERT(0, "C07.append: a character of the result is not that of the concatenation");
  for(size_t i = vf_l1; i < total && i < strlen(r); i++) if(r[i] != vf_piece[i - vf_l1]) { VF_ASSERT(0, "C07.append: a character of the result is not that of the concatenation"); break; }
#endif
  VF_ASSERT(r[total] == 0, "C07.append: the result is not terminated after the concatenation");
  VF_ASSERT(vf_w2 >= vf_l2 || vf_piece[vf_w2] == c2, "C07.append: the appended string is modified");
  VF_ASSERT(vf_piece[vf_l2] == 0, "C07.append: the appended string is modified");
}
#ifndef VF_NATIVE
void cstring_append(cstring *s, const char *strToAppend)
__CPROVER_requires(__CPROVER_rw_ok(s, sizeof(*s)))
__CPROVER_assigns(__CPROVER_object_whole(s), __CPROVER_object_whole(&vf_g))
__CPROVER_assigns(s->heap != NULL: __CPROVER_object_whole(s->heap))
#ifdef VF_ABS
__CPROVER_assigns(__CPROVER_object_whole(&vf_r))
#endif
__CPROVER_frees(s->heap)
;
easyMock_size_t cstring_length(const cstring *s)
__CPROVER_requires(__CPROVER_r_ok(s, sizeof(*s)))
#ifdef VF_ABS
__CPROVER_assigns(__CPROVER_object_whole(&vf_r)) /* ghost only */
#else
__CPROVER_assigns()
#endif
__CPROVER_frees()
;
void cstring_free(cstring *s)
__CPROVER_requires(__CPROVER_rw_ok(s, sizeof(*s)))
__CPROVER_assigns(s->heap, __CPROVER_object_whole(&vf_g)) __CPROVER_frees(s->heap)
__CPROVER_ensures(s->heap == NULL)
;
#endif
void h_append(void)
{
  vf_setup_append(1);
  vf_u8 was_heap = vf_s.heap != NULL;
  vf_g.fail_alloc = vf_ndbool(); vf_g.exit_ok = vf_g.fail_alloc;
  size_t total = vf_l1 + vf_l2;
#if !defined(VF_HEAP) || VF_HEAP
  VF_COVER(was_heap && vf_l2 > 3, "append: on the heap");
#endif
#if !defined(VF_HEAP) || !VF_HEAP
  VF_COVER(!was_heap && total < CAP && vf_l2 > 1 && vf_l1 > 1, "append: stays inline");
  VF_COVER(!was_heap && total >= CAP && vf_w == 2 && vf_l1 > 3, "append: moves to the heap"); VF_COVER(!was_heap && total == CAP, "append: one too long"); VF_COVER(!was_heap && total == CAP - 1, "append: just fits");
#endif
  char c = 0, c2 = 0;
  if(vf_w < vf_l1) c = vf_s.heap ? vf_s.heap[vf_w] : vf_s.stack[vf_w];
  else if(vf_w < total) c = vf_piece[vf_w - vf_l1];
  if(vf_w2 < vf_l2) c2 = vf_piece[vf_w2];
  cstring_append(&vf_s, vf_piece);
  vf_check_whole(&vf_s, total, c, c2);
  VF_ASSERT(vf_g.mallocs + vf_g.reallocs >= vf_g.frees, "C07.append: more blocks released than obtained");
  /* owns at most one block: every block obtained beyond the one it holds was released */
  VF_ASSERT(was_heap + vf_g.mallocs - vf_g.frees == (vf_s.heap != NULL), "C07.append: a heap block is lost");
}
void h_new_init(void)
{
  vf_setup_append(0);
  VF_COVER(vf_l2 == CAP, "new_init: heap"); VF_COVER(vf_l2 == CAP - 1, "new_init: inline");
  char c = 0, c2 = 0;
  if(vf_w < vf_l2) c = vf_piece[vf_w];
  if(vf_w2 < vf_l2) c2 = vf_piece[vf_w2];
#ifdef VF_ABS
  vf_r.p[R_A] = NULL;
#endif
  vf_s = cstring_new_init(vf_piece);
  vf_check_whole(&vf_s, vf_l2, c, c2);
  VF_ASSERT(vf_g.mallocs - vf_g.frees == (vf_s.heap != NULL), "C07.append: a heap block is lost");
}
void h_new(void)
{
  vf_begin();
  VF_COVER(1, "new");
  cstring s = cstring_new();
  VF_ASSERT(s.heap == NULL && s.stack[0] == 0, "C07.new: a new string is not empty");
  VF_ASSERT(vf_g.mallocs == 0, "C07.new: a new string owns a block");
}
void h_length(void)
{
  vf_begin();
  vf_l1 = vf_len(); vf_l2 = 0; vf_w = vf_nd64(); vf_w2 = (size_t)-1;
  char *b = vf_put(&vf_s, vf_l1);
#ifdef VF_ABS
  vf_r.p[R_A] = b; vf_r.len[R_A] = vf_l1; vf_r.known[R_A] = 1;
  VF_ASSUME(vf_l1 == 0 || b[0] != 0); VF_ASSUME(vf_w >= vf_l1 || b[vf_w] != 0);
#endif
  VF_COVER(vf_s.heap && vf_l1 == 3, "length: heap"); VF_COVER(!vf_s.heap && vf_l1 == CAP - 1, "length: inline full");
  char c = vf_w < vf_l1 ? b[vf_w] : 0;
  easyMock_size_t r = cstring_length(&vf_s);
  VF_ASSERT(r == vf_l1, "C07.length: wrong length");
  VF_ASSERT(b == (vf_s.heap ? vf_s.heap : vf_s.stack) && b[vf_l1] == 0 && (vf_w >= vf_l1 || b[vf_w] == c), "C07.length: measuring changes the string");
}
void h_c_str(void)
{
  vf_begin();
  vf_l1 = vf_len(); vf_l2 = 0; vf_w = vf_w2 = (size_t)-1;
  char *b = vf_put(&vf_s, vf_l1);
  VF_COVER(vf_s.heap, "c_str: heap"); VF_COVER(!vf_s.heap, "c_str: inline");
  VF_ASSERT(cstring_c_str(&vf_s) == b, "C07.c_str: not the content");
}
static int vf_sign(int v) { return (v > 0) - (v < 0); }
static void vf_cmp_setup(char **a, char **b, vf_u8 other_cstring)
{
  vf_begin();
  vf_l1 = vf_len(); vf_l2 = vf_len(); vf_w = vf_w2 = (size_t)-1;
  *a = vf_put(&vf_s, vf_l1);
  if(other_cstring) *b = vf_put(&vf_t, vf_l2);
  else { *b = vf_block(vf_l2 + 1); VF_ASSUME(*b != NULL); vf_fill(*b, vf_l2); }
#ifdef VF_ABS
  vf_r.p[R_A] = *a; vf_r.len[R_A] = vf_l1; vf_r.known[R_A] = 1; vf_r.p[R_B] = *b; vf_r.len[R_B] = vf_l2; vf_r.known[R_B] = 1;
  VF_ASSUME(vf_l1 == 0 || (*a)[0] != 0); VF_ASSUME(vf_l2 == 0 || (*b)[0] != 0);
  /* the first difference, at vf_diff, decides; equal strings have the same length and no difference */
  vf_cmp_v = (int)vf_nd32(); vf_diff = vf_nd64();
  VF_ASSUME(vf_cmp_v > -1000 && vf_cmp_v < 1000);
  if(vf_cmp_v == 0) { VF_ASSUME(vf_l1 == vf_l2); vf_diff = (size_t)-1; }
  else VF_ASSUME(vf_diff <= vf_l1 && vf_diff <= vf_l2 && (vf_l1 != vf_l2 || vf_diff < vf_l1) && (vf_l1 >= vf_l2 || vf_diff < vf_l1 || vf_cmp_v < 0) && (vf_l1 <= vf_l2 || vf_diff < vf_l2 || vf_cmp_v > 0));
  VF_ASSUME(vf_l1 == 0 || vf_l2 == 0 || ((*a)[0] == (*b)[0]) == (vf_diff > 0));
#elif defined(VF_NATIVE) && defined(VF_N_ABS)
  int v = (int)vf_nd32(); size_t df = vf_nd64();
  if(v && df < vf_l1 && df < vf_l2) { (*a)[df] = v < 0 ? 'A' : 'C'; (*b)[df] = 'B'; }
#endif
}
static int vf_expected(const char *a, const char *b)
{
#ifdef VF_ABS
  (void)a; (void)b;
  return vf_sign(vf_cmp_v);
#elif defined(VF_NATIVE)
  return vf_sign(strcmp(a, b));
#else
  size_t i = 0;
  while(a[i] && a[i] == b[i]) i++;
  return vf_sign((unsigned char)a[i] - (unsigned char)b[i]);
#endif
}
void h_cmp(void)
{
  char *a, *b;
  vf_cmp_setup(&a, &b, 0);
  VF_COVER(vf_expected(a, b) < 0 && vf_s.heap, "cmp: less"); VF_COVER(vf_expected(a, b) == 0 && vf_l1 > 2, "cmp: equal"); VF_COVER(vf_expected(a, b) > 0, "cmp: greater");
  int e = vf_expected(a, b);
  VF_ASSERT(vf_sign(cstring_compare_const_char(&vf_s, b)) == e, "C07.cmp: comparison differs from that of the contents");
}
void h_cmp_cs(void)
{
  char *a, *b;
  vf_cmp_setup(&a, &b, 1);
  VF_COVER(vf_expected(a, b) < 0 && vf_s.heap && !vf_t.heap, "cmp_cs: less"); VF_COVER(vf_expected(a, b) == 0 && !vf_s.heap && vf_t.heap, "cmp_cs: equal");
  int e = vf_expected(a, b);
  VF_ASSERT(vf_sign(cstring_compare_const_cstring(&vf_s, &vf_t)) == e, "C07.cmp: comparison differs from that of the contents");
}
void h_free(void)
{
  vf_begin();
  vf_l1 = vf_len(); vf_l2 = 0; vf_w = vf_w2 = (size_t)-1;
  vf_put(&vf_s, vf_l1);
  vf_u8 had = vf_s.heap != NULL;
  VF_COVER(had, "free: heap"); VF_COVER(!had, "free: inline");
  cstring_free(&vf_s);
  VF_ASSERT(vf_g.frees == had, "C07.free: the heap block is not released exactly once");
  VF_ASSERT(vf_s.heap == NULL, "C07.free: the released block is still referenced");
}
void h_free_twice(void)
{
  vf_begin();
  vf_l1 = vf_len(); vf_l2 = 0; vf_w = vf_w2 = (size_t)-1;
  vf_put(&vf_s, vf_l1);
  vf_u8 had = vf_s.heap != NULL;
  VF_COVER(had, "free_twice: heap");
  cstring_free(&vf_s);
  cstring_free(&vf_s);
  VF_ASSERT(vf_g.frees == had, "C07.free: the heap block is not released exactly once");
}
