from mkplant import *
MFC = 'easyMockFramework/src/MockedFunction.c'; MFH = 'easyMockFramework/include/MockedFunction.h'; CSC = 'easyMockFramework/src/cstring.c'
CT = 'easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp'
HDR = '#include <easyMock.h>\n#include <easyMock_framework.h>\n#include <MockedFunction.h>\n#include <cstring.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'
STUB = '#include <stdarg.h>\nstatic int errors;\nvoid easyMock_addError(easyMock_bool cs, const char *f, ...) { errors++; }\n'
def c_demo(src, flags='-fsanitize=address -g'):
    return RT + 'gcc %s -w -I"$FW/include" "$H/demo.c" "$FW/src/%s" -o "$T/demo" || exit 3\ncd "$T"; timeout 60 ./demo\n' % (flags, src)

add('s01_last_slot', 'C01', [(MFC, """static bool MockedFunction_isEmpty(MockedFunction* mf)
{
  unsigned int data_queue_idx;
  for(data_queue_idx = 0; data_queue_idx < ARRAY_SIZE(mf->mockedData); data_queue_idx++)""", """static bool MockedFunction_isEmpty(MockedFunction* mf)
{
  unsigned int data_queue_idx;
  for(data_queue_idx = 0; data_queue_idx < ARRAY_SIZE(mf->mockedData) - 1; data_queue_idx++)""")],
  c_demo('MockedFunction.c', ''), 'the queue filled to its capacity and then consumed to the last entry', 'the last of EASYMOCK_MAX_MOCKED_CALL expectations is never handed out',
  {'demo.c': HDR + STUB + '''int main(void) { static MockedFunction mf; MockedFunction_init(&mf, "f", sizeof(int));
for (int i = 0; i < EASYMOCK_MAX_MOCKED_CALL; i++) { int v = i + 7; MockedFunction_addExpectedCall(&mf, &v); }
for (int i = 0; i < EASYMOCK_MAX_MOCKED_CALL; i++) { int v = -1; if (!MockedFunction_addActualCall(&mf)) return 1; if (!MockedFunction_getCurrentCallParam(&mf, &v)) return 1; if (v != i + 7) return 1; }
return 0; }
'''})

add('s02_wrap', 'C02', [(MFC, """  if (mf->expectedCall != mf->actualCall)
  {""", """  if (mf->expectedCall != (mf->actualCall & 0xff))
  {""")] if 0 else [(MFH, open('/repo/src/'+MFH).read()[open('/repo/src/'+MFH).read().rindex('  unsigned int actualCall;'):][:len('  unsigned int actualCall;')], '')] if 0 else
  [(MFC, "  if ((mf->actualCall - 1) >= mf->expectedCall)", "  if ((unsigned char)(mf->actualCall - 1) >= mf->expectedCall)")],
  c_demo('MockedFunction.c', ''), 'more than 256 calls to one mock between two resets', 'call 257 of a mock is accepted although no expectation with that number exists',
  {'demo.c': HDR + STUB + '''int main(void) { static MockedFunction mf; MockedFunction_init(&mf, "f", sizeof(int)); int v = 3; MockedFunction_addExpectedCall(&mf, &v);
for (int i = 0; i < 600; i++) { int r = MockedFunction_addActualCall(&mf); if ((i == 0) != (r != 0)) return 1; }
return MockedFunction_getNbActualCall(&mf) != 600; }
'''})

add('s03_reset_holes', 'C03', [(MFC, """  mf->expectedCall = 0;
  mf->actualCall = 0;
  MockedFunction_emptyDataQueue(mf);
}""", """  if(mf->expectedCall != mf->actualCall)
  {
    MockedFunction_emptyDataQueue(mf);
  }
  mf->expectedCall = 0;
  mf->actualCall = 0;
}""")], c_demo('MockedFunction.c', ''), 'a call before the first expectation, so that the counts agree while a block is still queued', 'reset keeps the queued block: it leaks and the next expectation ends the process',
  {'demo.c': HDR + STUB + '''int main(void) { static MockedFunction mf; MockedFunction_init(&mf, "f", sizeof(int)); int v = 3;
MockedFunction_addActualCall(&mf); MockedFunction_addExpectedCall(&mf, &v);
MockedFunction_reset(&mf); v = 4; MockedFunction_addExpectedCall(&mf, &v); if (!MockedFunction_addActualCall(&mf)) return 1; MockedFunction_getCurrentCallParam(&mf, &v); return v != 4; }
'''})

add('s04_pending_capacity', 'C04', [(MFC, "  if(mf->expectedCall == EASYMOCK_MAX_MOCKED_CALL)", "  if(mf->expectedCall - mf->actualCall == EASYMOCK_MAX_MOCKED_CALL)")],
  c_demo('MockedFunction.c'), 'expectations and calls interleaved until more than the capacity has been recorded since the last reset', 'an expectation beyond the capacity writes outside the queue instead of ending the process',
  {'demo.c': HDR + STUB + '''#include <sys/wait.h>
#include <unistd.h>
int main(void) { int st; pid_t p = fork(); if (!p) { static MockedFunction mf; MockedFunction_init(&mf, "f", sizeof(int));
for (int i = 0; i < EASYMOCK_MAX_MOCKED_CALL + 4; i++) { int v = i; MockedFunction_addExpectedCall(&mf, &v); if (i % 2) { MockedFunction_addActualCall(&mf); MockedFunction_getCurrentCallParam(&mf, &v); } }
_exit(0); }
waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 1); }
'''})
# ASan itself exits with 1: make it distinguishable
s = open('/verif/seeded/s04_pending_capacity/demo.sh').read().replace('timeout 60 ./demo', 'ASAN_OPTIONS=exitcode=77 timeout 60 ./demo'); open('/verif/seeded/s04_pending_capacity/demo.sh', 'w').write(s)

add('s05_short_length', 'C07', [(CSC, "  size_t currentSize = cstring_length(s);", "  unsigned short currentSize = cstring_length(s);")], c_demo('cstring.c'), 'appending to a string of 64 KiB or more', 'the block is resized to less than the content needs: the append writes outside it',
  {'demo.c': HDR + '''int main(void) { char *b = malloc(70001); memset(b, 'x', 70000); b[70000] = 0; cstring s = cstring_new_init(b); cstring_append(&s, b); int r = cstring_length(&s) != 140000; cstring_free(&s); free(b); return r; }
'''})

H = 'int f(int a, int *b);\nint g(int x);\nvoid vp(void *buf, int n);\n'
add('s06_positive_matcher', 'C13', [(CT, '''errorMessage);" CARRIAGE_RETURN
        "        if(error)" CARRIAGE_RETURN''', '''errorMessage);" CARRIAGE_RETURN
        "        if(error < 0)" CARRIAGE_RETURN''')], gen_c('dm.h'), 'a user-written comparator that answers a positive value', 'a mismatch reported by a comparator with a positive value records no error',
  {'dm.h': H, 'demo.c': '''#include <easyMock_dm.h>
static int m(const void *c, const void *e, const char *n, char *msg) { return *(int*)c > *(int*)e ? 1 : *(int*)c < *(int*)e ? -1 : 0; }
int main(void) { easyMock_setPrintCallStack(0); easyMock_init(); g_ExpectAndReturn(3, 5, m); g(4); unsigned n; easyMock_getErrorArr(&n); return n != 1; }
'''})
add('s07_out_of_order_output', 'C14', [(CT, '''cstring_c_str(&currentCall));" CARRIAGE_RETURN
        "            return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN''', '''cstring_c_str(&currentCall));" CARRIAGE_RETURN''')], gen_c('dm.h'), 'a call out of order, with order checking on, of a function with a configured output', 'the output is delivered although the call is out of order',
  {'dm.h': H, 'demo.c': '''#include <easyMock_dm.h>
int main(void) { int x = 1, y = 9; easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(1); easyMock_init(); g_ExpectAndReturn(3, 5, 0); f_ExpectReturnAndOutput(1, 0, 5, 0, 0, &y); f(1, &x); unsigned n; easyMock_getErrorArr(&n); return n != 1 || x != 1; }
'''})
add('s08_out_size', 'C15', [(CT, '''        "    easyMock_size_t " PARAMETER_OUT_SIZE_VAR ";" CARRIAGE_RETURN
        TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
        TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
        "}"''', '''        "    unsigned short " PARAMETER_OUT_SIZE_VAR ";" CARRIAGE_RETURN
        TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
        TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
        "}"''')], gen_c('dm.h'), 'an output of 64 KiB or more through a void pointer', 'only the size modulo 65536 is copied to the output',
  {'dm.h': H, 'demo.c': '''#include <easyMock_dm.h>
#include <string.h>
static char a[70000], b[70000];
int main(void) { memset(a, 7, sizeof(a)); easyMock_setPrintCallStack(0); easyMock_init(); vp_ExpectReturnAndOutput(b, 1, 0, 0, a, sizeof(a)); vp(b, 1); return memcmp(a, b, sizeof(a)) != 0; }
'''})
add('s09_verify_early', 'C17', [(CT, '"        rv = easyMock_false;" CARRIAGE_RETURN', '"        return easyMock_false;" CARRIAGE_RETURN')], gen_c('dm.h'), 'two mocks of one header that both miss calls', 'only the first failing mock of a header is verified: the errors of the others are lost',
  {'dm.h': H, 'demo.c': '''#include <easyMock_dm.h>
int main(void) { easyMock_setPrintCallStack(0); easyMock_init(); f_ExpectAndReturn(1, 0, 5, 0, 0); g_ExpectAndReturn(3, 5, 0); int ok = easyMock_check(); unsigned n; easyMock_getErrorArr(&n); return ok || n != 2; }
'''})
add('s10_order_value', 'C12', [(CT, '''cstring_c_str(&currentCall));" CARRIAGE_RETURN
        "            return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN''', '''cstring_c_str(&currentCall));" CARRIAGE_RETURN
        "            return" IF_RETURN_VALUE(" dummyRes_" FUNCTION_NAME) ";" CARRIAGE_RETURN''')], gen_c('dm.h'), 'an expected call made out of order while order checking is on', 'an expected call made out of order returns zero instead of the configured value',
  {'dm.h': H, 'demo.c': '''#include <easyMock_dm.h>
int main(void) { int x = 1; easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(1); easyMock_init(); g_ExpectAndReturn(3, 5, 0); f_ExpectAndReturn(1, 0, 6, 0, 0); return f(1, &x) != 6; }
'''})
add('s11_bool_array', 'C16', [(CT, "          const bool hasTypeNonZeroSize = this->hasTypeNonZeroSize(curComposableField.getType());", "          const bool hasTypeNonZeroSize = this->hasTypeNonZeroSize(curComposableField.getType()) && curComposableField.getArraySize() > 1;")],
  gen_c('dm.h', opts='--generate-comparator-of EasyMock_all_comparators'), 'a struct with an array member of exactly one element', 'the comparator ignores array members of one element',
  {'dm.h': 'struct s { int a; int one[1]; };\nvoid f(struct s v);\n', 'demo.c': '''#include <easyMock_dm.h>
int main(void) { struct s x = { 1, { 2 } }, y = { 1, { 3 } }; char m[256]; return cmp_struct_s(&x, &y, "p", m) == 0; }
'''})
add('s12_wide_bits', 'C16', [(CT, "        const bool isNonAnonymousBitfield = !curComposableBitField.getName().empty();", "        const bool isNonAnonymousBitfield = curComposableBitField.getSize() > 0 && curComposableBitField.getSize() <= 32 && !curComposableBitField.getName().empty();")],
  gen_c('dm.h', opts='--generate-comparator-of EasyMock_all_comparators'), 'a bit-field wider than 32 bits', 'the comparator ignores bit-fields wider than 32 bits',
  {'dm.h': 'struct s { int a; unsigned long long w:40; };\nvoid f(struct s v);\n', 'demo.c': '''#include <easyMock_dm.h>
int main(void) { struct s x = { 1, 2 }, y = { 1, 3 }; char m[256]; return cmp_struct_s(&x, &y, "p", m) == 0; }
'''})
