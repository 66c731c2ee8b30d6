"""Builds the generator from /repo's current sources, runs it on a corpus of headers and derives one contract harness per mocked function."""
import os, re, random, subprocess, shutil, concurrent.futures, json, fcntl
import vf
from vf import GEN, FW, CACHE, VERIF, Inconclusive, sh, must, file_hash, tree, NPROC

LLVM = '/usr/lib/llvm-14'
DEFS = ['-DBACKTRACE_SUPPORT', '-DC_IMPLICIT_INCLUDE_DIRECTORIES="/usr/lib/gcc/x86_64-linux-gnu/13/include:/usr/local/include:/usr/include/x86_64-linux-gnu:/usr/include"']

def build_generator():
    """Compiles the generator's current sources (no make involved, nothing is written in /repo). Object files are cached by content."""
    srcs = [f for f in tree(GEN + '/src', ('.cpp',))]
    hdrs = tree(GEN, ('.h', '.hpp')) + tree(FW + '/include', ('.h',))
    hh = file_hash(hdrs, 'v3')
    od = CACHE + '/obj'; os.makedirs(od, exist_ok=True)
    objs = []
    def one(s):
        k = file_hash([s], hh)
        o = '%s/%s.%s.o' % (od, os.path.basename(s), k)
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            must(['g++', '-O0', '-std=gnu++17', '-w', '-I' + FW + '/include', '-I' + GEN + '/include', '-I' + GEN + '/src', '-I' + LLVM + '/include'] + DEFS + ['-c', s, '-o', t], timeout=600)
            os.rename(t, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex: objs = list(ex.map(one, srcs))
    exe = '%s/gen.%s' % (CACHE, file_hash(objs))
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        must(['g++'] + objs + ['-L' + LLVM + '/lib', '-o', t] + '-lctemplate -lboost_filesystem -lboost_system -lclang -lclang-cpp -lLLVM -lpthread -lcurses -lunwind -ldw -lelf'.split(), timeout=600)
        os.rename(t, exe)
    # keep the cache small
    ob = sorted((os.path.join(od, f) for f in os.listdir(od)), key=os.path.getmtime)
    for f in ob[:-600]:
        try: os.unlink(f)
        except OSError: pass
    ex = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('gen.')), key=os.path.getmtime)
    for f in ex[:-8]:
        try: os.unlink(f)
        except OSError: pass
    return exe

class GenFailed(Exception):
    def __init__(self, why, script): self.why = why; self.script = script

BUILD_SH = r'''#!/bin/bash
# Rebuilds the generator from /repo and re-runs the failing step; non-zero exit = reproduced.
cd "$(dirname "$0")" || exit 2
GEN=$(VF_REPO=${VF_REPO:-%(repo)s} python3 -c 'import sys; sys.path.insert(0, "%(lib)s"); import gen; print(gen.build_generator())') || exit 2
'''
def script_head(): return BUILD_SH % dict(repo=vf.REPO, lib=vf.LIB)

def generate(exe, header, outdir, opts=(), timeout=60):
    os.makedirs(outdir, exist_ok=True)
    return sh([exe, '-i', header, '-o', outdir] + list(opts), timeout=timeout)

def strip_banner(p): return open(p, errors='replace').read()

# ---------------------------------------------------------------------------------------------------------------- types
class T:
    """A C type with its declaration form and the C text that fills, compares and zero-tests a value of it."""
    def __init__(self, spec, kind, target=None, tconst=False, fields=None, decl=None, out=None, odecl=None):
        self.spec = spec if '%s' in spec else spec + ' %s'
        self.kind = kind; self.target = target; self.tconst = tconst; self.fields = fields
        self.pdecl = decl or self.spec       # as written in the parameter list of the header
        self.out = out                       # None, 'obj' or 'raw': how an output can be configured
        self.odecl = odecl or (self.spec if self.out else None)
    def decl(self, n): return self.spec % n
    def fill(self, lv):
        k = self.kind
        if k == 'int': return '%s = (%s)vf_nd64();' % (lv, (self.spec % '').replace('const', '').strip())
        if k == 'bool': return '%s = vf_ndbool();' % lv
        if k == 'i128': return '%s = ((%s)vf_nd64() << 64) | vf_nd64();' % (lv, (self.spec % '').strip())
        if k == 'float': return '{ union { unsigned u; float f; } vf_u = { vf_nd32() }; %s = vf_u.f; }' % lv
        if k == 'double': return '{ union { unsigned long long u; double f; } vf_u = { vf_nd64() }; %s = vf_u.f; }' % lv
        if k == 'ld': return '%s = vf_ndld();' % lv
        if k in ('ptr', 'fptr'): return '%s = (__typeof__(%s))(size_t)vf_nd64();' % (lv, lv)
        if k == 'struct': return ' '.join(t.fill('%s.%s' % (lv, f)) for f, t in self.fields)
        if k == 'union': return 'for(unsigned vf_i = 0; vf_i < sizeof %s; vf_i++) ((unsigned char *)&%s)[vf_i] = vf_nd8();' % (lv, lv)
        if k == 'array': return 'for(unsigned %s = 0; %s < %d; %s++) { %s }' % (self.iv, self.iv, self.n, self.iv, self.elem.fill('%s[%s]' % (lv, self.iv)))
        if k == 'bits':  # bit-field
            return '%s = vf_nd64();' % lv
        raise Exception(k)
    def eq(self, a, b):
        k = self.kind
        if k in ('float', 'double', 'ld'): return '((%s) == (%s) || ((%s) != (%s) && (%s) != (%s)))' % (a, b, a, a, b, b)
        if k == 'struct': return '(' + ' && '.join(t.eq('%s.%s' % (a, f), '%s.%s' % (b, f)) for f, t in self.fields) + ')'
        if k == 'union': return '(%s)' % ' && '.join('((unsigned char *)&%s)[%d] == ((unsigned char *)&%s)[%d]' % (a, i, b, i) for i in range(self.size))
        if k == 'array': return '(' + ' && '.join(self.elem.eq('%s[%d]' % (a, i), '%s[%d]' % (b, i)) for i in range(self.n)) + ')'
        return '((%s) == (%s))' % (a, b)
    def zero(self, a):
        k = self.kind
        if k == 'struct': return '(' + ' && '.join(t.zero('%s.%s' % (a, f)) for f, t in self.fields) + ')'
        if k == 'union': return '(%s)' % ' && '.join('((unsigned char *)&%s)[%d] == 0' % (a, i) for i in range(self.size))
        if k == 'array': return '(' + ' && '.join(self.elem.zero('%s[%d]' % (a, i)) for i in range(self.n)) + ')'
        return '((%s) == 0)' % a

_iv = [0]
def arr(elem, n):
    t = T(elem.spec.replace('%s', '%%s[%d]' % n) if '%s' in elem.spec else elem.spec, 'array'); t.elem = elem; t.n = n
    _iv[0] += 1; t.iv = 'vf_k%d' % _iv[0]
    return t
def ptr(t, const=False, out='obj', pconst=False):
    base = t.spec % ('*' + (' const' if pconst else '') + ' %s') if t.kind not in ('fptr',) else t.spec % '*%s'
    if const: base = 'const ' + base
    p = T(base, 'ptr', target=t, tconst=const, out=None if const else out)
    return p
def union_t(spec, size):
    t = T(spec, 'union'); t.size = size; return t

I = {n: T(n, 'int') for n in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long')}
BOOL = T('_Bool', 'bool'); FLOAT = T('float', 'float'); DOUBLE = T('double', 'double'); LD = T('long double', 'ld')
I128 = T('__int128', 'i128'); U128 = T('unsigned __int128', 'i128')
VOID = T('void', 'void')
TYPES_H = '''
struct s1 { int a; char b[3]; unsigned int c:3; signed int d:5; };
union u1 { int i; float f; unsigned char by[6]; };
typedef struct { struct s1 in; double d; void *p; short x; } t1;
enum e1 { E_A, E_B = 7, E_C = 300 };
typedef enum { TE_X = 4, TE_Y } te1;
typedef int (*cb_t)(int, char *);
struct inc;
typedef struct inc2 inc2_t;
typedef unsigned char u8t;
typedef u8t u8tt;
typedef const char *cstr_t;
typedef struct s1 *ps1_t;
typedef const struct s1 cs1_t;
typedef int ti_t;
typedef void *handle_t;
struct big { long v[6]; struct s1 *next; };
struct one { char c; };
struct holey { char c; double d; char e; };
struct anon { int k; struct { int x; int y; }; struct { short z; } n; };
'''
BITU3 = T('unsigned int', 'bits'); BITS5 = T('signed int', 'bits')
S1 = T('struct s1', 'struct', fields=[('a', I['int']), ('b', arr(I['char'], 3)), ('c', BITU3), ('d', BITS5)])
U1 = union_t('union u1', 8)
VP = T('void *%s', 'ptr', out='raw'); CVP = T('const void *%s', 'ptr')
T1 = T('t1', 'struct', fields=[('in', S1), ('d', DOUBLE), ('p', VP), ('x', I['short'])])
E1 = T('enum e1', 'int'); TE1 = T('te1', 'int')
FP = T('int (*%s)(int, char *)', 'fptr'); CB = T('cb_t', 'fptr'); FPV = T('void (*%s)(void)', 'fptr')
INC = T('struct inc *%s', 'ptr', out='raw'); INC2 = T('inc2_t *%s', 'ptr', out='raw'); CINC = T('const struct inc *%s', 'ptr')
U8T = T('u8t', 'int'); U8TT = T('u8tt', 'int'); CSTR = T('cstr_t', 'ptr'); PS1 = T('ps1_t', 'ptr')
HANDLE = T('handle_t', 'ptr'); TI = T('ti_t', 'int')
CS1P = T('cs1_t *%s', 'ptr')
BIG = T('struct big', 'struct', fields=[('v', arr(I['long'], 6)), ('next', T('struct s1 *%s', 'ptr'))])
ONE = T('struct one', 'struct', fields=[('c', I['char'])])
HOLEY = T('struct holey', 'struct', fields=[('c', I['char']), ('d', DOUBLE), ('e', I['char'])])
ANON = T('struct anon', 'struct', fields=[('k', I['int']), ('x', I['int']), ('y', I['int']), ('n.z', I['short'])])
CI = T('const int %s', 'int')
SCALARS = list(I.values()) + [BOOL, FLOAT, DOUBLE, LD, I128, U128, E1, TE1, U8T, U8TT]
AGG = [S1, U1, T1, BIG, ONE, HOLEY, ANON]
POINTERS = [VP, CVP, INC, INC2, CINC, CSTR, PS1, HANDLE, CS1P, FP, CB]

class F:
    def __init__(self, name, ret, params, variadic=False, names=None, attrs=''):
        self.name = name; self.ret = ret; self.params = params; self.variadic = variadic
        self.names = names or ['p%d' % i for i in range(len(params))]; self.attrs = attrs
    def proto(self):
        ps = [t.pdecl % n for t, n in zip(self.params, self.names)] + (['...'] if self.variadic else [])
        return self.ret.spec % ('%s(%s)' % (self.name, ', '.join(ps) or 'void')) + self.attrs + ';'

def fixed_corpus():
    """(header name, extra types text, functions)."""
    c = []
    V = VOID
    c.append(('ints', [F('fi_%d' % i, t, [t]) for i, t in enumerate(list(I.values())[:6])]))
    c.append(('ints2', [F('fj_%d' % i, t, [t]) for i, t in enumerate(list(I.values())[6:] + [BOOL, E1, TE1, U8TT])]))
    c.append(('floats', [F('ff_f', FLOAT, [FLOAT]), F('ff_d', DOUBLE, [DOUBLE]), F('ff_l', LD, [LD]), F('ff_i', I128, [I128, U128]), F('ff_u', U128, [])]))
    c.append(('aggs', [F('fa_%d' % i, t, [t]) for i, t in enumerate(AGG)]))
    c.append(('outs', [F('fo_i', V, [ptr(I['int'])]), F('fo_c', I['int'], [ptr(I['char'])]), F('fo_s', V, [ptr(S1)]), F('fo_u', V, [ptr(U1), ptr(T1)]), F('fo_ps', V, [PS1]),
                       F('fo_b', BOOL, [ptr(BOOL), ptr(E1)])]))
    c.append(('outs2', [F('go_v', V, [VP]), F('go_i', V, [INC, INC2]), F('go_h', I['int'], [HANDLE]), F('go_pp', V, [ptr(ptr(I['char']))]), F('go_ppc', V, [ptr(T('const char *%s', 'ptr'), out=None)]),
                        F('go_mix', I['long'], [ptr(I['int']), I['int'], VP, ptr(DOUBLE), ptr(HOLEY)])]))
    c.append(('consts', [F('fc_i', V, [ptr(I['int'], const=True)]), F('fc_v', V, [CVP, CINC]), F('fc_s', I['int'], [CSTR, ptr(S1, const=True), CS1P]), F('fc_ci', V, [CI]),
                         F('fc_m', V, [ptr(S1), ptr(S1, const=True)], names=['dst', 'src'])]))
    c.append(('rets', [F('fr_p', ptr(I['int']), []), F('fr_v', VP, []), F('fr_c', CSTR, []), F('fr_s', ptr(S1), [I['int']]), F('fr_i', INC, []), F('fr_void', V, []), F('fr_cb', CB, [])]))
    c.append(('funs', [F('fp_1', V, [FP]), F('fp_2', I['int'], [CB, VP]), F('fp_3', V, [FPV, I['int']]), F('fp_var', I['int'], [CSTR], variadic=True), F('fp_var2', V, [ptr(I['int']), I['int']], variadic=True)]))
    A4 = T('int *%s', 'ptr', target=I['int'], out='obj', decl='int %s[4]', odecl='int *%s')
    AE = T('unsigned char *%s', 'ptr', target=I['unsigned char'], out='obj', decl='unsigned char %s[]', odecl='unsigned char *%s')
    c.append(('arrs', [F('fx_1', V, [A4]), F('fx_2', I['int'], [AE, I['unsigned int']])]))
    many = [I['int'], I['char'], DOUBLE, ptr(I['int']), CSTR, S1, I['unsigned long'], BOOL, E1, VP]
    c.append(('many', [F('fm_10', S1, many), F('fm_names', I['int'], [I['int'], I['int'], ptr(I['int'])], names=['data', 'size', 'result'])]))
    c.append(('twins', [F('open', I['int'], [I['int']]), F('openat', I['int'], [I['int']]), F('open_', I['int'], [I['int']]), F('a', V, []), F('aa', V, []), F('b', I['int'], [])]))
    return c

def random_corpus(seed, n):
    r = random.Random(seed)
    def rt(depth=0):
        k = r.random()
        if k < .4: return r.choice(SCALARS)
        if k < .55: return r.choice(AGG)
        if k < .7: return r.choice(POINTERS)
        t = r.choice(SCALARS + AGG)
        return ptr(t, const=r.random() < .35)
    fs = []
    for i in range(n):
        fs.append(F('rnd_%d' % i, r.choice([VOID, None, None]) or rt(), [rt() for _ in range(r.randint(1, 5))], variadic=r.random() < .1))
    return [('rnd%d' % (i // 4), fs[i:i + 4]) for i in range(0, n, 4)]

def header_text(name, fs, types=None):
    return '#ifndef H_%s\n#define H_%s\n%s\n%s\n#endif\n' % (name, name, TYPES_H if types is None else types, '\n'.join(f.proto() for f in fs))

# ---------------------------------------------------------------------------------------------------------------- harness per function
def harness(f, hname, gen_c, prop):
    """The contract of one generated mock, as a harness over the generated file."""
    o = []
    W = o.append
    n = len(f.params); isvoid = f.ret.kind == 'void'
    outs = [i for i, t in enumerate(f.params) if t.out]
    W('#define VF_PROP %d' % prop)
    W('#include "rt.h"')
    W('#include "%s"' % gen_c)
    W('#undef constructor')
    for i, t in enumerate(f.params):
        W('static %s, %s;' % (t.decl('e%d[2]' % i) if False else _arrdecl(t, 'e%d' % i), _arrdecl(t, 'a%d' % i, 1).split(None, 0)[0]) if False else 'static %s; static %s;' % (_arrdecl(t, 'e%d' % i, 2), _nc(t).decl('a%d' % i)))
        W('static vf_u8 m%d[2];' % i)
        if t.out == 'obj':
            W('static %s; static struct { unsigned char pre[8]; %s; unsigned char post[8]; } b%d; static %s; static vf_u8 has%d[2];' %
              (_arrdecl(t.target, 'o%d' % i, 2), t.target.decl('obj'), i, t.target.decl('old%d' % i), i))
        elif t.out == 'raw':
            W('static unsigned char o%d[2][16], b%d[24], old%d[24]; static vf_u8 has%d[2]; static unsigned sz%d[2];' % (i, i, i, i, i))
        elif t.kind == 'ptr' and t.target is not None and t.tconst:
            W('static struct { unsigned char pre[8]; %s; unsigned char post[8]; } b%d; static %s;' % (t.target.decl('obj'), i, t.target.decl('old%d' % i)))
    if not isvoid: W('static %s;' % _arrdecl(f.ret, 'r', 2))
    # comparators
    for i, t in enumerate(f.params):
        W('static int vf_match%d(const void *cur, const void *exp, const char *name, char *msg)\n{' % i)
        W('  unsigned k = vf_rt.cur;')
        W('  vf_rt.called[%d]++;' % i)
        W('  P13(vf_rt.accept, "match: a comparator runs on an unexpected call");')
        W('  if(!vf_rt.accept) return 0;')
        W('  P13(m%d[k], "match: a comparator runs that the matching expectation does not configure");' % i)
        ct = _nc(t).decl('')
        cast = '(*(%s)%%s)' % (_nc(t).spec % '*')
        W('  P13(%s, "match: the value given as received is not the argument of the call");' % t.eq(cast % 'cur', 'a%d' % i))
        W('  P13(%s, "match: the value given as expected is not that of the matching expectation");' % t.eq(cast % 'exp', 'e%d[k]' % i))
        W('  P13(vf_streq(name, "%s"), "match: wrong parameter name");' % f.names[i])
        W('  if(vf_rt.err[%d]) { msg[0] = 1; msg[1] = %d; msg[2] = 0; return -1; }' % (i, i + 1))
        W('  return 0;\n}')
    # expectation k
    W('static void vf_expect(unsigned k)\n{')
    W('  vf_u8 with_out = vf_ndbool();')
    for i, t in enumerate(f.params):
        W('  %s' % t.fill('e%d[k]' % i) if not _isconst(t) else '  *(%s)&e%d[k] = 0; %s' % (_nc(t).spec % '*', i, _nc(t).fill('(*(%s)&e%d[k])' % (_nc(t).spec % '*', i))))
        W('  m%d[k] = vf_ndbool();' % i)
        if t.out == 'obj': W('  has%d[k] = with_out && vf_ndbool(); %s' % (i, t.target.fill('o%d[k]' % i)))
        elif t.out == 'raw': W('  has%d[k] = with_out && vf_ndbool(); sz%d[k] = vf_nd32(); VF_ASSUME(sz%d[k] <= 16); for(unsigned i = 0; i < 16; i++) o%d[k][i] = vf_nd8();' % (i, i, i, i))
    if not isvoid: W('  %s' % f.ret.fill('r[k]'))
    base = ['e%d[k]' % i for i in range(n)] + ([] if isvoid else ['r[k]']) + ['m%d[k] ? vf_match%d : 0' % (i, i) for i in range(n)]
    W('  unsigned n_exp = vf_rt.n_exp, n_add = vf_rt.n_add, n_err = vf_rt.n_err;')
    call0 = '%s_ExpectAndReturn(%s);' % (f.name, ', '.join(base))
    if outs:
        oargs = []
        for i in outs:
            if f.params[i].out == 'obj': oargs.append('has%d[k] ? &o%d[k] : 0' % (i, i))
            else: oargs += ['has%d[k] ? (void *)o%d[k] : 0' % (i, i), 'sz%d[k]' % i]
        W('  if(with_out) { %s_ExpectReturnAndOutput(%s); }\n  else { %s }' % (f.name, ', '.join(base + oargs), call0))
    else: W('  ' + call0)
    W('  P12(vf_rt.n_exp == n_exp + 1, "expect: not exactly one expectation is recorded");')
    W('  P12(vf_rt.n_err == n_err, "expect: an error is reported");')
    W('  P14(vf_rt.n_add == n_add + 1, "expect: not exactly one entry is added to the global order");')
    W('  P14(vf_streq(vf_rt.add_name, vf_rt.exp_mf->name), "expect: the entry of the global order is not this function");')
    W('  P17(k == 0 || vf_rt.exp_mf == vf_rt.mf[vf_self], "expect: the expectations of one function go to different mocks");')
    W('  vf_self = vf_idx(vf_rt.exp_mf); vf_own = vf_rt.exp_mf->name;')
    W('}')
    o.insert(3, 'static unsigned vf_self;')
    # call
    W('static void vf_call(unsigned k, vf_u8 accept)\n{')
    W('  vf_rt.accept = accept; vf_rt.cur = k; vf_rt.nb = vf_nd32(); vf_rt.popsel = vf_nd8() & 3; vf_set_pop();')
    W('  unsigned n_err = vf_rt.n_err, n_act = vf_rt.n_act, n_pop = vf_rt.n_pop, n_add = vf_rt.n_add, n_exp = vf_rt.n_exp, n_other = vf_rt.e_other, n_order = vf_rt.e_order;')
    W('  for(unsigned i = 0; i < VF_PAR; i++) { vf_rt.called[i] = 0; vf_rt.e_mismatch[i] = 0; vf_rt.err[i] = 0; }')
    args = []
    for i, t in enumerate(f.params):
        W('  vf_rt.err[%d] = vf_ndbool();' % i)
        if t.out == 'obj' or (t.kind == 'ptr' and t.target is not None and t.tconst):
            W('  a%d = &b%d.obj; %s %s' % (i, i, t.target.fill('b%d.obj' % i), _copy(t.target, 'old%d' % i, 'b%d.obj' % i)))
            W('  for(unsigned i = 0; i < 8; i++) b%d.pre[i] = b%d.post[i] = 0x5a;' % (i, i))
        elif t.out == 'raw':
            W('  a%d = (void *)b%d; for(unsigned i = 0; i < 24; i++) b%d[i] = old%d[i] = vf_nd8();' % (i, i, i, i))
        else: W('  ' + _nc(t).fill('a%d' % i))
        args.append('a%d' % i)
    if f.variadic: args.append('7')
    W('  %s%s(%s);' % ('' if isvoid else '%s = ' % _nc(f.ret).decl('vf_r'), f.name, ', '.join(args)))
    W('  P17(vf_rt.act_mf == vf_rt.mf[vf_self], "call: the call is made on another mock than the expectations");')
    W('  P12(vf_rt.n_act == n_act + 1, "call: the call is not counted exactly once");')
    W('  P12(vf_rt.n_exp == n_exp && vf_rt.n_add == n_add, "call: a call records an expectation");')
    W('  if(!accept)\n  {')
    W('    P12(vf_rt.n_err == n_err + 1, "unexpected: not exactly one error is recorded");')
    W('    P14(vf_rt.n_pop == n_pop, "unexpected: a call that is not accepted consumes an entry of the global order");')
    if not isvoid: W('    P12(%s, "unexpected: the value returned is not zero");' % f.ret.zero('vf_r'))
    for i, t in enumerate(f.params):
        W('    P12(vf_rt.called[%d] == 0, "unexpected: a comparator runs");' % i)
        if t.out == 'obj' or (t.kind == 'ptr' and t.target is not None and t.tconst): W('    P12(%s, "unexpected: an output is written");' % t.target.eq('b%d.obj' % i, 'old%d' % i))
        elif t.out == 'raw': W('    for(unsigned i = 0; i < 24; i++) P12(b%d[i] == old%d[i], "unexpected: an output is written");' % (i, i))
    W('  }\n  else\n  {')
    if not isvoid: W('    P12(%s, "expected: the value returned is not that of the matching expectation");' % f.ret.eq('vf_r', 'r[k]'))
    W('    unsigned total = 0;')
    for i, t in enumerate(f.params):
        W('    P13(vf_rt.called[%d] == m%d[k], "match: a configured comparator does not run exactly once");' % (i, i))
        W('    P13(vf_rt.e_mismatch[%d] == (m%d[k] && vf_rt.err[%d]), "match: a reported mismatch does not record exactly one error");' % (i, i, i))
        W('    total += (m%d[k] && vf_rt.err[%d]);' % (i, i))
    W('    vf_u8 out_of_order = vf_rt.order && !VF_MINE();')
    W('    P13(vf_rt.e_other == n_other, "match: an error is recorded although nothing went wrong");')
    W('    P14(vf_rt.n_err - n_err - total == out_of_order, "order: not exactly one error for a call out of order, or an error for one in order");')
    W('    P14(vf_rt.e_order - n_order == out_of_order, "order: the error does not name both functions");')
    W('    P14(vf_rt.n_pop == n_pop + 1, "order: an accepted call does not consume exactly one entry of the global order");')
    for i, t in enumerate(f.params):
        if t.out == 'obj':
            W('    if(has%d[k] && !out_of_order) P15(%s, "out: the configured object is not copied");' % (i, t.target.eq('b%d.obj' % i, 'o%d[k]' % i)))
            W('    else if(has%d[k]) P14(%s, "out: an output is delivered to a call out of order");' % (i, t.target.eq('b%d.obj' % i, 'old%d' % i)))
            W('    else P15(%s, "out: a parameter without configured output is written");' % t.target.eq('b%d.obj' % i, 'old%d' % i))
        elif t.out == 'raw':
            W('    for(unsigned i = 0; i < 24; i++)\n    {')
            W('      if(has%d[k] && !out_of_order && i < sz%d[k]) P15(b%d[i] == o%d[k][i], "out: the configured bytes are not copied");' % (i, i, i, i))
            W('      else if(has%d[k] && i < sz%d[k]) P14(b%d[i] == old%d[i], "out: an output is delivered to a call out of order");' % (i, i, i, i))
            W('      else P15(b%d[i] == old%d[i], "out: more is written than configured");\n    }' % (i, i))
        elif t.kind == 'ptr' and t.target is not None and t.tconst:
            W('    P15(%s, "out: constant data is written");' % t.target.eq('b%d.obj' % i, 'old%d' % i))
    W('  }')
    for i, t in enumerate(f.params):
        if t.out == 'obj' or (t.kind == 'ptr' and t.target is not None and t.tconst):
            W('  for(unsigned i = 0; i < 8; i++) P15(b%d.pre[i] == 0x5a && b%d.post[i] == 0x5a, "out: memory beside the object is written");' % (i, i))
    W('}')
    W('void h_%s(void)\n{' % f.name)
    W('  vf_rt.order = vf_ndbool(); vf_rt.callstack = vf_ndbool();')
    W('  vf_expect(0); vf_expect(1);')
    W('  vf_u8 first = vf_ndbool();')
    W('  if(first) vf_call(0, 0);')
    W('  vf_call(0, 1);')
    W('  VF_COVER(vf_rt.order, "%s: second call");' % f.name)
    W('  vf_call(1, 1);')
    W('  vf_call(0, 0);')
    W('}')
    return '\n'.join(o) + '\n'

def _isconst(t): return t.spec.startswith('const int ')
def _nc(t):
    if _isconst(t):
        import copy
        c = copy.copy(t); c.spec = t.spec[6:]; return c
    return t
def _arrdecl(t, n, k): return _nc(t).decl('%s[%d]' % (n, k))
def _copy(t, a, b): return '%s = %s;' % (a, b) if t.kind != 'array' else ''

def wiring_harness(fs, gen_c, prop, path):
    o = []; W = o.append
    W('#define VF_PROP %d' % prop); W('#include "rt.h"'); W('#include "%s"' % gen_c); W('#undef constructor')
    n = len(fs)
    dtor = re.search(r'__attribute__\s*\(\(\s*destructor[^)]*\)\)\s*(\w+)|(\w+)\s*\(\s*(?:void)?\s*\)\s*__attribute__\s*\(\(\s*destructor', open(path).read())
    W('static const char *const vf_names[] = { %s };' % ', '.join('"%s"' % f.name for f in fs))
    W('void h_wiring(void)\n{')
    W('  unsigned w = vf_nd32(); VF_ASSUME(w < %d);' % n)
    W('  P17(vf_rt.n_reg == 1, "load: not exactly one entry is registered");')
    W('  P17(vf_rt.n_init == %d, "load: not exactly the mocks of the file are initialised");' % n)
    W('  VF_ASSUME(vf_rt.n_init == %d && vf_rt.n_reg >= 1);' % n)
    W('  VF_COVER(1, "wiring");')
    W('  P17(vf_rt.reg->mockedFileName != 0 && vf_contains(vf_rt.reg->mockedFileName, "%s"), "load: the entry does not name the header");' % (os.path.basename(gen_c)[len('easyMock_'):-2] + '.h'))
    W('  P17(vf_rt.n_reset[w] == 0 && vf_rt.n_verify[w] == 0, "load: a mock is reset or verified while loading");')
    W('  vf_rt.reg->resetMockedFile();')
    W('  P17(vf_rt.n_reset[w] == 1, "reset: a mock of the file is not reset exactly once");')
    W('  P17(vf_rt.n_verify[w] == 0, "reset: a mock is verified");')
    W('  vf_u8 all = 1;\n  for(unsigned i = 0; i < %d; i++) { vf_rt.verdict[i] = vf_ndbool(); all = all && vf_rt.verdict[i]; }' % n)
    W('  VF_COVER(all, "wiring: all verify");')
    W('  easyMock_bool r = vf_rt.reg->verifyMockedFile();')
    W('  P17((r != 0) == all, "verify: the verdict of the file is not the conjunction of those of its mocks");')
    W('  P17(vf_rt.n_verify[w] == 1, "verify: a mock of the file is not verified exactly once");')
    W('  P17(vf_rt.n_reset[w] == 1, "verify: a mock is reset");')
    W('  for(unsigned i = 0; i < %d; i++) vf_rt.verdict[i] = 1;' % n)
    W('  P17(vf_rt.reg->verifyMockedFile() != 0, "verify: the verdict of the file depends on an earlier one");')
    if dtor:
        W('  %s();' % (dtor.group(1) or dtor.group(2)))
        W('  P17(vf_rt.n_reset[w] == 2, "unload: a mock of the file is not reset");')
        W('  P17(vf_rt.n_unreg == 1 && vf_rt.unreg == vf_rt.reg, "unload: the entry is not unregistered");')
    else: W('  P17(0, "unload: no destructor");')
    W('  P17(vf_rt.n_reg == 1, "unload: another entry is registered");')
    W('}')
    return '\n'.join(o) + '\n'
