"""C16: corpus of struct/union types and the contract of every comparator the generator writes for them."""
import random, itertools
from gen import T, I, BOOL, FLOAT, DOUBLE, LD, I128, U128, F, VOID, ptr

class Fld:
    """One member: name (None: anonymous), C declaration, kind ('leaf' T, 'comp' S), array length or None, bit width or None."""
    def __init__(self, name, t, n=None, bits=None): self.name = name; self.t = t; self.n = n if n is None or isinstance(n, tuple) else (n,); self.bits = bits
def dims(f): return ''.join('[%d]' % k for k in f.n)
def indices(f): return [''] if f.n is None else [''.join('[%d]' % i for i in ix) for ix in itertools.product(*map(range, f.n))]
class S:
    """A struct or union. name: tag or None (defined in place); td: typedef name used to refer to it."""
    def __init__(self, kw, name, fields, td=None): self.kw = kw; self.name = name; self.fields = fields; self.td = td
    def ref(self): return self.td or '%s %s' % (self.kw, self.name)
    def body(self):
        o = []
        for f in self.fields:
            if f.t is None: o.append(f.name); continue    # raw text (padding bit-fields and the like)
            if isinstance(f.t, S):
                ty = f.t.ref() if (f.t.name or f.t.td) else '%s %s' % (f.t.kw, f.t.body())
                d = '%s %s' % (ty, f.name or '')
            else: d = f.t.decl(f.name)
            if f.n is not None: d = (f.t.spec % (f.name + dims(f))) if not isinstance(f.t, S) else d + dims(f)
            if f.bits is not None: d += ':%d' % f.bits
            o.append(d.strip() + ';')
        return '{ %s }' % ' '.join(o)
    def define(self):
        if self.td: return 'typedef %s %s %s;' % (self.kw, (self.name + ' ' if self.name else '') + self.body(), self.td)
        return '%s %s %s;' % (self.kw, self.name, self.body())
    def cmpname(self): return 'cmp_' + (self.td or '%s_%s' % (self.kw, self.name))
    def leaves(self, acc='', path=''):
        """(access suffix, T, path of the enclosing object, leaf name)"""
        o = []
        for f in self.fields:
            if f.t is None: continue
            idx = indices(f)
            for ix in idx:
                if isinstance(f.t, S):
                    if f.name is None: o += f.t.leaves(acc, path)
                    else: o += f.t.leaves(acc + '.' + f.name + ix, path + '.' + f.name)
                else: o.append((acc + '.' + f.name + ix, f.t, path, f.name))
        return o
    def kfkey(self): return getattr(self, 'kf', None)
    def has_union(self): return self.kw == 'union' or any(isinstance(f.t, S) and f.t.has_union() for f in self.fields)

def fill(s, acc):
    """Statements that give every member of the object acc an arbitrary value."""
    o = []
    if s.kw == 'union': return ['vf_any(&(%s), sizeof(%s));' % (acc, acc)] if acc else []
    for f in s.fields:
        if f.t is None: continue
        idx = indices(f)
        for ix in idx:
            a = acc + ('.' + f.name if f.name else '') + ix
            if isinstance(f.t, S):
                if f.name is None and f.t.kw == 'union':   # an anonymous union: its largest member decides
                    big = max((g for g in f.t.fields if g.t is not None), key=lambda g: (4096 if isinstance(g.t, S) else SIZES.get(g.t.kind, 8)) * len(indices(g)))
                    if isinstance(big.t, S): o += fill(big.t, acc + ('.' + big.name if big.name else ''))
                    else:
                        for jx in indices(big): o.append(big.t.fill('%s.%s%s' % (acc, big.name, jx)))
                else: o += fill(f.t, a)
            else: o.append(nc(f.t).fill(a) if not isconst(f.t) else '{ %s; %s *(%s)&%s = vf_v; }' % (nc(f.t).decl('vf_v'), nc(f.t).fill('vf_v'), (nc(f.t).spec % '*'), a))
    return o
SIZES = dict(int=4, float=4, double=8, ptr=8, fptr=8, bits=4, i128=16, ld=16, bool=1)
def isconst(t): return (t.spec.startswith('const ') and t.kind != 'ptr') or '* const %s' in t.spec
def nc(t):
    if not isconst(t): return t
    import copy
    c = copy.copy(t); c.spec = t.spec.replace('* const %s', '*%s') if '* const %s' in t.spec else t.spec[6:]; return c

VP = T('void *%s', 'ptr'); IP = T('int *%s', 'ptr'); CS = T('const char *%s', 'ptr'); FN = T('fn_t', 'fptr'); FP = T('int (*%s)(int)', 'fptr'); EE = T('enum ee', 'int'); TE = T('te', 'int'); U8 = T('u8t', 'int')
CI = T('const int %s', 'int'); VI = T('volatile int %s', 'int'); CPI = T('int * const %s', 'ptr'); INCP = T('struct inc *%s', 'ptr'); TIN = T('tint', 'int')
UB = T('unsigned int', 'bits'); SB = T('signed int', 'bits'); UL = T('unsigned long long', 'bits'); CB_ = T('unsigned char', 'bits')
BB = T('_Bool', 'bool')
PRE = 'enum ee { EA, EB = -3, EC = 70000 };\ntypedef enum { TX = 4, TY } te;\ntypedef int (*fn_t)(int);\ntypedef unsigned char u8t;\ntypedef int tint;\nstruct inc;\n'

def fixed():
    """(header, types in order of definition, comparators to check, options)"""
    ALL = ['--generate-comparator-of', 'EasyMock_all_comparators']
    c = []
    ints = S('struct', 'ints', [Fld('fld_%s' % n.replace(' ', '_'), t) for n, t in I.items()])
    c.append(('ints', [ints], ALL))
    c.append(('fp', [S('struct', 'fps', [Fld('fla', FLOAT), Fld('dba', DOUBLE), Fld('lda', LD), Fld('flb', FLOAT)]), S('struct', 'wide', [Fld('wia', I128), Fld('wib', U128), Fld('boo', BB)])], ALL))
    c.append(('ptrs', [S('struct', 'ptrs', [Fld('vpa', VP), Fld('ipb', IP), Fld('csc', CS), Fld('fnd', FN), Fld('fpe', FP), Fld('cpf', CPI), Fld('icg', INCP), Fld('pah', IP, n=3)])], ALL))
    c.append(('enums', [S('struct', 'enums', [Fld('een', EE), Fld('ten', TE), Fld('u8n', U8), Fld('ear', EE, n=2), Fld('coi', CI), Fld('voi', VI), Fld('tiv', TIN)])], ALL))
    c.append(('bits', [S('struct', 'bits', [Fld('bua', UB, bits=3), Fld('bsb', SB, bits=5), Fld('buc', UB, bits=1), Fld('wrd', I['int']), Fld('bld', UL, bits=40), Fld('ble', UL, bits=24), Fld('bcf', CB_, bits=4), Fld('btg', BB, bits=1)]),
                       S('struct', 'padb', [Fld('pba', UB, bits=16), Fld('unsigned int :9;', None), Fld('pbb', SB, bits=9), Fld('unsigned int :7;', None), Fld('pbc', UB, bits=32), Fld('pbd', I['short'])])], ALL))
    c.append(('arrays', [S('struct', 'arrays', [Fld('ari', I['int'], n=4), Fld('arc', I['char'], n=5), Fld('ard', DOUBLE, n=2), Fld('arb', BB, n=2), Fld('one', I['long'], n=1), Fld('tail', I['unsigned char'])])], ALL))
    inn = S('struct', 'inn', [Fld('inx', I['int']), Fld('iny', I['unsigned char'])])
    tin = S('struct', None, [Fld('tiq', I['short']), Fld('tiz', inn)], td='tin')
    tag = S('struct', 'tagged', [Fld('tga', I['int']), Fld('tgn', inn)], td='tagged_t')
    nest = S('struct', 'nest', [Fld('nsa', inn), Fld('nst', tin), Fld('nsg', tag), Fld('nsr', inn, n=3), Fld('nsu', tin, n=2), Fld('end', I['int'])])
    c.append(('nest', [inn, tin, tag, nest], ALL))
    deep = S('struct', 'deep', [Fld('dpn', nest), Fld('dpx', I['int'])])
    c.append(('deep', [inn, tin, tag, nest, deep], ALL))
    an = S('struct', 'anon', [Fld('ana', I['int']), Fld(None, S('struct', None, [Fld('anx', I['int']), Fld('any', FLOAT)])), Fld('anm', S('struct', None, [Fld('ank', I['int']), Fld('anl', I['char'], n=2)])),
                              Fld(None, S('union', None, [Fld('anu', I['int']), Fld('anv', I['unsigned char'], n=4)])), Fld('ane', I['int'])])
    c.append(('anon', [an], ALL))
    c.append(('anonarr', [S('struct', 'anonarr', [Fld('aza', S('struct', None, [Fld('azb', I['int']), Fld('azc', I['short'])]), n=2), Fld('azd', I['int'])])], ALL))
    c.append(('deepanon', [S('struct', 'deepanon', [Fld('daa', I['int']), Fld(None, S('struct', None, [Fld('dab', I['int']), Fld(None, S('struct', None, [Fld('dac', I['short']), Fld('dad', I['short'], n=2)])), Fld('dae', S('struct', None, [Fld('daf', I['int'])]))])), Fld('dag', I['char'])])], ALL))
    uu = S('union', 'uni', [Fld('uni_i', I['int']), Fld('uni_u', I['unsigned short']), Fld('uni_b', I['unsigned char'], n=6), Fld('uni_n', inn)])
    c.append(('unions', [inn, uu, S('union', None, [Fld('tua', I['long']), Fld('tub', FLOAT)], td='tuni'), S('struct', 'wuni', [Fld('wua', I['int']), Fld('wub', uu), Fld('wuc', uu, n=2)])], ALL))
    c.append(('const', [inn, S('struct', 'cons', [Fld('cna', T('const struct inn %s', 'struct', fields=[])), Fld('cnb', CI)])][:1] + [S('struct', 'cons', [Fld('cnb', CI), Fld('cnp', T('const struct inn *%s', 'ptr')), Fld('cnl', T('const double %s', 'double'))])], ALL))
    c.append(('selfp', [S('struct', 'node', [Fld('nxt', T('struct node *%s', 'ptr')), Fld('val', I['int']), Fld('kid', T('struct node *%s', 'ptr'), n=2)])], ALL))
    c.append(('named', [inn, nest_small(inn)], ['--generate-comparator-of', 'small', '--generate-comparator-of', 'inn']))
    md = S('struct', 'mdim', [Fld('mda', I['int'])]); md.kf = 'multidim'
    md.fields = [Fld('mdm', I['int'], n=(2, 2)), Fld('mdk', I['char'])]
    c.append(('mdim', [md], ALL))
    return c
def nest_small(inn): return S('struct', 'small', [Fld('smi', inn), Fld('smx', I['int'])])

def rnd(seed, n):
    r = random.Random(seed * 7 + 1); out = []
    scal = list(I.values()) + [BB, FLOAT, DOUBLE, EE, TE, U8, VP, IP, CS, FN, INCP, I128]
    cnt = [0]
    def nm(): cnt[0] += 1; return 'm%02dx' % cnt[0]
    def mk(depth, pool, kw='struct', inplace=False):
        fs = []
        for _ in range(r.randint(1, 4 if depth else 6)):
            k = r.random()
            if k < .45 or (depth >= 2 and k < .8): fs.append(Fld(nm(), r.choice(scal)))
            elif k < .6: fs.append(Fld(nm(), r.choice(scal), n=r.randint(1, 3)))
            elif k < .72: fs.append(Fld(nm(), *(lambda t, b: (t, None, b))(*r.choice([(UB, 3), (SB, 6), (UL, 33), (CB_, 2), (UB, 32), (BB, 1)]))))
            elif k < .86 and pool: fs.append(Fld(nm(), r.choice(pool), n=r.choice([None, None, 2])))
            elif depth < 2: fs.append(Fld(r.choice([None, nm()]), mk(depth + 1, pool, r.choice(['struct', 'struct', 'union']), True)))
            else: fs.append(Fld(nm(), r.choice(scal)))
        if kw == 'union':   # plain members of overlapping storage
            fs = [f for f in fs if not isinstance(f.t, S) and f.t.kind in ('int', 'ptr', 'fptr', 'float', 'double') and f.bits is None] or [Fld(nm(), I['int'])]
        if inplace: return S(kw, None, fs)
        cnt[0] += 1
        return S(kw, 'r%d' % cnt[0], fs) if r.random() < .7 else S(kw, None, fs, td='rt%d' % cnt[0])
    for h in range(n):
        pool = []
        for _ in range(r.randint(1, 3)): pool.append(mk(0, list(pool)))
        out.append(('rc%d' % h, pool, ['--generate-comparator-of', 'EasyMock_all_comparators']))
    return out

def header(name, types):
    return '#ifndef H_%s\n#define H_%s\n%s%s\n%s\n#endif\n' % (name, name, PRE, '\n'.join(t.define() for t in types), '\n'.join('void use_%d(%s a);' % (i, t.ref()) for i, t in enumerate(types)))

def harness(s, gen_c, kf=None):
    o = ['#define VF_PROP 16', '#define VF_OWN_CSTRING', '#define CSTRING_MAX_STACK_SIZE 60', '#include "rt.h"']; W = o.append
    tag = ' KF:%s' % kf if kf else ''
    W('cstring cstring_new(void) { cstring rv; rv.stack[0] = 0; rv.heap = 0; return rv; }')
    W('void cstring_append(cstring *s, const char *v) { unsigned i = 0; while(s->stack[i]) i++; while(*v && i < CSTRING_MAX_STACK_SIZE - 1) s->stack[i++] = *v++; s->stack[i] = 0; }')
    W('cstring cstring_new_init(const char *v) { cstring rv; unsigned i = 0; rv.heap = 0; while(v[i]) { rv.stack[i] = v[i]; i++; } rv.stack[i] = 0; return rv; }')
    W('easyMock_size_t cstring_length(const cstring *s) { unsigned i = 0; while(cstring_c_str(s)[i]) i++; return i; }')
    W('static void vf_any(void *p, unsigned n) { for(unsigned i = 0; i < n; i++) ((unsigned char *)p)[i] = vf_nd8(); }')
    W('#include "%s"' % gen_c); W('#undef constructor')
    W('static %s vf_a, vf_b, vf_a0, vf_b0; static char vf_msg[256]; static unsigned vf_nmsg; static vf_u8 vf_named;' % s.ref())
    lv = s.leaves()
    W('#define VF_ID(c) (((c) >= 48 && (c) <= 57) || ((c) >= 65 && (c) <= 90) || ((c) >= 97 && (c) <= 122) || (c) == 95)')
    by = {}
    for acc, t, path, leaf in lv: by.setdefault(path, {}).setdefault(leaf, []).append((acc, t))
    def fnv(w):
        h = 2166136261
        for ch in w: h = ((h ^ ord(ch)) * 16777619) & 0xffffffff
        return h
    W('static int vf_names(const char *fmt, const char *path)\n{')
    W('  unsigned h = 2166136261u; %s' % ' '.join('vf_u8 w%d = 0;' % i for i in range(len(set(l for ls in by.values() for l in ls)))))
    names = sorted(set(l for ls in by.values() for l in ls))
    W('  for(unsigned i = 0; ; i++)\n  {\n    char c = fmt[i];\n    if(VF_ID(c)) h = (h ^ (unsigned char)c) * 16777619u;\n    else if(h != 2166136261u)\n    {')
    for i, n in enumerate(names): W('      if(h == %uu) w%d = 1;' % (fnv(n), i) if False else '      if(h == %du) w%d = 1;' % (fnv(n), i))
    W('      h = 2166136261u;\n    }\n    if(!c) break;\n  }')
    for path, ls in by.items():
        W('  if(vf_streq(path, "par%s"))\n  {' % path)
        for leaf, xs in ls.items():
            W('    if(w%d && (%s)) return 1;' % (names.index(leaf), ' || '.join('vf_a%s != vf_b%s' % (a, a) for a, t in xs)))
        W('  }')
    W('  return 0;\n}')
    W('''int easyMock_snprintf(char *s, easyMock_size_t n, const char *fmt, ...)
{
  const char *first = "";
  va_list ap; va_start(ap, fmt);
  for(unsigned i = 0; fmt[i]; i++)
    if(fmt[i] == '%%' && fmt[i + 1] == '%%') i++;
    else if(fmt[i] == '%%') { if(fmt[i + 1] == 's') first = va_arg(ap, const char *); break; }
  va_end(ap);
  VF_ASSERT(s == vf_msg, "C16.msg: the message is not written to the buffer given");
  VF_ASSERT(n <= 256, "C16.msg: the message may exceed its buffer");
  vf_nmsg++; vf_named = vf_names(fmt, first);
  return 0;
}''' % ())
    W('static void vf_fill(void)\n{')
    if s.kw == 'union': W('  vf_any(&vf_a, sizeof vf_a); vf_any(&vf_b, sizeof vf_b);')
    else:
        for x in fill(s, 'vf_a') + fill(s, 'vf_b'): W('  ' + x)
    for acc, t, path, leaf in lv: pass
    W('  __builtin_memcpy(&vf_a0, &vf_a, sizeof vf_a); __builtin_memcpy(&vf_b0, &vf_b, sizeof vf_b);' if False else '  *(%s *)&vf_a0 = vf_a; *(%s *)&vf_b0 = vf_b;' % (s.ref(), s.ref()) if not has_const(s) else '')
    W('}')
    W('static void vf_check(int r, vf_u8 equal)\n{')
    W('  VF_ASSERT(!equal || r == 0, "C16.cmp: equal objects are reported different%s");' % tag)
    W('  VF_ASSERT(equal || r != 0, "C16.cmp: different objects are reported equal");')
    W('  VF_ASSERT(!equal || vf_nmsg == 0, "C16.msg: a message is left although the objects are equal%s");' % tag)
    W('  VF_ASSERT(equal || vf_nmsg == 1, "C16.msg: not exactly one message is left");')
    W('  VF_ASSERT(equal || vf_named, "C16.msg: the message does not name a differing field%s");' % tag)
    if not has_const(s):
        for acc, t, path, leaf in lv:
            W('  VF_ASSERT(%s, "C16.frame: a compared object is modified");' % ('(%s) && (%s)' % (t.eq('vf_a' + acc, 'vf_a0' + acc), t.eq('vf_b' + acc, 'vf_b0' + acc))))
    W('}')
    W('void h_cmp(void)\n{')
    W('  vf_fill();')
    W('  vf_u8 equal = %s;' % ' && '.join('vf_a%s == vf_b%s' % (a, a) for a, t, p, l in lv))
    W('  VF_COVER(equal, "cmp: equal objects");' if not kf else '')
    if lv: W('  VF_COVER(!equal, "cmp: different objects");')
    W('  vf_check(%s(&vf_a, &vf_b, "par", vf_msg), equal);' % s.cmpname())
    W('}')
    W('void h_deref(void)\n{')
    W('  vf_fill();')
    W('  vf_u8 equal = %s;' % ' && '.join('vf_a%s == vf_b%s' % (a, a) for a, t, p, l in lv))
    W('  %s *pa = &vf_a, *pb = &vf_b;' % s.ref())
    W('  vf_check(cmp_deref_ptr_%s(&pa, &pb, "par", vf_msg), equal);' % s.cmpname()[4:])
    W('  VF_ASSERT(pa == &vf_a && pb == &vf_b, "C16.frame: a compared pointer is modified");')
    W('}')
    return '\n'.join(o) + '\n'
def has_const(s): return any((isinstance(f.t, S) and has_const(f.t)) or (f.t is not None and not isinstance(f.t, S) and ('const %s' in f.t.spec or isconst(f.t))) for f in s.fields)
