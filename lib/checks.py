"""The jobs of each property."""
import vf, gen, gencheck
from vf import Job, Check, VERIF, FW

CHECKS = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

MF = FW + '/src/MockedFunction.c'
LIBC = ['malloc, free, memcpy, memset, strlen (CBMC built-in models of the C library)',
        'fprintf, strerror: only called on the way to process exit']

def mf_jobs(*names, tier='quick'):
    """Contract enforcement on MockedFunction.c. sat: byte-precise memcpy with dataSize <= MAXD; z3: unbounded dataSize."""
    src = VERIF + '/harness/mf.c'
    E = dict(init='MockedFunction_init', add='MockedFunction_addExpectedCall', actual='MockedFunction_addActualCall', get='MockedFunction_getCurrentCallParam',
             get_empty='MockedFunction_getCurrentCallParam', name='MockedFunction_getName', nb='MockedFunction_getNbActualCall', verify='MockedFunction_verify',
             reset='MockedFunction_reset', reset_twice='MockedFunction_reset')
    base = ['VF_SOURCE="%s"' % MF]
    jobs = []
    byt = base + ['MAXD=%d' % (32 if tier == 'quick' else 256)]
    ab = base + ['VF_ABS', 'MAXD=0xffffffffu']
    for n in names:
        if n == 'history':
            defs = base + ['EASYMOCK_MAX_MOCKED_CALL=3', 'HOPS=%d' % (5 if tier == 'quick' else 7)]
            jobs.append(Job('mf_history', src, 'h_history', defines=defs, unwind=120, kind='bounded', timeout=800, native=dict(), solver='cadical', functions=['MockedFunction_* (bodies)']))
            continue
        # contract enforcement with the frame, all data sizes (libc by contract)
        if n != 'reset_twice':
            jobs.append(Job('mf_%s' % n, src, 'h_' + n, defines=ab + (['VF_NOVA'] if n == 'verify' else []), enforce=[E[n]], unwind=300, timeout=600, solver='cadical', native=dict(defines=base + ['MAXD=0xffffffffu'])))
        if n in ('add', 'get', 'get_empty', 'reset_twice', 'verify'):
            # byte-precise companion
            jobs.append(Job('mf_%s_bytes' % n, src, 'h_' + n, defines=byt, unwind=258, timeout=600, solver='cadical', native=dict(), functions=[E[n]], kind='proof' if n in ('reset_twice', 'verify') else 'bounded'))
    return jobs

@check('C01')
def c01(c):
    c.add(*mf_jobs('add', 'actual', 'get', 'get_empty', 'history', tier=c.tier))
    c.trusted += LIBC
    return c.run()

@check('C02')
def c02(c):
    c.add(*mf_jobs('verify', 'actual', 'add', 'get', 'nb', 'name', tier=c.tier))
    c.trusted += LIBC
    return c.run()

@check('C03')
def c03(c):
    c.add(*mf_jobs('init', 'reset', 'reset_twice', tier=c.tier))
    c.trusted += LIBC
    return c.run()

@check('C04')
def c04(c):
    c.add(*mf_jobs('add', 'actual', 'get', 'get_empty', 'verify', 'reset', 'init', tier=c.tier))
    c.trusted += LIBC
    return c.run()

@check('C07')
def c07(c):
    src = VERIF + '/harness/cs.c'; CS = FW + '/src/cstring.c'
    base = ['VF_SOURCE="%s"' % CS]
    E = dict(length='cstring_length', free='cstring_free')
    F = dict(append='cstring_append', new_init='cstring_new_init', new='cstring_new', length='cstring_length', c_str='cstring_c_str', cmp='cstring_compare_const_char',
             cmp_cs='cstring_compare_const_cstring', free='cstring_free', free_twice='cstring_free')
    for h in (0, 1):
        c.add(Job('cs_append_%s' % ('heap' if h else 'inline'), src, 'h_append', defines=base + ['VF_ABS', 'VF_HEAP=%d' % h], unwind=CAPU, timeout=700, solver='cadical',
                  native=dict(defines=base + ['VF_N_ABS', 'VF_HEAP=%d' % h]), functions=['cstring_append']))
    for n, f in F.items():
        if n == 'append': continue
        c.add(Job('cs_' + n, src, 'h_' + n, defines=base + ['VF_ABS'], enforce=[E[n]] if n in E else [], unwind=CAPU, timeout=400, solver='cadical',
                  native=dict(defines=base + ['VF_N_ABS']), functions=[f]))
    # byte-precise companions: small inline capacity, short strings
    k = 6 if c.tier == 'quick' else 12
    for n in ('append', 'new_init', 'cmp', 'cmp_cs', 'length'):
        c.add(Job('cs_%s_bytes' % n, src, 'h_' + n, defines=base + ['CSTRING_MAX_STACK_SIZE=5', 'MAXL=%d' % k], unwind=2 * k + 4, timeout=600, solver='cadical', native=dict(), functions=[F[n]], kind='bounded'))
    c.trusted += ['strlen, strcat, strncpy, strcpy, strncat, memcpy, strcmp, strncmp, memcmp, realloc: assumed contracts written out in harness/cs.c (byte-precise models in the bounded companions)']
    c.assumptions += ['the appended string is not part of the string it is appended to', 'string lengths up to 2^30']
    return c.run()

CAPU = 258

@check('C12')
def c12(c):
    gencheck.gen_check(c, 12)
    return c.run()

@check('C13')
def c13(c):
    gencheck.gen_check(c, 13, want=lambda f: f.params)
    return c.run()

@check('C14')
def c14(c):
    gencheck.gen_check(c, 14)
    return c.run()

@check('C15')
def c15(c):
    gencheck.gen_check(c, 15, want=lambda f: any(t.kind == 'ptr' for t in f.params))
    return c.run()

@check('C17')
def c17(c):
    gencheck.gen_check(c, 17, wiring=True, per_fun=c.tier != 'quick')
    gencheck.run_corpus(c, [x for x in gen.fixed_corpus() if x[0] in ('twins', 'many')], 17, tag='f') if c.tier == 'quick' else None
    return c.run()


@check('C16')
def c16(c):
    import cmpgen
    c.level = 'translation_validation'
    ents = cmpgen.fixed() + cmpgen.rnd(c.seed, 8 if c.tier == 'quick' else 80)
    gencheck.run_types(c, ents, 16, lambda s, gc: cmpgen.harness(s, gc, s.kfkey()), lambda s: [('', 'h_cmp', s.cmpname()), ('_deref', 'h_deref', 'cmp_deref_ptr_' + s.cmpname()[4:])],
                       lambda n, ts: cmpgen.header(n, ts), tag='cmp_')
    c.assumptions += gencheck.ASSUME[1:] + ['cstring and easyMock_snprintf behave as their contracts (C07; C library)']
    c.trusted += ['libclang (parses the header on behalf of the generator)', 'gcc (syntax check and native replay)']
    c.extra['samples'] = [t.define() for e in ents[:4] for t in e[1]]
    return c.run()
