"""Checks over generated mocks (C12-C15, C17): the generator is rebuilt from /repo, run on a corpus of headers, and every mock it writes is put under its contract."""
import os, re, shutil, concurrent.futures, tempfile
import vf, gen
from vf import Job, VERIF, FW, NPROC, Inconclusive, sh, left

GCC_STRICT = ['-w', '-Werror=implicit-function-declaration', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=discarded-qualifiers']

def replay_generated(prop, key, text, header, htext, harness_name, harness_text, opts, gen_c, c, extra_cmd=''):
    """Script that rebuilds the generator, regenerates and recompiles; non-zero exit = reproduced."""
    s = gen.script_head()
    s += "cat > %s <<'VF_EOF'\n%s\nVF_EOF\n" % (header, htext)
    s += "rm -rf out; mkdir -p out\n\"$GEN\" -i %s -o out %s || { echo 'the generator failed'; exit 1; }\n" % (header, ' '.join("'%s'" % o for o in opts))
    s += 'gcc -fsyntax-only %s -I%s/include -I. -Iout out/%s || { echo "the generated mock does not compile"; exit 1; }\n' % ('-w', FW, gen_c)
    if harness_text:
        s += "cat > %s <<'VF_EOF'\n%s\nVF_EOF\n" % (harness_name, harness_text)
        s += 'gcc -fsyntax-only -DVF_NATIVE %s -I%s -I%s/harness -I%s/include -I. -Iout %s || { echo "the generated mock lacks the interface the contract needs"; exit 1; }\n' % (' '.join(GCC_STRICT), vf.LIB, VERIF, FW, harness_name)
    c.violation_direct(key, text, s + extra_cmd + 'exit 0\n')

def prepare_native(header, htext, opts):
    def prep(job, d):
        open(os.path.join(d, header), 'w').write(htext)
        h = os.path.basename(job.src)
        shutil.copy(job.src, os.path.join(d, h))
        os.makedirs(d + '/out', exist_ok=True)
        for f in os.listdir(job.outdir): shutil.copy(os.path.join(job.outdir, f), d + '/out')
        job.src = h
        job.includes = ['/verif/harness' if VERIF == '/verif' else VERIF + '/harness', '.', 'out']
        job.native['pre_script'] = gen.script_head().split('\n', 1)[1] + 'rm -rf out; mkdir out\n"$GEN" -i %s -o out %s || exit 1\n' % (header, ' '.join("'%s'" % o for o in opts))
    return prep

def run_corpus(c, corpus, prop, opts=(), tag='', want=lambda f: True, wiring=False, per_fun=True):
    """Generates every header of the corpus and adds one job per mock. Returns the number of generated programs."""
    exe = gen.build_generator()
    d = tempfile.mkdtemp(prefix='corp%s_' % tag, dir=vf.work())
    todo = []; n = 0; samples = []
    def one(entry):
        name, fs = entry[:2]
        types = entry[2] if len(entry) > 2 else None
        hf = name + '.h'; htext = gen.header_text(name, fs, types)
        open('%s/%s' % (d, hf), 'w').write(htext)
        od = '%s/out_%s' % (d, name)
        rc, o, e = gen.generate(exe, '%s/%s' % (d, hf), od, opts)
        gc = 'easyMock_%s.c' % name
        if rc != 0 or not os.path.exists(od + '/' + gc):
            return ('genfail', entry, htext, 'the generator fails on a supported header (exit %s): %s' % (rc, (o + e)[-500:]))
        hs = []
        for f in (fs if per_fun else []):
            if not want(f): continue
            hs.append((f.name, gen.harness(f, name, gc, prop), 'h_' + f.name, f))
        if wiring: hs.append(('wiring', gen.wiring_harness(fs, gc, prop, od + '/' + gc), 'h_wiring', None))
        inc = [VERIF + '/harness', d, od]
        rc, o, e = sh(['gcc', '-fsyntax-only', '-w', '-I' + FW + '/include', '-I' + d, '-I' + od, od + '/' + gc], timeout=60)
        if rc != 0: return ('nocompile', entry, htext, 'the generated mock does not compile: ' + e[:800])
        ok = []
        for hn, ht, en, f in hs:
            p = '%s/h%s_%s_%s.c' % (d, tag, name, hn)
            open(p, 'w').write(ht)
            rc, o, e = sh(['gcc', '-fsyntax-only', '-DVF_NATIVE'] + GCC_STRICT + ['-I' + vf.LIB] + ['-I' + i for i in inc] + ['-I' + FW + '/include', p], timeout=60)
            ok.append((hn, p, en, f, rc, e[:800], ht))
        return ('ok', entry, htext, ok, od, inc)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, corpus))
    for r in res:
        name = r[1][0]; gc = 'easyMock_%s.c' % name
        if r[0] != 'ok':
            replay_generated(prop, 'generate_%s%s' % (tag, name), r[3], name + '.h', r[2], None, None, opts, gc, c); continue
        for hn, p, en, f, rc, err, ht in r[3]:
            if rc != 0:
                replay_generated(prop, 'interface_%s%s_%s' % (tag, name, hn), 'the generated code lacks the interface the contract needs: ' + err, name + '.h', r[2], os.path.basename(p), ht, opts, gc, c); continue
            j = Job('gen_%s%s_%s' % (tag, name, hn), p, en, includes=r[5], unwind=200, unwindset=['vf_cp.0:42', 'vf_cp.1:26'], timeout=400, solver='cadical', native=dict(prepare=prepare_native(name + '.h', r[2], opts)),
                    functions=[hn if f is not None else 'load/reset/verify/unload of ' + gc])
            j.outdir = r[4]
            c.add(j); n += 1
            if len(samples) < 6 and f is not None: samples.append(f.proto())
    c.extra['programs'] = c.extra.get('programs', 0) + len(corpus)
    c.extra['mocks'] = c.extra.get('mocks', 0) + n
    c.extra['samples'] = (c.extra.get('samples') or []) + samples
    return n

def has_out(f): return any(t.out for t in f.params)
def heavy(f): return len(f.params) > 6

def corpus_for(tier, seed):
    if tier == 'quick': return gen.fixed_corpus() + gen.random_corpus(seed, 12)
    return gen.fixed_corpus() + gen.random_corpus(seed, 160)

ASSUME = ['the runtime functions called by generated code behave as their contracts in harness/rt.h (decided on the real runtime by C01-C04, C07 and C08-C11)',
          '__attribute__((cleanup)) is ignored by the verifier: the release of the popped name is not checked here', 'constructor priorities are ignored: one translation unit at a time',
          'the corpus of headers (fixed shapes and seeded random signatures) stands for all headers; for each generated mock the obligations cover all argument values']
def gen_check(c, prop, want=lambda f: True, wiring=False, per_fun=True):
    c.level = 'translation_validation'
    run_corpus(c, corpus_for(c.tier, c.seed), prop, want=want, wiring=wiring, per_fun=per_fun)
    c.assumptions += ASSUME
    c.trusted += ['libclang (parses the header on behalf of the generator)', 'gcc (syntax check and native replay)']

def run_types(c, entries, prop, mk_harness, entries_of, header_of, tag='', hdr_opts=(), jobopts=None, finish=None):
    """Generic form of run_corpus: entries (name, types, opts); mk_harness(type, gen_c) -> text; entries_of(type) -> [(suffix, entry point, functions)]."""
    exe = gen.build_generator()
    d = tempfile.mkdtemp(prefix='typ%s_' % tag, dir=vf.work())
    def one(e):
        name, types, opts = e; hf = name + '.h'; htext = header_of(name, types); gc = 'easyMock_%s.c' % name
        open('%s/%s' % (d, hf), 'w').write(htext)
        od = '%s/out_%s' % (d, name)
        rc, o, er = gen.generate(exe, '%s/%s' % (d, hf), od, list(opts) + list(hdr_opts))
        if rc != 0 or not os.path.exists(od + '/' + gc): return ('bad', e, htext, 'the generator fails on a supported header (exit %s): %s' % (rc, (o + er)[-500:]))
        inc = [VERIF + '/harness', d, od]
        rc, o, er = sh(['gcc', '-fsyntax-only', '-w', '-I' + FW + '/include', '-I' + d, '-I' + od, od + '/' + gc], timeout=60)
        if rc != 0: return ('bad', e, htext, 'the generated file does not compile: ' + er[:800])
        hs = []
        for i, t in enumerate(types):
            ht = mk_harness(t, gc); p = '%s/h%s_%s_%d.c' % (d, tag, name, i)
            open(p, 'w').write(ht)
            rc, o, er = sh(['gcc', '-fsyntax-only', '-DVF_NATIVE'] + GCC_STRICT + ['-I' + vf.LIB] + ['-I' + x for x in inc] + ['-I' + FW + '/include', p], timeout=60)
            hs.append((i, t, p, ht, rc, er[:800]))
        return ('ok', e, htext, hs, od, inc)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, entries))
    for r in res:
        name, types, opts = r[1]; opts = list(opts) + list(hdr_opts); gc = 'easyMock_%s.c' % name
        if r[0] != 'ok': replay_generated(prop, 'generate_%s%s' % (tag, name), r[3], name + '.h', r[2], None, None, opts, gc, c); continue
        for i, t, p, ht, rc, err in r[3]:
            if rc != 0: replay_generated(prop, 'interface_%s%s_%d' % (tag, name, i), 'the generated code lacks the interface the contract needs: ' + err, name + '.h', r[2], os.path.basename(p), ht, opts, gc, c); continue
            for suf, en, fn in entries_of(t):
                j = Job('gen_%s%s_%d%s' % (tag, name, i, suf), p, en, includes=r[5], native=dict(prepare=prepare_native(name + '.h', r[2], opts)), functions=[fn], **(jobopts or dict(unwind=200, timeout=400, solver='cadical')))
                j.outdir = r[4]; c.add(j)
    c.extra['programs'] = c.extra.get('programs', 0) + len(entries)
