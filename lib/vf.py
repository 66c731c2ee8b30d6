"""Driver: builds goto binaries from /repo's current sources, enforces contracts with CBMC, replays counterexamples natively,
writes evidence."""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile, threading, concurrent.futures, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
FW = REPO + '/src/easyMockFramework'
GEN = REPO + '/src/easyMockGenerate'
LIB = VERIF + '/lib'
CACHE = VERIF + '/.cache'
NPROC = os.cpu_count() or 4
T0 = time.time()
LIMIT = float(os.environ.get('VF_LIMIT') or (840 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 40000))   # a check must answer within 900 s
def left(): return max(5, LIMIT - (time.time() - T0))
_work = None
_lock = threading.Lock()

class Inconclusive(Exception):
    pass

def work():
    global _work
    with _lock:
        if _work is None:
            _work = tempfile.mkdtemp(prefix='vf_')
            if not os.environ.get('VF_KEEP'):
                atexit.register(shutil.rmtree, _work, True)
    return _work

def sh(cmd, timeout=600, cwd=None, env=None, input=None, mem_gb=None):
    """Runs a command; returns (rc, stdout, stderr). Raises Inconclusive on timeout."""
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         cwd=cwd, env=e, text=True, errors='replace', start_new_session=True, preexec_fn=pre)
    try:
        o, er = p.communicate(input=input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        raise Inconclusive('timeout after %ss: %s' % (timeout, ' '.join(cmd)[:300]))
    return p.returncode, o, er

def must(cmd, **kw):
    rc, o, e = sh(cmd, **kw)
    if rc != 0:
        raise Inconclusive('command failed (%d): %s\n%s\n%s' % (rc, ' '.join(cmd)[:2000], o[-3000:], e[-3000:]))
    return o

def file_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def tree(d, exts=('.h', '.hpp', '.c', '.cpp', '.txt', '.in')):
    r = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts): r.append(os.path.join(b, f))
    return r

class Job:
    """One verification task: one harness entry, the contracts enforced in it, and how to replay it natively."""
    def __init__(self, name, src, entry, defines=(), includes=(), enforce=(), replace=(), unwind=None, args=(), timeout=300,
                 solver=None, native=None, objects=(), functions=(), kind='proof', soft=False, mem_gb=12, checks=True, unwindset=(), cpp=False,
                 extra_src=(), partial_ok=False, dfcc=True):
        self.__dict__.update(locals()); del self.__dict__['self']

SAFETY = ['--bounds-check', '--pointer-check', '--div-by-zero-check']

def _parse(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated (killed): salvage nothing
        return None

class Result:
    def __init__(self):
        self.obl = []; self.failed = []; self.covers = 0; self.inconclusive = None; self.wall = 0.0; self.solver = ''; self.trace = {}

def run_job(job):
    r = Result(); t0 = time.time()
    try:
        _run_job(job, r)
    except Inconclusive as e:
        r.inconclusive = str(e)
    r.wall = time.time() - t0
    return r

def build_gb(job, d):
    a = d + '/a.gb'
    cmd = ['goto-cc', '-I' + LIB, '-I' + FW + '/include'] + ['-I' + i for i in job.includes] + ['-D' + x for x in job.defines]
    cmd += ['--function', job.entry, job.src] + list(job.extra_src) + list(job.objects) + ['-o', a]
    must(cmd, timeout=120, cwd=d)
    if job.enforce or job.replace:
        b = d + '/b.gb'
        cmd = ['goto-instrument', '--dfcc', job.entry]
        for f in job.enforce: cmd += ['--enforce-contract', f]
        for f in job.replace: cmd += ['--replace-call-with-contract', f]
        must(cmd + [a, b], timeout=200, cwd=d)
        return b
    b = d + '/b.gb'
    must(['goto-instrument', '--drop-unused-functions', a, b], timeout=120, cwd=d)
    return b

def cbmc_cmd(job, gb):
    cmd = ['cbmc', gb, '--json-ui', '--no-standard-checks', '--object-bits', '10']
    if job.checks: cmd += SAFETY
    cmd += ['--unwinding-assertions']
    if job.unwind: cmd += ['--unwind', str(job.unwind)]
    if job.unwindset: cmd += ['--unwindset', ','.join(job.unwindset)]
    if job.solver == 'cadical': cmd += ['--sat-solver', 'cadical']
    elif job.solver: cmd += ['--' + job.solver]
    return cmd + list(job.args)

def _run_job(job, r):
    d = tempfile.mkdtemp(prefix=re.sub(r'\W', '_', job.name) + '_', dir=work())
    gb = build_gb(job, d)
    cmd = cbmc_cmd(job, gb)
    rc, o, e = sh(cmd, timeout=min(job.timeout, left() - 40), cwd=d, mem_gb=job.mem_gb)
    js = _parse(o)
    if js is None: raise Inconclusive('cbmc gave no result (rc %d): %s' % (rc, (o[-800:] + e[-800:])))
    res = None
    for x in js:
        if 'result' in x: res = x['result']
        if x.get('messageType') == 'STATUS-MESSAGE' or 'messageText' in x:
            t = x.get('messageText', '')
            if t.startswith('Runtime decision procedure') or t.startswith('Runtime Solver'):
                m = re.search(r'([\d.]+)s', t)
                if m and t.startswith('Runtime decision'): r.solver = m.group(1)
    if res is None:
        msgs = [x.get('messageText', '') for x in js if x.get('messageType') == 'ERROR']
        raise Inconclusive('cbmc produced no result (rc %d) %s' % (rc, msgs[:5]))
    soft = []
    for x in res:
        desc = x.get('description', ''); st = x['status']; pid = x['property']
        if desc.startswith('VFCOVER'):
            if st == 'FAILURE': r.covers += 1
            else: soft.append('vacuous: %s is %s' % (desc, st))
            continue
        if '.no-body.' in pid:
            if st == 'FAILURE' and 'nondet' not in pid: soft.append('function without body reached: ' + desc)
            continue
        if 'undefined function should be unreachable' in desc:
            if st == 'FAILURE': soft.append('undefined function reached: ' + pid)
            continue
        loc = x.get('sourceLocation', {})
        rec = dict(id=pid, desc=desc, status=st, line=loc.get('line', ''), file=loc.get('file', ''), function=loc.get('function', ''))
        if 'unwinding assertion' in desc or '.unwind.' in pid or 'recursion' in pid:
            if st == 'FAILURE': soft.append('unwinding bound reached: ' + pid)
            r.obl.append(rec); continue
        r.obl.append(rec)
        if st == 'FAILURE': r.failed.append(rec)
        elif st != 'SUCCESS': soft.append('%s: %s' % (pid, st))
    if not r.obl: soft.append('no obligation was generated')
    if r.failed:
        # order: harness assertions first (they are the ones the native replay reports)
        r.failed.sort(key=lambda f: 0 if re.match(r'C\d\d', f['desc']) else 1)
        for f in r.failed[:3]:
            if left() < 200:
                f['inputs'] = None; f['trace_error'] = 'no time left for a trace'; continue
            try:
                f['inputs'] = trace_inputs(job, gb, f['id'], d)
            except Inconclusive as ex:
                f['inputs'] = None; f['trace_error'] = str(ex)
    r.inconclusive = '; '.join(soft) if soft else None

def trace_inputs(job, gb, prop, d):
    cmd = cbmc_cmd(job, gb) + ['--trace', '--property', prop]
    rc, o, e = sh(cmd, timeout=min(max(job.timeout, 300), max(20, left() - 100)), cwd=d, mem_gb=job.mem_gb)
    js = _parse(o)
    if js is None: raise Inconclusive('no trace')
    for x in js:
        for p in x.get('result', []):
            if p['property'] == prop and 'trace' in p:
                ins = []
                for s in p['trace']:
                    if s.get('stepType') == 'input' and str(s.get('inputID', '')).startswith('vf'):
                        v = s['values'][0]
                        b = v.get('binary')
                        if b is None: b = bin(int(re.sub(r'[^-\d]', '', v['data'])) & ((1 << v.get('width', 64)) - 1))[2:]
                        w = (len(b) + 3) // 4
                        w += w % 2
                        ins.append((s['inputID'], '%0*x' % (w, int(b, 2))))
                return ins
    raise Inconclusive('no trace for ' + prop)

class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.jobs = []; self.assumptions = []; self.trusted = []
        self.level = 'proof'; self.extra = {}; self.notes = []; self.direct_violations = []; self.errors = []
        self.known_hit = []

    def add(self, *jobs): self.jobs += jobs

    def violation_direct(self, key, text, replay_script, reproduced=True):
        """A violated obligation decided without cbmc (e.g. a constant obligation), with its replay script text."""
        self.direct_violations.append((key, text, replay_script, reproduced))

    def run(self):
        results = {}
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(run_job, j): j for j in self.jobs}
            for f in concurrent.futures.as_completed(futs):
                results[futs[f].name] = (futs[f], f.result())
        return self.finish(results)

    def finish(self, results):
        kf = load_known()
        obligations = discharged = 0; per = []; functions = set(); viol = []; errs = list(self.errors); solver_s = 0.0; backends = {}; known = list(self.known_hit)
        for name in sorted(results):
            j, r = results[name]
            ok = [o for o in r.obl if o['status'] == 'SUCCESS']
            bounded = j.kind != 'proof'
            if not bounded:
                obligations += len(r.obl); discharged += len(ok)
            functions |= set(j.functions or j.enforce)
            be = j.solver or 'minisat'
            backends[be] = backends.get(be, 0) + len(ok)
            if r.solver: solver_s += float(r.solver)
            per.append(dict(job=name, kind=j.kind, contracts_enforced=list(j.enforce), functions=list(j.functions), obligations=len(r.obl), discharged=len(ok), backend=be,
                            solver_s=r.solver, wall_s=round(r.wall, 1), reachability_obligations_refuted=r.covers, inconclusive=r.inconclusive))
            bad = []
            for f in r.failed:
                m = re.search(r'KF:([\w.-]+)', f['desc'])
                if m and (self.prop, m.group(1)) in kf:
                    known.append((m.group(1), kf[(self.prop, m.group(1))])); continue
                bad.append(f)
            if bad:
                viol.append((j, r, bad))
            elif r.inconclusive:
                if j.soft: self.notes.append('%s undecided, covered by its bounded companion: %s' % (name, r.inconclusive[:300]))
                else: errs.append('%s: %s' % (name, r.inconclusive))
        lines = []; unrep = []
        nviol = 0
        for (j, r, bad) in viol:
            path, rep = replay(self.prop, j, bad)
            what = bad[0]
            if j.kind == 'bounded' and j.native is not None and not rep and all(b.get('ran') for b in bad if b.get('inputs') is not None) and any(b.get('ran') for b in bad):
                self.notes.append('%s (bounded): %s: the counterexample does not reproduce on the compiled code, discarded' % (j.name, what['desc'])); continue
            if rep == 'soft': 
                self.notes.append('%s: obligation failed but companion decides: %s' % (j.name, what['desc'])); continue
            nviol += 1
            print('obligation failed: job %s: %s (%s) at %s:%s' % (j.name, what['desc'], what['id'], what['file'], what['line']))
            (lines if rep else unrep).append('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if rep else ' no-failing-input-found'))
        for (key, text, script, rep) in self.direct_violations:
            if (self.prop, key) in kf:
                known.append((key, kf[(self.prop, key)])); continue
            nviol += 1
            d = replay_dir(self.prop, key)
            open(d + '/replay.sh', 'w').write(script); os.chmod(d + '/replay.sh', 0o755)
            open(d + '/obligation.txt', 'w').write(text)
            print('obligation failed: %s: %s' % (key, text[:400]))
            (lines if rep else unrep).append('VIOLATION property=%s replay=%s%s' % (self.prop, d + '/replay.sh', '' if rep else ' no-failing-input-found'))
        # obligations whose failure was reproduced on the real code speak for the check; the others are listed in the replays folder
        lines = lines or unrep
        seen = set()
        for k, t in known:
            if k in seen: continue
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, t))
        cov = dict(obligations=obligations, discharged=discharged, checker_cmd='goto-cc | goto-instrument --dfcc --enforce-contract | cbmc (6.11.0) via python3 run.py %s' % self.prop,
                   trusted_base=['CBMC 6.11.0 and its back ends', 'goto-cc front end', 'clang-14 (IR route only)'] + self.trusted,
                   functions_under_contract=sorted(functions), jobs=per, backends=backends, solver_time_s=round(solver_s, 2),
                   known_findings=sorted(seen), notes=self.notes, errors=errs)
        cov.update(self.extra)
        if self.level == 'translation_validation':
            cov.setdefault('programs', self.extra.get('programs', 0)); cov.setdefault('disagreements_checked', obligations)
            cov.setdefault('samples', [p['job'] for p in per[:5]])
        if self.level == 'other':
            cov.setdefault('explanation', 'see jobs')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f: json.dump(ev, f, indent=1)
        for l in lines: print(l)
        print('%s %s: %d/%d proof obligations discharged in %d jobs, %d violations, %d errors, %.1fs' %
              (self.prop, self.tier, discharged, obligations, len(per), nviol, len(errs), time.time() - self.t0))
        for n in self.notes: print('note:', n[:500])
        if lines: return 1
        if errs:
            for e in errs: print('ERROR (undecided):', e[:3000])
            return 2
        return 0

def load_known():
    p = VERIF + '/known_findings.json'
    r = {}
    if os.path.exists(p):
        for x in json.load(open(p)).get('findings', []):
            r[(x['property'], x['id'])] = x['what']
    return r

def replay_dir(prop, name):
    d = '%s/replays/%s/%s' % (VERIF, prop, re.sub(r'\W', '_', name))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    return d

def native_build(job, out, d):
    n = job.native
    cmd = [n.get('cc', 'gcc'), '-g', '-O0', '-w', '-fsanitize=address', '-DVF_NATIVE', '-DVF_ENTRY=' + job.entry, '-I' + LIB, '-I' + FW + '/include']
    cmd += ['-I' + i for i in n.get('includes', job.includes)] + ['-D' + x for x in n.get('defines', job.defines)]
    cmd += n.get('flags', []) + [n.get('src', job.src)] + list(n.get('extra', [])) + [n.get('main', LIB + '/native_main.c'), '-o', out]
    cmd += n.get('libs', [])
    return cmd

def replay(prop, job, bad):
    """Replays the counterexamples of the failed obligations natively. Returns (path, reproduced)."""
    d = replay_dir(prop, job.name)
    with open(d + '/obligation.json', 'w') as f: json.dump([{k: v for k, v in b.items() if k != 'inputs'} for b in bad], f, indent=1)
    if job.native is None:
        with open(d + '/replay.txt', 'w') as f: f.write('no native replay for this job; failed obligations in obligation.json\n')
        return d + '/obligation.json', False
    # keep the harness beside the replay (generated ones live in a scratch directory)
    import copy
    j = copy.copy(job); j.native = dict(job.native)
    reproduced = False
    try:
        if j.native.get('prepare'): j.native['prepare'](j, d)
        cmd = native_build(j, d + '/replay.bin', d)
        must(cmd, timeout=200, cwd=d)
        for i, b in enumerate(bad):
            if b.get('inputs') is None: continue
            inp = '%s/inputs%d.txt' % (d, i)
            with open(inp, 'w') as f:
                for t, h in b['inputs']: f.write('%s %s\n' % (t, h))
            try:
                rc, o, e = sh([d + '/replay.bin'], timeout=60, cwd=d, env=dict(VF_INPUTS=inp, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'))
            except Inconclusive:
                rc, o, e = 99, '', 'native replay did not terminate within 60s'
            b['ran'] = rc in (0, 77)
            with open('%s/native%d.log' % (d, i), 'w') as f: f.write('rc=%d\n%s\n%s' % (rc, o, e))
            if rc not in (0, 77, 78):
                reproduced = True
                with open(d + '/replay.sh', 'w') as f:
                    f.write('#!/bin/bash\n# Rebuilds the harness against the real code in /repo and feeds it the counterexample; non-zero exit = reproduced.\n'
                            '# obligation: %s\ncd "$(dirname "$0")" || exit 2\n%s%s || exit 2\nASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 VF_INPUTS=%s ./replay.bin\n' %
                            (b['desc'].replace('\n', ' '), j.native.get('pre_script', ''), ' '.join("'%s'" % c.replace("'", "'\\''") for c in cmd), inp))
                os.chmod(d + '/replay.sh', 0o755)
                if i: bad.insert(0, bad.pop(i))
                break
        try: os.unlink(d + '/replay.bin')
        except OSError: pass
    except Inconclusive as ex:
        with open(d + '/replay_error.txt', 'w') as f: f.write(str(ex))
    if reproduced: return d + '/replay.sh', True
    return d + '/obligation.json', False
