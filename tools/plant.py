#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... ; each in a scratch copy of /repo bind-mounted over /repo in a private mount namespace.
Prints for each: builds, stable tests pass, demo clean exit, demo patched exit."""
import os, sys, subprocess, json, shutil, concurrent.futures, queue
N = int(os.environ.get('PLANT_N', '2'))
def ns(copy, script, log):
    with open(log, 'a') as f:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, script)], stdout=f, stderr=subprocess.STDOUT, cwd='/').returncode
q = queue.Queue()
def one(i):
    k = q.get(); copy = '/tmp/pl/c%d' % k
    try:
        d = '/verif/seeded/' + i; log = '/tmp/pl/%s.log' % i
        if os.path.exists(log): os.remove(log)
        if not os.path.exists(copy): subprocess.check_call(['cp', '-a', '/repo', copy])
        subprocess.check_call('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (copy, copy, copy), shell=True)
        demo = '/tmp/pl/demo_%s' % i; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        if ns(copy, 'bash /opt/vp/build.sh', log): return i, 'clean build failed'
        c = ns(copy, 'timeout 300 bash %s/demo.sh' % demo, log)
        if subprocess.run(['git', '-C', copy, 'apply', d + '/patch.diff']).returncode: return i, 'patch does not apply'
        if ns(copy, 'bash /opt/vp/build.sh', log): return i, 'patched build failed'
        p = ns(copy, 'timeout 300 bash %s/demo.sh' % demo, log)
        if '--no-tests' in sys.argv: t = 'tests not run'
        else:
            out = '/tmp/pl/%s.json' % i
            ns(copy, 'bash /opt/vp/test.sh %s' % out, log)
            r = json.load(open(out)); b = json.load(open('/opt/vp/BASELINE.json'))
            st = b.get('stable') or b.get('passed') or b
            miss = [x for x in st if x not in set(r['passed'])]
            t = 'tests ok' if not miss else 'TESTS FAIL %d: %s' % (len(miss), miss[:4])
        subprocess.run(['git', '-C', copy, 'checkout', '-q', '--', '.'])
        return i, ('GOOD ' if c == 0 and p != 0 and t != 'x' and 'FAIL' not in t else 'BAD ') + 'clean=%d patched=%d %s' % (c, p, t)
    finally: q.put(k)
for k in range(N): q.put(k)
with concurrent.futures.ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, [a for a in sys.argv[1:] if not a.startswith('-')]): print(*r, flush=True)
