import sys; sys.path.insert(0,'lib')
import vf, checks, time
c=vf.Check(sys.argv[1]); c.run=lambda:0
checks.CHECKS[sys.argv[1]](c)
import concurrent.futures
opts=[a for a in sys.argv[2:] if '=' in a]; names=[a for a in sys.argv[2:] if '=' not in a]
js=[j for j in c.jobs if not names or any(n in j.name for n in names)]
for j in js:
    for o in opts:
        k,v=o.split('=',1); setattr(j,k,eval(v))
def f(j):
    r=vf.run_job(j); print(j.name, opts, len(r.obl), [ (f['desc'],f['id']) for f in r.failed][:8], r.inconclusive, r.covers, '%.1f'%r.wall, 'solver',r.solver, flush=True)
with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(f,js))
