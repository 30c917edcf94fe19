"""Explore one configuration in-process, tracing decisions: python3-vt dbg.py PROP CONFIG [budget]"""
import os, sys, time, cProfile
os.environ['SYMX_TRACE'] = '1'
from symx import reg, hsym, fort
cfg = [c for c in reg.configs(sys.argv[1]) if c.name == sys.argv[2]][0]
b = float(sys.argv[3]) if len(sys.argv) > 3 else cfg.budget
run = hsym.Run(cfg, '/repo', b, seed=1, fortran=fort.Frontend({}))
t = time.time()
if len(sys.argv) > 4:
    cProfile.run('run.explore()', sort='cumtime')
else:
    run.explore()
print('paths', run.paths, 'aborted', run.aborted, 'left', run.left, 'solver', run.n_solver, 'closed', run.n_closed, 'time', time.time() - t)
print('unknown', run.unknown[:8]); print('engine', run.engine[:8])
for c in run.cands[:6]:
    print('CAND', c['kind'], c['label'], str(c['detail'])[:400], c['env'])
print(run.sh.stats.as_dict())
