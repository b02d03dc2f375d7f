"""vf/try.py JOBS...: development driver."""
import sys, importlib
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from vf import core
mod = importlib.import_module('vf.' + sys.argv[1])
jobs = {}
for v in list(vars(mod).values()):
    for j in (v if isinstance(v, list) else [v]):
        if isinstance(j, core.Job):
            jobs[j.name] = j
pats = sys.argv[2:]
sel = [j for n, j in jobs.items() if not pats or any(p in n for p in pats)]
for r in core.run_jobs(sel):
    print('%-28s %-9s %d/%d %.1fs %s %s' % (r.job.name, r.status, r.discharged, r.obligations, r.time, r.reason[:600], r.via[:200]))
    for f in r.failed[:12]:
        print('    FAIL', f)
    if '-v' in sys.argv: print(r.trace)
