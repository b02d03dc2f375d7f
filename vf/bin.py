import sys,os,tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from vf import core
mod=importlib.import_module('vf.'+sys.argv[1])
for v in list(vars(mod).values()):
    for j in (v if isinstance(v,list) else [v]):
        if isinstance(j,core.Job) and j.name==sys.argv[2]:
            d=sys.argv[3]; os.makedirs(d,exist_ok=True)
            a=core.build(j,d); print(a,' '.join(core.CBMC_BASE+list(j.flags)+core.solver_flags(j.solver)+(['--unwind',str(j.unwind)] if j.unwind else [])+(['--unwindset',','.join(j.unwindset)] if j.unwindset else [])))
            sys.exit()
