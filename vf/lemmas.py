"""The lemma layer: Lean files under lemmas/, checked on every run."""
import os, re, subprocess, time
from . import core


def check(names):
    out = []
    for n in names:
        f = os.path.join(core.VERIF, 'lemmas', n + '.lean')
        txt = open(f).read()
        thms = re.findall(r'^theorem (\S+)', txt, re.M)
        t0 = time.time()
        if re.search(r'\b(sorry|axiom|native_decide)\b', re.sub(r'--.*', '', txt)):
            out.append(dict(file=n, status='fail', detail='unproved lemma in ' + n, n=0)); continue
        try:
            p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=300, cwd='/tmp')
            ok = p.returncode == 0
            out.append(dict(file=n, status='ok' if ok else 'fail', detail='' if ok else (p.stdout + p.stderr)[-500:],
                            n=len(thms), theorems=thms, back_end='Lean 4 kernel', seconds=round(time.time() - t0, 1)))
        except (subprocess.TimeoutExpired, OSError) as e:
            out.append(dict(file=n, status='fail', detail=str(e)[:300], n=len(thms)))
    return out
