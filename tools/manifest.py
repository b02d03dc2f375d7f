"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import registry as R
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(os.path.join(d, 'properties.jsonl'))}
checks = []
for pid in sorted(R.PROPS):
    p = R.PROPS[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 vf/run.py ' + pid, 'thorough_cmd': 'python3 vf/run.py %s --thorough' % pid,
                   'technique': 'contract-based deductive verification of the real C functions (CBMC, function by function against callee contracts%s)' % (', Lean lemma layer' if p['lemmas'] else ''),
                   'level': p['level'], 'level_note': p['note'] or R.NOTE})
na = [{'property': k, 'reason': v} for k, v in sorted(R.NA.items())]
missing = set(titles) - set(R.PROPS) - set(R.NA)
na += [{'property': k, 'reason': 'no check yet'} for k in sorted(missing)]
json.dump({'version': 1, 'setup_cmd': 'cbmc --version && goto-cc --version && kissat --version && lean --version && gcc --version',
           'hooks': {'guard': 'URKEL_DEBUG', 'enable': 'cmake -DURKEL_ENABLE_DEBUG=ON (as /opt/vp/build.sh does); a diagnostic pragma only, no check depends on it', 'source_commits': ['cd013e739f7a1948200c468838dce9f41754f047']},
           'checks': checks, 'not_applicable': na,
           'notes': 'Checks build goto binaries of /repo/src in temporary directories on every run; the one hook commit in /repo only turns the C90 error of gcc for a // comment into a warning. See DESIGN.md.'},
          open(os.path.join(d, 'MANIFEST.json'), 'w'), indent=1)
