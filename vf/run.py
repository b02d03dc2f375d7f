"""python3 vf/run.py <property> [--thorough]: decide one property on /repo's current tree."""
import glob, json, os, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, registry, battery, lemmas

VERIF = core.VERIF


def findings(pid):
    known = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                o = json.loads(line)
                if o['property'] == pid:
                    known.append(o)
    return known


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    core.DEADLINE = t0 + (640 if tier == 'quick' else 3000)
    spec = registry.PROPS[pid]
    jobs = list(spec['jobs'](tier))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', pid + '-*')):
        os.unlink(f)

    lem, bat = [], []
    th = []
    if spec.get('lemmas'):
        th.append(threading.Thread(target=lambda: lem.extend(lemmas.check(spec['lemmas']))))
    if spec.get('battery'):
        th.append(threading.Thread(target=lambda: bat.extend(battery.run(spec['battery'], seed, tier, pid))))
    for t in th:
        t.start()
    results = core.run_jobs(jobs) if jobs else []
    for t in th:
        t.join()

    known = findings(pid)
    failed = [r for r in results if r.status == 'failed']
    undecided = [r for r in results if r.status == 'undecided']
    violations, known_hits = [], []

    def is_known(kind, text):
        for k in known:
            if k.get('kind') == kind and k['match'] in text:
                return k
        return None

    batbad = [b for b in bat if b['status'] == 'fail']
    real = []
    for r in failed:
        left = []
        for f in r.failed:
            k = is_known('obligation', '%s: %s' % (r.job.name, f[1]))
            if k:
                known_hits.append(k['what'])
            else:
                left.append(f)
        if left:
            real.append((r, left))
    batreal = []
    for b in batbad:
        k = is_known('battery', b['name'] + ': ' + b['detail'])
        if k:
            known_hits.append(k['what'])
        else:
            batreal.append(b)
    if real and not batreal and spec.get('battery'):
        # look harder for a failing input of the real code
        more = battery.run(spec['battery'], seed + 1000, 'thorough' if tier == 'thorough' else 'confirm', pid)
        batreal = [b for b in more if b['status'] == 'fail' and not is_known('battery', b['name'] + ': ' + b['detail'])]
        bat += more
    lembad = [l for l in lem if l['status'] == 'fail']
    n = 0
    if real or batreal:
        n += 1
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (pid, n))
        json.dump({'property': pid,
                   'failed_obligations': [{'job': r.job.name, 'functions': list(r.job.funcs),
                                           'obligations': [{'id': f[0], 'text': f[1], 'where': f[2]} for f in fs],
                                           'verifier': r.backend, 'trace': r.trace[-12000:]} for r, fs in real],
                   'replayed_on_real_code': batreal}, open(rp, 'w'), indent=1)
        for r, fs in real:
            for f in fs[:6]:
                print('failed obligation %s [%s] %s (%s)' % (f[0], r.job.name, f[1], f[2]))
        for b in batreal:
            print('real code fails: %s: %s' % (b['name'], b['detail'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if batreal else ' no-failing-input-found'))
        violations.append(rp)
    for k in sorted(set(known_hits)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for k in known:
        if k.get('kind') == 'static':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in undecided:
        print('undecided %s: %s' % (r.job.name, r.reason[:300]))
    for l in lembad:
        print('lemma layer not checked: ' + l['detail'][:300])

    proved = [r for r in results if r.status == 'proved' and r.job.kind == 'proof']
    bounded = [r for r in results if r.status == 'proved' and r.job.kind == 'bounded']
    funcs = sorted({f for r in proved for f in r.job.funcs})
    obl = sum(r.obligations for r in results if r.job.kind == 'proof') + sum(l.get('n', 0) for l in lem)
    dis = sum(r.discharged for r in proved) + sum(l.get('n', 0) for l in lem if l['status'] == 'ok') \
        + sum(r.discharged for r in results if r.status == 'failed' and r.job.kind == 'proof')
    level = spec.get('level', 'proof')
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'python3 vf/run.py %s (goto-cc/goto-instrument/cbmc on /repo/src)' % pid,
        'trusted_base': registry.TRUSTED + spec.get('trusted', []),
        'functions_under_contract': funcs,
        'jobs': [{'job': r.job.name, 'status': r.status, 'kind': r.job.kind, 'functions': list(r.job.funcs),
                  'obligations': r.obligations, 'discharged': r.discharged, 'back_end': r.backend,
                  'solver_s': round(r.solver_time, 2), 'bound': r.job.bound, 'note': r.job.note,
                  'via': r.via, 'reason': r.reason[:400]} for r in results],
        'solver_s': round(sum(r.solver_time for r in results), 1),
        'bounded_stand_ins': [{'job': r.job.name, 'bound': r.job.bound, 'functions': list(r.job.funcs), 'obligations': r.obligations} for r in bounded],
        'undecided': [{'job': r.job.name, 'reason': r.reason[:400]} for r in undecided],
        'lemmas': lem,
        'native_battery': [{'name': b['name'], 'status': b['status'], 'cases': b.get('cases', 0), 'detail': b['detail'][:300], 'label': 'bounded: not counted as proved'} for b in bat],
        'known_findings': sorted(set(known_hits)),
    }
    if level == 'exploration':
        cov.update(evaluations=sum(b.get('cases', 0) for b in bat) or len(results), distinct_nontrivial=sum(b.get('cases', 0) for b in bat) or len(results),
                   rule='one case per generated history', samples=[b['detail'][:200] for b in bat][:3])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': registry.ASSUMED + spec.get('assumed', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d jobs (%d undecided, %d bounded), %d lemma groups, %d battery runs, %.0f s'
          % (pid, dis, obl, len(results), len(undecided), len(bounded), len(lem), len(bat), time.time() - t0))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
