"""Proof-job engine: builds goto binaries from /repo's current sources, lets
CBMC decide every obligation, and classifies the outcome."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFLAGS = ['-DVF_CBMC', '-DURKEL_DEBUG', '-DURKEL_TLS=', '-D_POSIX_C_SOURCE=200112',
          '-I' + REPO + '/src', '-I' + REPO + '/include',
          '-I' + VERIF + '/specs', '-I' + VERIF + '/harness']
REACH = 'VF_REACH'
GHOST_NOBODY = 'undefined function should be unreachable'


class Tool(Exception):
    """A tool limit: the obligation is undecided, never a violation."""


def sh(cmd, timeout=600, cwd=None, mem_gb=12, env=None):
    t0 = time.time()
    pre = 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024)
    p = subprocess.Popen(['bash', '-c', pre, 'x'] + cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Tool('timeout after %ds: %s' % (timeout, ' '.join(cmd[:3])))
    return p.returncode, out.decode('utf8', 'replace'), time.time() - t0


class Job:
    """One verification harness.

    src      harness file under harness/
    defs     -D flags
    tus      real translation units of /repo/src linked into the program
    cut      contracted functions whose bodies are removed and supplied by `stubs`
    stubs    files under harness/ with contract stubs
    replace  (f, g): every direct call of f in the linked program calls contract stub g
    loops    loop-contract templates (see loops.py), applied with DFCC
    fallback list of jobs that decide instead when this one does not prove
    kind     'proof' | 'bounded'
    """
    def __init__(self, name, src, defs=(), tus=(), cut=(), stubs=(), replace=(), loops=None,
                 unwind=None, unwindset=(), flags=(), solver='minisat', timeout=240,
                 funcs=(), kind='proof', fallback=(), bound='', note='', cpu=1, split=None, mem=12, scale=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Result:
    def __init__(self, job):
        self.job = job
        self.status = 'undecided'   # proved | failed | undecided
        self.obligations = 0
        self.discharged = 0
        self.failed = []            # (property id, description, location)
        self.reason = ''
        self.log = ''
        self.trace = ''
        self.inputs = {}
        self.time = 0.0
        self.solver_time = 0.0
        self.backend = ''
        self.via = ''


def build(job, d):
    srcs = [os.path.join(VERIF, 'harness', job.src)]
    hs = os.path.join(d, 'h.gb')
    defs = ['-D' + x for x in job.defs]
    for tu in {x[0] for x in job.scale}:
        t = open(os.path.join(REPO, 'src', tu)).read()
        for f, name, val in job.scale:
            if f == tu:
                t, n = re.subn(r'^(#\s*define\s+%s)\b.*$' % name, r'\1 %s' % val, t, flags=re.M)
                if n != 1:
                    raise Tool('constant %s is gone' % name)
        open(os.path.join(d, tu), 'w').write(t)
    if job.scale:
        defs.append('-I' + d)
    rc, out, _ = sh(['goto-cc'] + (['-I' + d] if job.scale else []) + CFLAGS + defs + (['--export-file-local-symbols'] if job.replace else []) + ['-c', srcs[0], '-o', hs], cwd=d)
    if rc != 0:
        raise Tool('harness does not compile against the current sources:\n' + out[-3000:])
    if job.replace:
        # inside this unit every call of f is a call of its contract g; the
        # harness reaches the real f through the entry unit (job.entry)
        rc, sym, _ = sh(['goto-instrument', '--list-symbols', hs], cwd=d)
        cmd = ['goto-instrument']
        for f, g in job.replace:
            m = re.search(r'^(__CPROVER_file_local_\w+_' + f + r'|' + f + r') ', sym, re.M)
            if not m:
                raise Tool('function %s is gone' % f)
            defs.append('-DSYM_%s=%s' % (f, m.group(1)))
            cmd += ['--replace-calls', m.group(1) + ':' + g]
        h2 = os.path.join(d, 'h2.gb')
        rc, out, _ = sh(cmd + [hs, h2], cwd=d)
        if rc != 0:
            raise Tool('goto-instrument: ' + out[-2000:])
        hs = h2
    objs = [hs]
    for tu in job.tus:
        o = os.path.join(d, tu.replace('/', '_') + '.gb')
        rc, out, _ = sh(['goto-cc'] + CFLAGS + defs + ['-c', os.path.join(REPO, 'src', tu), '-o', o], cwd=d)
        if rc != 0:
            raise Tool('source does not compile: ' + out[-3000:])
        objs.append(o)
    if job.cut:
        res = []
        for o in objs[1:] if job.tus else objs:
            o2 = o + '.cut'
            cmd = ['goto-instrument']
            for f in job.cut:
                cmd += ['--remove-function-body', f]
            rc, out, _ = sh(cmd + [o, o2], cwd=d)
            if rc != 0:
                raise Tool('goto-instrument: ' + out[-2000:])
            res.append(o2)
        objs = ([objs[0]] if job.tus else []) + res
    for s in job.stubs:
        o = os.path.join(d, 'stub_' + s.replace('/', '_') + '.gb')
        rc, out, _ = sh(['goto-cc'] + CFLAGS + defs + ['-c', os.path.join(VERIF, 'harness', s), '-o', o], cwd=d)
        if rc != 0:
            raise Tool('stub does not compile: ' + out[-3000:])
        objs.append(o)
    a = os.path.join(d, 'a.gb')
    rc, out, _ = sh(['goto-cc', '--function', 'main'] + objs + ['-o', a], cwd=d)
    if rc != 0:
        raise Tool('link: ' + out[-3000:])
    # drop unused code, make calls of anything without body or contract fail loudly
    b = os.path.join(d, 'c.gb')
    rc, out, _ = sh(['goto-instrument', '--drop-unused-functions', a, b], cwd=d)
    if rc == 0:
        a = b
    return a


CBMC_BASE = ['--json-ui', '--no-malloc-may-fail', '--drop-unused-functions',
             '--object-bits', '10', '--verbosity', '8']


def solver_flags(s):
    return {'minisat': [], 'cadical': ['--sat-solver', 'cadical'],
            'kissat': ['--external-sat-solver', 'kissat'],
            'z3': ['--z3'], 'cvc5': ['--cvc5']}[s]


def parse(out):
    try:
        data = json.loads(out)
    except ValueError:
        i = out.rfind('\n]')
        raise Tool('unparsable verifier output: ' + out[-1500:])
    res, msgs = None, []
    for o in data:
        if 'result' in o:
            res = o['result']
        if 'messageText' in o:
            msgs.append(o['messageText'])
    return res, msgs


DEADLINE = None                 # absolute time after which nothing new is decided
SLICED = ['--slice-formula']


def left(timeout):
    if DEADLINE is None:
        return timeout
    t = DEADLINE - time.time()
    if t < 3:
        raise Tool('time budget of the check used up')
    return min(timeout, t)


def buckets(job, a, d):
    """Partition the obligations of a split job: one verifier run each."""
    cmd = ['cbmc', a, '--show-properties', '--json-ui'] + [f for f in CBMC_BASE[1:] if f not in ('--verbosity', '8')] + list(job.flags)
    rc, out, _ = sh(cmd, timeout=120, cwd=d)
    props = []
    for o in json.loads(out):
        props = o.get('properties', props)
    parts = [[] for _ in range(len(job.split) + 3)]
    for p in props:
        n, desc = p['name'], p['description']
        if REACH in desc:
            k = 0
        elif '.assertion.' not in n:
            k = 1
        else:
            k = 2
            for i, rx in enumerate(job.split):
                if re.search(rx, desc):
                    k = 3 + i
                    break
        parts[k].append(n)
    out = []
    for i, part in enumerate(parts):
        f = []
        for n in part:
            f += ['--property', n]
        if part:
            out.append((f, i == 0))
    return out


def decide(job, a, d, extra):
    cmd = ['cbmc', a] + CBMC_BASE + list(job.flags) + solver_flags(job.solver) + extra
    if job.unwind:
        cmd += ['--unwind', str(job.unwind)]
    if job.unwindset:
        cmd += ['--unwindset', ','.join(job.unwindset)]
    rc, out, dt = sh(cmd, timeout=left(job.timeout), cwd=d, mem_gb=job.mem)
    res, msgs = parse(out)
    if res is None:
        raise Tool('no verification result: ' + ' | '.join(msgs[-6:])[-1500:])
    return cmd, res, msgs, dt


def run_once(job, sem=None):
    r = Result(job)
    sem = sem or threading.Semaphore(8)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vf.')
    try:
        with sem:
            left(1)
            t0 = time.time()
            a = build(job, d)
            if job.loops:
                from . import loops
                a = loops.apply(job, a, d)
            parts = buckets(job, a, d) if job.split is not None else [([], False)]
        r.backend = 'CBMC 6.11 / ' + job.solver
        outs, errs, ths = [], [], []

        def go(extra):
            with sem:
                try:
                    sl = SLICED if job.split is not None else []
                    outs.append(decide(job, a, d, extra + sl))
                except Tool as e:
                    errs.append(str(e))
        for extra, _ in parts:
            t = threading.Thread(target=go, args=(extra,))
            t.start(); ths.append(t)
        for t in ths:
            t.join()
        nobody, unwind_fail, bad = [], [], []
        reach_ok = 0
        for cmd, res, msgs, dt in outs:
            r.solver_time += dt
            nobody += [m for m in msgs if 'no body for function' in m]
            for p in res:
                desc, st = p.get('description', ''), p['status']
                if '.no-body.' in p['property'] or 'no body for callee' in desc:
                    if st == 'FAILURE':
                        nobody.append(desc)
                    continue
                if desc.startswith('VF ') and st == 'FAILURE':
                    r.reason = r.reason or 'verification device exceeded: ' + desc
                    continue
                loc = p.get('sourceLocation', {})
                where = '%s:%s %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'), loc.get('function', ''))
                if REACH in desc:
                    if st == 'FAILURE':
                        reach_ok += 1
                    elif st == 'SUCCESS':
                        r.reason = 'vacuous: %s is unreachable' % desc
                    continue
                r.obligations += 1
                if st == 'SUCCESS':
                    r.discharged += 1
                elif st == 'FAILURE':
                    if 'unwinding assertion' in desc or 'recursion unwinding' in desc:
                        unwind_fail.append((p['property'], desc, where))
                    else:
                        bad.append((p['property'], desc, where))
                else:
                    r.reason = r.reason or 'undetermined obligation: ' + p['property'] + ' ' + st
        if nobody:
            r.reason = 'call of a function without body or contract: ' + '; '.join(sorted(set(nobody)))[:300]
        if bad:
            # an obligation that failed is a verdict even if another run of the
            # same job ran out of time, but not when the device was exceeded
            r.failed = bad
            r.status = 'undecided' if (nobody or r.reason) else 'failed'
            r.log = '\n'.join('FAILED %s: %s (%s)' % b for b in bad)
            if r.status == 'failed':
                tcmd = ['cbmc', a, '--trace'] + CBMC_BASE + list(job.flags) + solver_flags(job.solver)
                if job.unwind:
                    tcmd += ['--unwind', str(job.unwind)]
                if job.unwindset:
                    tcmd += ['--unwindset', ','.join(job.unwindset)]
                tcmd += ['--property', bad[0][0]]
                try:
                    with sem:
                        rc, tout, _ = sh(tcmd, timeout=left(min(job.timeout, 120)), cwd=d)
                    r.trace, r.inputs = summarise_trace(tout)
                except Tool as e:
                    r.trace = 'no trace: %s' % e
        elif errs:
            r.reason = errs[0]
        elif unwind_fail:
            r.reason = 'loop bound exceeded: ' + '; '.join('%s (%s)' % (x[0], x[2]) for x in unwind_fail)
        elif r.reason:
            pass
        elif reach_ok == 0 or r.obligations == 0:
            r.reason = 'vacuous: no reachability witness or no obligation'
        else:
            r.status = 'proved'
    except Tool as e:
        r.reason = str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.time = time.time() - t0
    return r


def summarise_trace(out):
    try:
        res, _ = parse(out)
    except Tool:
        return out[-4000:], {}
    lines, inputs = [], {}
    for p in res or []:
        if 'trace' not in p:
            continue
        for s in p['trace']:
            if s.get('stepType') == 'assignment' and not s.get('hidden'):
                lhs = s.get('lhs', '')
                v = s.get('value', {})
                val = v.get('data')
                if val is None:
                    continue
                b = v.get('binary', '')
                if lhs.startswith('IN_') or '::IN_' in lhs:
                    inputs[lhs.split('::')[-1]] = b or val
                if len(lines) < 400:
                    loc = s.get('sourceLocation', {})
                    lines.append('%s:%s %s = %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'), lhs, val))
            elif s.get('stepType') == 'failure':
                lines.append('FAILURE %s' % s.get('reason', ''))
    return '\n'.join(lines[-300:]), inputs


def run_job(job, sem):
    r = run_once(job, sem)
    if r.status == 'proved' or not job.fallback:
        return [r]
    sub = []
    ths = []
    for j in job.fallback:
        t = threading.Thread(target=lambda j=j: sub.append(run_once(j, sem)))
        t.start(); ths.append(t)
    for t in ths:
        t.join()
    for s in sub:
        s.via = 'fallback of %s (%s)' % (job.name, r.reason or 'failed: ' + '; '.join(x[1] for x in r.failed)[:200])
    return sub


def run_jobs(jobs, par=None):
    par = par or int(os.environ.get('VF_PAR', os.cpu_count() or 8))
    sem = threading.Semaphore(par)
    out, ths = [], []
    lock = threading.Lock()

    def go(j):
        rs = run_job(j, sem)
        with lock:
            out.extend(rs)
    for j in sorted(jobs, key=lambda j: -j.cpu):
        t = threading.Thread(target=go, args=(j,))
        t.start(); ths.append(t)
        time.sleep(0.01)
    for t in ths:
        t.join()
    return out
