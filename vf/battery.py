"""Native programs built from /repo's sources that replay a property on the
real code. They confirm failed obligations and stand in (labelled bounded) for
what the verifier does not reach."""
import os, re, shutil, subprocess, tempfile, threading
from . import core

SRC = ['bits.c', 'blake2b.c', 'internal.c', 'io.c', 'nodes.c', 'proof.c', 'store.c', 'tree.c', 'util.c']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g', '-O1']
BATS = {}


def bat(name, src, tus=(), san=True, wrap=(), scale=(), libs=('-lpthread',), timeout=60, defs=(), reps=None):
    BATS[name] = dict(src=src, tus=tus, san=san, wrap=wrap, scale=scale, libs=libs, timeout=timeout, defs=defs, reps=reps)


ALLSRC = tuple(SRC)
for _n, _m, _kw in [('map', 1, {}), ('root', 2, {}), ('proof', 4, {}), ('forge', 8, {}), ('disk', 16, {}), ('iter', 32, {}), ('hist', 64, {}), ('api', 128, {}),
                    ('mem', 0, dict(track=1))]:
    bat('db_' + _n, 'db.c', tus=ALLSRC, defs=['MODE=%d' % _m] + (['TRACK'] if _kw else []),
        wrap=('malloc', 'calloc', 'realloc', 'free') if _kw else (), timeout=60)

IOWRAP = ('write', 'pwrite', 'read', 'pread', 'open', 'ftruncate', 'unlink', 'rmdir', 'mmap', 'fdatasync', 'fsync', 'fstat', 'readdir')
SMALL = (('store.c', 'MAX_FILE_SIZE', '5000'), ('store.c', 'MAX_OPEN_FILES', '3'), ('store.c', 'WRITE_BUFFER', '2500'), ('store.c', 'READ_BUFFER', '4096'))
SMALLD = ['MAXFILE=5000', 'MAXOPEN=3']
for _n, _m, _s in [('layout', 1 | 16, 1), ('crash', 2, 1), ('crash1', 2, 0), ('fault', 4, 1), ('fault1', 4, 0), ('short', 8, 1), ('short1', 8, 0), ('handles', 16, 1), ('destroy', 32, 0), ('unit', 64, 0), ('path', 128, 0)]:
    bat('disk_' + _n, 'disk.c', tus=ALLSRC, defs=['MODE=%d' % _m] + (SMALLD if _s else []), wrap=IOWRAP, scale=SMALL if _s else (), timeout=60)
for _n, _s in [('sync', 1), ('sync1', 0)]:
    bat('disk_' + _n, 'disk.c', tus=ALLSRC, defs=['MODE=256', 'URKEL_FSYNC'] + (SMALLD if _s else []), wrap=IOWRAP, scale=SMALL if _s else (), timeout=60)
for _n, _m in [('node', 1), ('meta', 2), ('bits', 4), ('hash', 8)]:
    bat('codec_' + _n, 'codec.c', tus=[x for x in SRC if x != 'store.c'], defs=['MODE=%d' % _m], timeout=60)
RWRAP = ('urkel_file_pread', 'urkel_file_write', 'urkel_rwlock_wrlock', 'urkel_rwlock_wrunlock', 'urkel_rwlock_rdlock', 'urkel_rwlock_rdunlock', 'urkel_mutex_lock', 'urkel_mutex_unlock', 'urkel_rwlock_destroy', 'urkel_mutex_destroy')
for _n, _m in [('map', 1), ('proof', 2), ('iter', 4), ('hist', 8), ('err', 16), ('lock', 32), ('commit', 128), ('mem', 0)]:
    bat('rf_' + _n, 'readfault.c', tus=ALLSRC, defs=['MODE=%d' % _m] + ([] if _m else ['TRACK']), wrap=RWRAP + (() if _m else ('malloc', 'calloc', 'realloc', 'free')))
bat('threads', 'threads.c', tus=ALLSRC, san='thread', timeout=100)
LWRAP = tuple('urkel_fs_' + x for x in ('exists', 'mkdir', 'rmdir', 'unlink', 'read_file', 'write_file', 'scandir', 'open_lock', 'open', 'pread', 'ftruncate', 'close_lock')) + ('urkel_file_open', 'urkel_file_close', 'close', 'fcntl')
bat('onelock', 'onelock.c', tus=ALLSRC, wrap=LWRAP)
bat('cli_tool', 'cli.c', tus=ALLSRC, timeout=60)
bat('db_scaled', 'db.c', tus=ALLSRC, defs=['MODE=%d' % (1 | 2 | 16 | 64)], scale=SMALL, timeout=60)


def scaled(tu, subs, d):
    """Copy of a source with some constants replaced: what is dropped is stated."""
    s = open(os.path.join(core.REPO, 'src', tu)).read()
    for name, val in subs:
        s, n = re.subn(r'^(#\s*define\s+%s)\b.*$' % name, r'\1 %s' % val, s, flags=re.M)
    o = os.path.join(d, tu)
    open(o, 'w').write(s)
    return o


def one(name, seed, tier, pid):
    b = BATS[name]
    d = tempfile.mkdtemp(prefix='vfbat.')
    try:
        srcs = []
        for tu in b['tus']:
            subs = [x[1:] for x in b['scale'] if x[0] == tu]
            srcs.append(scaled(tu, subs, d) if subs else os.path.join(core.REPO, 'src', tu))
        exe = os.path.join(d, 'bat')
        cmd = ['gcc', '-DURKEL_TLS=__thread', '-D_DEFAULT_SOURCE', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w'] + (['-fsanitize=thread', '-g', '-O1'] if b['san'] == 'thread' else SAN if b['san'] else ['-g', '-O1']) + \
              ['-I' + core.REPO + '/src', '-I' + core.REPO + '/include', '-I' + core.VERIF + '/specs', '-I' + core.VERIF + '/native'] + \
              ['-D' + x for x in b['defs']] + [os.path.join(core.VERIF, 'native', b['src'])] + srcs + \
              (['-Wl,' + ','.join('--wrap=' + w for w in b['wrap'])] if b['wrap'] else []) + ['-o', exe] + list(b['libs'])
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            return dict(name=name, status='skip', detail='does not build: ' + p.stderr[-600:], cases=0)
        w = os.path.join(d, 'work')
        os.mkdir(w)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0',
                   TSAN_OPTIONS='suppressions=%s/native/tsan.supp halt_on_error=1 exitcode=66' % core.VERIF)
        reps = {'quick': 1, 'confirm': 6, 'thorough': 20}[tier]
        try:
            p = subprocess.run([exe, str(seed), str(reps), w], capture_output=True, text=True, errors='replace', timeout=b['timeout'] * (2 if tier == 'quick' else 5), env=env, cwd=w)
        except subprocess.TimeoutExpired as e:
            return dict(name=name, status='fail', detail='does not terminate (seed %d)' % seed, cases=0)
        out = p.stdout + p.stderr
        m = re.search(r'CASES (\d+)', p.stdout)
        cases = int(m.group(1)) if m else 0
        if p.returncode == 0:
            return dict(name=name, status='ok', detail='seed %d' % seed, cases=cases)
        if p.returncode == 77 or 'FATAL: ThreadSanitizer' in out:
            return dict(name=name, status='skip', detail='environment: ' + out[-200:], cases=0)
        fl = [l for l in out.splitlines() if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'SUMMARY: ThreadSanitizer' in l or 'runtime error' in l or 'assertion' in l.lower()]
        return dict(name=name, status='fail', cases=cases,
                    detail='seed %d exit %d: %s' % (seed, p.returncode, ' | '.join(fl[:4]) or out[-400:]),
                    command='native/%s seed=%d reps=%d' % (b['src'], seed, reps), output=out[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(names, seed, tier, pid):
    out, ths = [], []
    for n in names:
        t = threading.Thread(target=lambda n=n: out.append(one(n, seed, tier, pid)))
        t.start(); ths.append(t)
    for t in ths:
        t.join()
    return out
