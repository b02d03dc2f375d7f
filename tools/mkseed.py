"""mkseed.py ID PROPERTY FILE <edit.json : {"edits":[[file,old,new],..],"demo":"C text" | "demosh": "...", "needs":..,"breaks":..}
Creates seeded/ID and validates it in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
VD = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = os.path.join(VD, 'seeded')
GEN = '''#!/bin/bash
# run in the repository root after the build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -w -g -Iinclude -Isrc %s "$D/demo.c" %s -o "$W/demo" -lpthread || exit 2
cd "$W" && timeout 120 ./demo
'''

def make(o):
    d = os.path.join(V, o['id'])
    os.makedirs(d, exist_ok=True)
    s = '/tmp/seed.' + o['id']
    shutil.rmtree(s, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', s])
    for f, old, new in o['edits']:
        p = os.path.join(s, f)
        t = open(p).read()
        assert t.count(old) == 1, (o['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', s, 'diff']).decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': o['prop'], 'needs': o['needs'], 'what_it_breaks': o['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'demo' in o:
        open(os.path.join(d, 'demo.c'), 'w').write(o['demo'])
    sh = o.get('demosh') or GEN % (o.get('cflags', ''), o.get('link', '_build/liburkel.a'))
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.rmtree(s, ignore_errors=True)

def validate(i, check=True):
    d = os.path.join(V, i)
    s = '/tmp/seed.' + i
    shutil.rmtree(s, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', s])
    shutil.rmtree(s + '/_build', ignore_errors=True)
    def sc(name):
        t = open('/opt/vp/' + name).read().replace('/repo', s).replace('/opt/vp/build.sh', s + '.build.sh')
        open(s + '.' + name, 'w').write(t)
        return s + '.' + name
    b, t = sc('build.sh'), sc('test.sh')
    def demo():
        p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=s, capture_output=True, text=True, errors='replace')
        return p.returncode, (p.stdout + p.stderr)[-300:]
    msg = []
    subprocess.run(['bash', b], capture_output=True)
    r0 = demo()
    p = subprocess.run(['git', '-C', s, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
    if p.returncode: msg.append('patch: ' + p.stderr)
    p = subprocess.run(['bash', t, s + '.json'], capture_output=True, text=True)
    res = json.load(open(s + '.json'))
    r1 = demo()
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base["stable"]
    miss = [x for x in base if x not in res['passed']] if isinstance(base, list) else res['failed']
    ok = r0[0] == 0 and r1[0] not in (0, 2) and not miss and not msg
    print('%-24s %s clean=%s patched=%s tests_missing=%s %s' % (i, 'OK ' if ok else 'BAD', r0, r1, miss[:4], msg), flush=True)
    if check:
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        c = subprocess.run(['python3', os.path.join(VD, 'vf/run.py'), prop], capture_output=True, text=True, env=dict(os.environ, VF_REPO=s), cwd=VD)
        out = c.stdout.strip().splitlines()
        print('   check %s exit %d' % (prop, c.returncode)); print('   ' + '\n   '.join(l[:220] for l in out[:14]), c.stderr[-300:], flush=True)
    shutil.rmtree(s, ignore_errors=True)
    for x in ('.build.sh', '.test.sh', '.json'):
        try: os.unlink(s + x)
        except OSError: pass

if __name__ == '__main__':
    for i in [a for a in sys.argv[1:] if not a.startswith('-')]:
        validate(i, '--nocheck' not in sys.argv)
