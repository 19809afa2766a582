"""Writes seeded/<id>/ from the specs in tools/seeds.py and confirms each one in a scratch copy:
applies, builds, passes the stable tests, demo 0 on the unchanged tree and nonzero with the patch."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
MUT = '/tmp/mut'
base = json.load(open('/opt/vp/BASELINE.json'))

DEMO = '''#!/bin/bash
# builds main.rs against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=/tmp/vf_demo_%(id)s
mkdir -p $w/src
trap 'rm -rf /tmp/vf_demo_%(id)s' EXIT
cp "$here/main.rs" $w/src/main.rs
cat > $w/Cargo.toml <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
householder = { path = "$repo" }
rand = "0.8"
num = "0.4"
[profile.release]
panic = "unwind"
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" $w/Cargo.lock
cd $w || exit 2
cargo build --offline -q %(rel)s || { echo "demo does not build"; exit 3; }
./target/%(dir)s/demo
'''

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)

def tests():
    r = run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', MUT)
    ok = set()
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.rstrip().endswith('... ok'):
            ok.add(l[5:].rsplit(' ...', 1)[0].strip())
    return r.returncode == 0, len(ok), r

def main():
    only = sys.argv[1:]
    if not os.path.exists(MUT):
        subprocess.check_call(['cp', '-a', '/repo', MUT])
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        run('git checkout -q -f . && git fetch -q /repo && git reset -q --hard ' + run('git rev-parse HEAD', '/repo').stdout.strip(), MUT)
        for f, old, new, *cnt in s['edits']:
            p = os.path.join(MUT, f)
            t = open(p).read()
            n = t.count(old)
            want = cnt[0] if cnt else 1
            if isinstance(want, tuple):      # (which, of)
                k, of = want
                assert n == of, (s['id'], f, n)
                parts = t.split(old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert n == want, (s['id'], f, 'occurs', n)
                t = t.replace(old, new)
            open(p, 'w').write(t)
        diff = run('git diff', MUT).stdout
        # removed lines must be the original repository's
        ok, n, r = tests()
        if not ok or n < 37:
            print(s['id'], 'TESTS FAIL' if not ok else 'TESTS %d' % n)
            print(r.stdout[-1500:], r.stderr[-1500:])
            continue
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'main.rs'), 'w').write(s['demo'])
        rel = s.get('release', False)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'id': s['id'], 'rel': '--release' if rel else '', 'dir': 'release' if rel else 'debug'})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        b = run('bash %s/demo.sh' % d, MUT)
        a = run('bash %s/demo.sh' % d, '/repo')
        good = a.returncode == 0 and b.returncode not in (0, 2, 3)
        print(s['id'], 'ok' if good else 'BAD', 'clean', a.returncode, 'bug', b.returncode)
        if not good:
            print(a.stdout[-500:], a.stderr[-1500:], '----', b.stdout[-500:], b.stderr[-1500:])
        sys.stdout.flush()
    # lines a patch removes must be original ones
    orig = 'f52e702'
    for s in SEEDS:
        p = os.path.join(V, 'seeded', s['id'], 'patch.diff')
        if not os.path.exists(p):
            continue
        f = None
        for l in open(p):
            if l.startswith('--- a/'):
                f = l[6:].strip()
                o = set(x.strip() for x in run('git show %s:%s' % (orig, f), '/repo').stdout.splitlines())
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() not in o:
                print(s['id'], 'NOT AN ORIGINAL LINE:', l.rstrip())
main()
