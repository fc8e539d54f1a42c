"""Makes and validates a planted bug.
usage: seed.py ID PROPERTY FILE OLDTEXT NEWTEXT DEMO_RS NEEDS BREAKS   (texts from files)  -- or import make()"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/scr'
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'find "$tmp" -delete' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bvh_anim = { path = "$repo" }
bstr = "0.2"
[workspace]
EOF
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS="-A warnings"
unset RUSTC_WRAPPER
cd "$tmp" && cargo run --offline --quiet
'''


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return p.returncode, p.stdout


def scratch():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    rc, o = sh('cp -a /repo %s' % SCR)
    assert rc == 0, o


def make(id, prop, edits, main, needs, breaks):
    """edits: [(file, old, new)]"""
    d = os.path.join(HERE, 'seeded', id)
    scratch()
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', SCR)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(main)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return validate(id)


def validate(id, tests=True):
    d = os.path.join(HERE, 'seeded', id)
    scratch()
    rc0, o0 = sh('bash %s/demo.sh' % d, SCR)
    rc, o = sh('git apply %s/patch.diff' % d, SCR)
    if rc:
        print(id, 'patch does not apply', o)
        return False
    rc1, o1 = sh('bash %s/demo.sh' % d, SCR)
    good = rc0 == 0 and rc1 != 0
    if 'could not compile' in o1:
        good = False
    if tests:
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        t = open('/opt/vp/test.sh').read().replace('/repo', SCR)
        open('/tmp/scr_test.sh', 'w').write(t)
        sh('bash /tmp/scr_test.sh /tmp/scr_out.json')
        r = json.load(open('/tmp/scr_out.json'))
        ok = set(k for k, v in r.items() if v in ('pass', True, 'passed')) if isinstance(r, dict) and 'passed' not in r else set(r['passed'])
        miss = base - ok
        if miss:
            print(id, 'TESTS FAIL:', sorted(miss)[:8])
            good = False
    print(id, 'VALID' if good else 'INVALID', 'demo unchanged rc', rc0, 'patched rc', rc1)
    if not good:
        print(o0[-800:], '\n----\n', o1[-1500:])
    return good


def caught(id, checks=None):
    """run the property's check with the patched tree in place of /repo (in a mount namespace of its own)"""
    d = os.path.join(HERE, 'seeded', id)
    m = json.load(open(d + '/meta.json'))
    scr = '/tmp/caught.%d' % os.getpid()
    sh('cp -a /repo %s' % scr)
    rc, o = sh('git apply %s/patch.diff' % d, scr)
    assert rc == 0, o
    try:
        for c in checks or [m['property']]:
            rc, o = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd %s && timeout 900 python3 -m sa %s quick'" % (scr, HERE, c), HERE)
            print(id, c, 'rc', rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % c in o else 'MISSED', flush=True)
            print('   ', '\n    '.join(x[:300] for x in o.splitlines()[:5]), flush=True)
    finally:
        shutil.rmtree(scr)


if __name__ == '__main__':
    if sys.argv[1] == 'caught':
        for i in sys.argv[2:]:
            caught(i)
    elif sys.argv[1] == 'validate':
        for i in sys.argv[2:]:
            validate(i)
