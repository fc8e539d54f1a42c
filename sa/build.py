"""Builds the MIR extractor and the harness against /repo's working tree; returns the path of the dump."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(HERE, 'target')


class BuildError(Exception):
    pass


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def env_base():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()


def forget(tdir, names):
    """drop the build records of the crates under analysis so that they are always compiled again"""
    for n in names:
        for pat in (('*', '.fingerprint', n + '-*'), ('*', 'build', n), ('*', 'build', n + '-*'), ('*', 'incremental', n + '-*')):
            for d in glob.glob(os.path.join(tdir, *pat)):
                shutil.rmtree(d, ignore_errors=True)


def build_driver():
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--quiet', '--target-dir', os.path.join(TGT, 'driver')],
                  os.path.join(HERE, 'driver'), env_base())
    if rc:
        raise BuildError('extractor does not build:\n' + out[-4000:])
    return os.path.join(TGT, 'driver', 'debug', 'bvh_mir_dump')


def dump(out_path=None):
    """-> path of the JSON dump for the current tree"""
    os.makedirs(TGT, exist_ok=True)
    with open(os.path.join(TGT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        tdir = os.path.join(TGT, 'roots')
        forget(tdir, ['bvh_anim', 'bvh_roots', 'bvh-anim', 'bvh-roots'])
        path = os.path.abspath(out_path) if out_path else os.path.join(TGT, 'dump.%d.json' % os.getpid())
        if os.path.exists(path):
            os.remove(path)
        e = env_base()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        e['BVH_DUMP'] = path
        e['RUSTC_WRAPPER'] = drv
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Awarnings'
        rc, out = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', tdir], os.path.join(HERE, 'roots'), e)
        if rc or not os.path.exists(path):
            raise BuildError('the analysed crate does not build with the harness:\n' + out[-6000:])
        return path


def audit():
    """-> inventory of unsafe code and statics of the analysed crate (driver/src/audit.rs)"""
    with open(os.path.join(TGT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        tdir = os.path.join(TGT, 'roots')
        forget(tdir, ['bvh_anim', 'bvh_roots', 'bvh-anim', 'bvh-roots'])
        path = os.path.join(TGT, 'audit.%d.json' % os.getpid())
        e = env_base()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        e['BVH_AUDIT'] = path
        e['BVH_DUMP'] = os.path.join(TGT, 'audit.%d.dump' % os.getpid())
        e['RUSTC_WRAPPER'] = drv
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Awarnings'
        rc, out = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', tdir], os.path.join(HERE, 'roots'), e)
        try:
            if rc or not os.path.exists(path):
                raise BuildError('the analysed crate does not build with the harness:\n' + out[-6000:])
            with open(path) as f:
                return json.load(f)
        finally:
            for p in (path, e['BVH_DUMP']):
                if os.path.exists(p):
                    os.remove(p)


if __name__ == '__main__':
    print(dump(sys.argv[1] if len(sys.argv) > 1 else None))
