"""Obtains the program under analysis: type-checks the current source with the compiler driver and dumps its MIR."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from .mir import Prog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BFX_REPO', '/repo')
CACHE = os.environ.get('BFX_CACHE', os.path.join(VERIF, '.cache'))
TARGET = 'x86_64-unknown-freebsd'


class BuildFailed(Exception):
    pass


def _hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            fs = [d]
        else:
            fs = sorted(os.path.join(r, f) for r, ds, ff in os.walk(d) for f in ff if 'target' not in r.split('/'))
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, log):
    with open(log, 'w') as fh:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=fh, stderr=subprocess.STDOUT).returncode


def _tail(log, n=25):
    with open(log, errors='replace') as f:
        return ''.join(f.readlines()[-n:])


def _driver():
    d = os.path.join(CACHE, 'driver')
    exe = os.path.join(d, 'debug', 'bfx-driver')
    src = os.path.join(VERIF, 'driver')
    want = _hash([os.path.join(src, x) for x in ('src', 'Cargo.toml', 'rust-toolchain.toml')])
    mark = os.path.join(d, 'stamp')
    if not (os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == want):
        os.makedirs(d, exist_ok=True)
        log = os.path.join(CACHE, 'driver.log')
        env = dict(os.environ, CARGO_TARGET_DIR=d)
        for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        if _run(['cargo', '+nightly', 'build', '--offline'], src, env, log):
            raise BuildFailed('the compiler driver does not build:\n' + _tail(log))
        with open(mark, 'w') as f:
            f.write(want)
    return exe


def ensure():
    """The directory holding the facts of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = _driver()
        srcs = [os.path.join(REPO, 'bfffs-core', 'src'), os.path.join(REPO, 'bfffs-isa-l', 'src'),
                os.path.join(VERIF, 'shadow'), os.path.join(VERIF, 'driver', 'src')]
        key = _hash(srcs)
        out = os.path.join(CACHE, 'facts', key)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        shutil.rmtree(os.path.join(CACHE, 'facts'), ignore_errors=True)
        os.makedirs(out)
        shadow = os.path.join(VERIF, 'shadow')
        if REPO != '/repo':
            shadow = os.path.join(CACHE, 'shadow')
            shutil.rmtree(shadow, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, 'shadow'), shadow)
            for t in glob.glob(shadow + '/*/Cargo.toml'):
                s = open(t).read().replace('"/repo/', f'"{REPO}/')
                open(t, 'w').write(s)
        tgt = os.path.join(CACHE, 'target')
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=sysroot + '/lib', BFX_OUT=out,
                   CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0',
                   RUSTFLAGS='--cfg tokio_unstable -Cdebug-assertions=off -Coverflow-checks=off')
        env.pop('RUSTC_WRAPPER', None)
        cmd = ['cargo', '+nightly', 'check', '--offline', '-Zbuild-std=std', '--target', TARGET]
        log = os.path.join(CACHE, 'check.log')

        def fresh():
            # cargo would otherwise take the crates for up to date and not run the driver
            for pat in ('.fingerprint', 'build'):
                for d in glob.glob(os.path.join(tgt, '**', pat, 'bfffs-*'), recursive=True) + glob.glob(os.path.join(tgt, '*', '*', pat, 'bfffs-*')):
                    shutil.rmtree(d, ignore_errors=True)
        fresh()
        rc = _run(cmd, shadow, env, log)
        if rc or not os.path.exists(os.path.join(out, 'bfffs_core.json')):
            # Parts of the tree do not type-check for the target: analyse the bodies that do.
            fresh()
            log2 = os.path.join(CACHE, 'salvage.log')
            _run(cmd, shadow, dict(env, BFX_SALVAGE='1'), log2)
            if not os.path.exists(os.path.join(out, 'bfffs_core.json')):
                raise BuildFailed('the source does not type-check:\n' + _tail(log, 40))
        if not os.path.exists(os.path.join(out, 'bfffs_isa_l.json')):
            raise BuildFailed('the ISA-L bindings do not type-check:\n' + _tail(log, 40))
        open(os.path.join(out, 'done'), 'w').close()
        return out


def ensure_pool():
    """The directory holding the facts of the parser of vdev specifications, as the grammar's compiler writes it."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = _driver()
        key = _hash([os.path.join(REPO, 'bfffs', 'src'), os.path.join(VERIF, 'shadow_pool'), os.path.join(VERIF, 'driver', 'src')])
        top = os.path.join(CACHE, 'pool')
        out = os.path.join(top, 'facts', key)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        shutil.rmtree(os.path.join(top, 'facts'), ignore_errors=True)
        os.makedirs(out)
        shadow = os.path.join(top, 'shadow')
        shutil.rmtree(shadow, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'shadow_pool'), shadow)
        lib = os.path.join(shadow, 'src', 'lib.rs')
        s = open(lib).read().replace('"/repo/', f'"{REPO}/')
        open(lib, 'w').write(s)
        tgt = os.path.join(top, 'target')
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=sysroot + '/lib', BFX_OUT=out, BFX_REPO=REPO,
                   CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0', RUSTFLAGS='-Cdebug-assertions=off -Coverflow-checks=off')
        env.pop('RUSTC_WRAPPER', None)
        for pat in ('.fingerprint', 'build'):
            for d in glob.glob(os.path.join(tgt, '*', pat, 'bfffs-pool*')):
                shutil.rmtree(d, ignore_errors=True)
        log = os.path.join(CACHE, 'pool.log')
        if _run(['cargo', '+nightly', 'check', '--offline'], shadow, env, log) or not os.path.exists(os.path.join(out, 'bfffs_pool.json')):
            raise BuildFailed('the grammar does not compile:\n' + _tail(log, 40))
        made = glob.glob(os.path.join(tgt, '**', 'bfffs-pool*', '**', 'pool_create_parser.rs'), recursive=True)
        if len(made) != 1:
            raise BuildFailed(f'the grammar compiler wrote {made}')
        shutil.copy(made[0], os.path.join(out, 'parser.rs'))
        open(os.path.join(out, 'done'), 'w').close()
        return out


def load_pool():
    d = ensure_pool()
    return Prog([os.path.join(d, 'bfffs_pool.json')]), open(os.path.join(d, 'parser.rs')).read()


def load():
    d = ensure()
    return Prog([os.path.join(d, 'bfffs_core.json'), os.path.join(d, 'bfffs_isa_l.json')])


if __name__ == '__main__':
    try:
        print(ensure())
        try:
            print(ensure_pool())
        except BuildFailed as e:
            # only C06 needs it, and says so itself
            print(e, file=sys.stderr)
    except BuildFailed as e:
        print(e, file=sys.stderr)
        sys.exit(2)
