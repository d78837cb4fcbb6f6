#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description: plant.py FILE.py, whose PLANTS lists
(id, property, file, [(old, new)...], needs, what_it_breaks, main.rs text, dependencies of the demo)."""
import importlib.util
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs main.rs against the tree in the current directory; exits 0 if the property held on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
sed "s|@REPO@|$repo|g" "$here/main.rs" > "$tmp/src/main.rs"
sed "s|@REPO@|$repo|g" "$here/Cargo.demo" > "$tmp/Cargo.toml"
[ -e /opt/vp/ws/gen/Cargo.lock ] && cp /opt/vp/ws/gen/Cargo.lock "$tmp/Cargo.lock"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$tmp" && cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 100 target/debug/demo
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[profile.dev]
debug = 0
{profile}
[dependencies]
{deps}
'''


def main():
    spec = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    only = sys.argv[2:]
    for pid, prop, edits, needs, breaks, src, deps in mod.PLANTS:
        if only and pid not in only:
            continue
        d = f'{V}/seeded/{pid}'
        os.makedirs(d, exist_ok=True)
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
        for f, old, new in edits:
            s = open(f'/repo/{f}').read()
            assert s.count(old) == 1, (pid, s.count(old), old)
            open(f'/repo/{f}', 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(src.lstrip('\n'))
        prof = 'overflow-checks = false\ndebug-assertions = false\n' if 'RELEASE' in src else ''
        open(d + '/Cargo.demo', 'w').write(TOML.replace('{deps}', deps).replace('{profile}', prof))
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print('made', pid)


main()
