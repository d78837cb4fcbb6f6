#!/usr/bin/env python3
"""Sensitivity and robustness of the checks: applies each small change of tools/mutants/<name>.py to a scratch copy of /repo and runs
the checks on it.  Entries: (expectation, check ids, file, old text, new text); expectation 'bad' (some check reports) or 'same' (none does)."""
import concurrent.futures as cf
import importlib.util
import os
import queue
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = '/tmp/bfxmut'


def slot(i):
    d = f'{BASE}/{i}'
    if not os.path.exists(d + '/cache'):
        os.makedirs(d, exist_ok=True)
        shutil.copytree(HERE + '/../.cache', d + '/cache', symlinks=True)
        # the crates are identified by path: let cargo rebuild what it must
    return d


def one(m, slots):
    exp, ids, f, old, new = m
    d = slots.get()
    try:
        r = d + '/repo'
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', r + '/'], check=True) if shutil.which('rsync') else \
            (shutil.rmtree(r, ignore_errors=True), subprocess.run(['cp', '-a', '/repo', r], check=True))
        p = f'{r}/{f}'
        s = open(p).read()
        for a, b in ((old, new),) if isinstance(old, str) else old:     # one edit, or several
            if a.startswith('re:'):                                     # everywhere
                s, k = re.subn(a[3:], b, s)
                if not k:
                    return m, 'NOTFOUND', a[:80]
                continue
            if s.count(a) < 1:
                return m, 'NOTFOUND', a[:80]
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        res = {}
        for c in ids.split():
            q = subprocess.run([sys.executable, HERE + '/../check.py', c], capture_output=True, text=True,
                               env=dict(os.environ, BFX_REPO=r, BFX_CACHE=d + '/cache', BFX_EVIDENCE=d, BFX_FIRST='1'))
            out = [x for x in (q.stdout + q.stderr).splitlines() if x.strip()]
            res[c] = (q.returncode, out[-1][:200] if q.returncode not in (0, 1) else '; '.join(x[:230] for x in out if x.startswith('  '))[:460])
        bad = any(rc == 1 for rc, _ in res.values())
        err = any(rc not in (0, 1) for rc, _ in res.values())
        v = 'BUILD' if err else 'caught' if bad and exp == 'bad' else 'MISSED' if exp == 'bad' else 'FALSE-ALARM' if bad else 'quiet'
        return m, v, ' | '.join(f'{c}: {t}' for c, (rc, t) in res.items() if rc)
    finally:
        slots.put(d)


def main():
    spec = importlib.util.spec_from_file_location('m', f'{HERE}/mutants/{sys.argv[1]}.py')
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ms = mod.MUTS
    if len(sys.argv) > 2:
        ms = [ms[int(x)] for x in sys.argv[2:]]
    slots = queue.Queue()
    n = min(6, len(ms))
    for i in range(n):
        slots.put(slot(i))
    verbose = os.environ.get('V')
    with cf.ThreadPoolExecutor(n) as ex:
        for i, (m, v, t) in enumerate(ex.map(lambda m: one(m, slots), ms)):
            print(f'{i:3} {v:12} {m[1]} {(m[4] or (m[3] if isinstance(m[3], str) else m[3][0][1])).strip()[:70]!r}' + (f'\n        {t}' if v != 'quiet' and (verbose or v not in ('caught',)) else ''), flush=True)


main()
