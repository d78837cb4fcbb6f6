#!/usr/bin/env python3
"""Decides one property of the source in /repo: check.py <property> [quick|thorough]"""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import facts  # noqa: E402
from engine.report import Ctx  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = importlib.util.spec_from_file_location('check_' + prop, os.path.join(HERE, 'checks', prop + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    try:
        P = facts.load()
    except facts.BuildFailed as e:
        # Nothing is known of a tree that does not build, not even that the property fails.
        print(e, file=sys.stderr)
        return 2
    ctx = Ctx(P, prop, tier, seed)
    with ctx.rule('check', prop):
        mod.run(ctx)
    return ctx.finish(mod.META)


if __name__ == '__main__':
    sys.exit(main())
