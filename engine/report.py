"""Obligations, violations and evidence of one check."""
import contextlib
import json
import multiprocessing
import os
import sys
import time
import traceback
from .facts import VERIF
from .interp import Interp, Unsupported
from .mir import Missing
from .terms import pp


_job = None


def _part(i):
    """One item, in a process of its own."""
    sys.setrecursionlimit(20000)
    ctx, f, items = _job
    c = Ctx(ctx.P, ctx.prop, ctx.tier, ctx.seed)
    val = None
    with c.rule('share', str(getattr(f, '__name__', ''))):
        val = f(c, items[i])
    return c.viol, c.rules, c.functions, c.paths, c.call_sites, c.unmodelled, c.counts, val


class Ctx:
    def __init__(self, prog, prop, tier, seed):
        self.P, self.prop, self.tier, self.seed = prog, prop, tier, seed
        self.t0 = time.time()
        self.viol = {}
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.call_sites = 0
        self.unmodelled = {}
        self.counts = {}
        self.notes = []

    # ---- obligations

    def ob(self, rule, where, ok, msg='', detail=None):
        """One obligation of a rule; a failed one is a violation at `where` (a function or construct, never a line)."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
        else:
            self.violation(rule, where, msg, detail)
        return ok

    def violation(self, rule, where, msg, detail=None):
        self.rules.setdefault(rule, [0, 0])
        key = f'{rule}@{where}'
        if key not in self.viol:
            self.viol[key] = {'rule': rule, 'where': where, 'message': msg, 'detail': detail}

    @contextlib.contextmanager
    def rule(self, name, where=''):
        """Fails closed: a rule whose anchors are gone or that the analysis cannot follow is not established."""
        try:
            yield
        except Missing as e:
            self.violation('unestablished', f'{name}@{where}', f'an anchor of the rule is gone: {e}')
        except Unsupported as e:
            self.violation('unestablished', f'{name}@{where}', f'the analysis cannot follow the code: {e}')
        except RecursionError as e:
            self.violation('unestablished', f'{name}@{where}', 'the analysis does not terminate on the code')
        except Exception as e:
            self.violation('unestablished', f'{name}@{where}', f'{type(e).__name__}: {e}', traceback.format_exc())

    def floor(self, rule, what, n, least):
        """A rule that applies to fewer places than it was written for decides nothing."""
        self.ob('coverage', f'{rule}:{what}', n >= least, f'{rule} found {n} {what}, expected at least {least}')

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def interp(self, **kw):
        return Interp(self.P, **kw)

    def used(self, I, outs=()):
        self.functions |= I.visited
        self.call_sites += I.calls_seen
        I.calls_seen = 0
        self.paths += len(outs)
        for k, v in I.opaque_seen.items():
            self.unmodelled[k] = max(self.unmodelled.get(k, 0), v)

    def share(self, f, items, workers=6):
        """f(ctx, item) for every item, in several processes; what each establishes is added up in the order of the items. The values of f are returned."""
        global _job
        items = list(items)
        _job = (self, f, items)
        with multiprocessing.get_context('fork').Pool(min(workers, os.cpu_count() or 1)) as pool:
            got = pool.map(_part, range(len(items)), chunksize=1)
        out = []
        for viol, rules, functions, paths, sites, unmodelled, counts, val in got:
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            for k, (a, b) in rules.items():
                r = self.rules.setdefault(k, [0, 0])
                r[0] += a
                r[1] += b
            self.functions |= functions
            self.paths += paths
            self.call_sites += sites
            for k, v in unmodelled.items():
                self.unmodelled[k] = max(self.unmodelled.get(k, 0), v)
            for k, v in counts.items():
                self.count(k, v)
            out.append(val)
        return out

    # ---- the end of a run

    def known(self):
        kf = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(kf):
            return {}
        return {e['key']: e['what'] for e in json.load(open(kf))['findings'] if e['property'] == self.prop}

    def enough(self):
        """Whether one violation is enough (for the sensitivity runs of tools/mut.py, which set BFX_FIRST) and there is one."""
        return bool(os.environ.get('BFX_FIRST')) and bool(set(self.viol) - set(self.known()))

    def finish(self, meta):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        obs = sum(r[0] for r in self.rules.values())
        dis = sum(r[1] for r in self.rules.values())
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': meta['level'],
            'coverage': {
                'explanation': meta['explanation'],
                'obligations': obs, 'discharged': dis,
                'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(self.rules.items())},
                'functions_analysed': sorted(self.functions),
                'function_count': len(self.functions),
                'paths': self.paths, 'call_sites': self.call_sites,
                'calls_left_opaque': self.unmodelled,
                'bodies_in_program': len(self.P.bodies) if self.P else 0,
                **self.counts,
            },
            'assumptions': meta.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
            'known_findings': sorted(k for k in self.viol if k in known),
            'samples': self.notes[:12],
        }
        d = os.environ.get('BFX_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for k in sorted(self.viol):
            if k in known:
                print(f'KNOWN-FINDING: property={self.prop} {known[k]} [{k}]')
        if new:
            rp = os.path.join(d, self.prop + '.violations.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'violations': new}, f, indent=1, default=str)
                f.write('\n')
            for k, v in list(new.items())[:20]:
                print(f'  {v["rule"]}: {v["where"]}: {v["message"]}'[:900])
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        print(f'{self.prop}: {dis}/{obs} obligations hold; {len(self.functions)} functions, {self.paths} paths')
        return 0
