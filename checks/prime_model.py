"""The PRIME-S layout as polynomials over the parameters of a layout and the position of a chunk in it.

A chunk is given by mixed-radix digits: repetition R, iteration Z < N-1, stripe of the iteration t < N and position in the
stripe c < M (data) or M+i, i < F (parity).  With these the quotients and residues the code computes have closed forms.
"""
import itertools
from engine.interp import Interp, St, Loop
from engine.mir import Missing
from engine.models import R
from engine.terms import *

MOD = 'raid::prime_s::'
CHUNKID, CHUNKLOC = 'raid::declust::ChunkId', 'raid::declust::Chunkloc'
MAXN = 215


class Layout:
    def __init__(self, ctx, helpers=True, **kw):
        self.ctx = ctx
        self.I = I = ctx.interp(**kw)
        s = self.sym
        self.P, self.M, self.F = s('P', 1, MAXN - 1), s('M', 1, MAXN - 2), s('F', 1, MAXN - 2)
        self.R, self.Z, self.t = s('R', 0, 1 << 36), s('zZ', 0, MAXN - 2), s('zt', 0, MAXN - 1)
        self.c, self.i = s('zc', 0, MAXN - 3), s('zi', 0, MAXN - 3)
        self.N, self.K = add(self.P, 1), add(self.M, self.F)
        if helpers:
            for b in inverses(ctx):
                I.hooks[b['path']] = self.inv
            for b in primality(ctx):
                I.hooks[b['path']] = lambda I, st, c: R(st, 1)

    def sym(self, n, lo, hi):
        v = ('s', n)
        self.I.ty[v] = (lo, hi)
        return v

    def inv(self, I, st, c):
        v = ('inv', c.args[0], c.args[1])
        I.ty[v] = (0, MAXN - 1)
        return R(st, v)

    def facts(self, st):
        for q in (sub(self.P, self.Z), sub(self.N, self.t), sub(self.M, self.c), sub(self.F, self.i), add(sub(self.N, self.K), 1)):
            self.I.assume(st, lt(0, q))
        return st

    def locator(self):
        """(state, reference to a layout as PrimeS::new makes it)"""
        b = self.ctx.P.method(MOD + 'PrimeS', 'new')
        outs = self.I.run(b, [self.N, self.K, self.F], self.facts(St()))
        rets = [o for o in outs if o.kind == 'ret']
        if len(outs) != 1 or len(rets) != 1:
            raise Missing(f'{len(rets)} of {len(outs)} outcomes of PrimeS::new on a valid layout return')
        st = rets[0].st
        return st, self.I.alloc(st, rets[0].val)

    def stripe(self):
        return add(mul(add(mul(self.R, self.P), self.Z), self.N), self.t)

    def data(self, c=None):
        return ('agg', CHUNKID, 'Data', (('0', add(mul(self.stripe(), self.M), self.c if c is None else c)),))

    def parity(self, i=None):
        return ('agg', CHUNKID, 'Parity', (('0', mul(self.stripe(), self.M)), ('1', self.i if i is None else i)))

    def b(self, kind):
        return self.c if kind == 'Data' else add(self.M, self.i)

    def disk(self, st, kind):
        s = add(mul(self.Z, self.N), self.t)
        return self.I.mod(st, mul(add(mul(s, self.M), self.b(kind)), add(self.Z, 1)), self.N)


def inverses(ctx):
    """The functions that compute a modular inverse, judged by what they do."""
    out = []
    for b in ctx.P.fns(lambda b: b['path'].startswith(MOD) and b['argc'] == 2 and not b.get('self')):
        try:
            if inverse(ctx, b):
                out.append(b)
        except Exception:
            continue
    return out


def inverse(ctx, b):
    """b(a, n) returns x in [0, n) with a*x = 1 mod n, for a prime n > a > 0: extended Euclid's invariants."""
    I = ctx.interp()
    a, n = ('s', 'a'), ('s', 'N')
    I.ty[a], I.ty[n] = (1, MAXN - 1), (2, MAXN)
    st = St()
    I.assume(st, lt(a, n))
    outs = [o for o in I.exec_body(b, [a, n], st, ['i16'] if b.get('gn') else None)]
    ctx.used(I, outs)
    if not outs:
        return False
    for o in outs:
        if o.kind != 'ret':
            return False
        if o.st.facts.get(eq(mod(mul(o.val, a), n), 1)) == 1:
            continue
        loops = [e[1] for e in o.st.effects() if e[0] == 'loop']
        if not any(euclid(I, o, L, a, n) for L in loops):
            return False
    return True


def euclid(I, o, L, a, n):
    locs = [l for l in L.carried if isinstance(L.entry.get(l), (int, tuple))]
    for role in itertools.permutations(locs, 4):
        t, r, t2, r2 = [L.carried[l] for l in role]
        e = [L.entry[l] for l in role]
        if mod(sub(mul(e[0], a), e[1]), n) != 0 or mod(sub(mul(e[2], a), e[3]), n) != 0:
            continue
        # the remainders start from n and a
        if {e[1], e[3]} != {a, n}:
            continue
        good = bool(L.iters)
        for it in L.iters:
            nt, nr, nt2, nr2 = [it[3].get(l, L.carried[l]) for l in role]

            def inv(x, y):
                d = sub(mul(x, a), y)
                d = subst(d, lambda v: sub(mul(t, a), mul(n, ('s', 'u1'))) if v == r else sub(mul(t2, a), mul(n, ('s', 'u2'))) if v == r2 else None)
                return mod(d, n) == 0
            # the pair of remainders stays coprime and decreases: (r, r2) -> (r2, r mod r2)
            q = [x for x in subterms(nr2) if isinstance(x, tuple) and x and x[0] in ('tdiv', 'div') and x[1:] == (r, r2)]
            step = nr == r2 and (nr2 == ('mod', r, r2) or nr2 == ('trem', r, r2) or (q and nr2 == sub(r, mul(r2, q[0]))))
            if not (inv(nt, nr) and inv(nt2, nr2) and step):
                good = False
        if not good:
            continue
        # the loop ends when the second remainder is 0, so the first is 1
        if I.known(o.st, lt(0, r2)) != 0 and I.known(o.st, eq(r2, 0)) != 1:
            continue
        if o.val == t and I.known(o.st, lt(t, 0)) == 0:
            return True
        if o.val == add(t, n) and I.known(o.st, lt(t, 0)) == 1:
            return True
        if o.val == mod(t, n):
            return True
    return False


def primality(ctx):
    out = []
    for b in ctx.P.fns(lambda b: b['path'].startswith(MOD) and b['argc'] == 1 and not b.get('self') and b['locals'][0]['ty'] == 'bool'):
        try:
            if not prime_test(ctx, b):
                out.append(b)
        except Exception:
            continue
    return out


def prime_test(ctx, b):
    """Why b(n), for n <= MAXN, is not a primality test; None if it is one."""
    I = ctx.interp()
    n = ('s', 'N')
    I.ty[n] = (-32768, MAXN)
    outs = I.exec_body(b, [n], St())
    ctx.used(I, outs)
    if not any(o.val == 1 for o in outs) or not any(o.val == 0 for o in outs):
        return 'it does not say both yes and no'
    for o in outs:
        if o.kind != 'ret' or o.val not in (0, 1):
            return f'an outcome is {o.kind} {pp(o.val)}'
        lo, hi = nrange(o.st.facts, n, {})
        # what the path tests: (divisor with the index of a loop substituted, outcome of the test)
        loops = [e[1] for e in o.st.effects() if e[0] == 'loop']
        if o.val == 1:
            if lo < 2:
                return 'numbers below 2 pass'
            if hi <= 3:
                continue
            for p in (2, 3, 5, 7, 11, 13):
                l = max(lo, p * p)
                if l > hi or o.st.facts.get(eq(mod(n, p), 0)) == 0 or any(loop_tests(I, L, n, p, l, hi) for L in loops):
                    continue
                return f'a number from {l} on that {p} divides passes'
        else:
            if hi <= 1:
                continue
            ds = [x for c, v in o.st.facts.items() for x in [divisor(c, n)] if v == 1 and x is not None]
            ok = False
            for d in ds:
                if isinstance(d, int):
                    ok |= d >= 2 and lo > d
                else:
                    for L in loops:
                        ix = index(L)
                        if ix is None or ix[0] not in atoms(d):
                            continue
                        vs = range(ix[1], MAXN + 1, ix[2])
                        good = True
                        for v in vs:
                            dv = subst(d, lambda x: v if x == ix[0] else None)
                            l, h = nrange(o.st.facts, n, {ix[0]: v})
                            if l <= h and not (isinstance(dv, int) and dv >= 2 and l > dv):
                                good = False
                        ok |= good
            if not ok:
                return 'a prime may be rejected'
    return None


def divisor(c, n):
    """d if c is the condition that d divides n."""
    if isinstance(c, tuple) and c[0] == 'eq0':
        x = c[1]
        if isinstance(x, tuple) and x[0] == '+' and len(x[1]) == 1 and abs(x[1][0][1]) == 1 and len(x[1][0][0]) == 1:
            x = x[1][0][0][0]
        if isinstance(x, tuple) and x[0] in ('mod', 'trem') and x[1] == n:
            return x[2]
    return None


def nrange(facts, n, env):
    lo, hi = -32768, MAXN
    for c, v in facts.items():
        if not (isinstance(c, tuple) and c[0] == 'pos'):
            continue
        d = subst(c[1], lambda x: env.get(x)) if env else c[1]
        p = poly(d)
        if set(p) - {(), (n,)} or (n,) not in p:
            if isinstance(d, int) and int(d > 0) != v:
                return 1, 0
            continue
        k, m = p.get((), 0), p[(n,)]
        if not v:
            k, m = 1 - k, -m
        # m*n + k > 0
        if m > 0:
            lo = max(lo, -k // m + 1)
        else:
            hi = min(hi, (k - 1) // -m)
    # n == x, n != x
    for c, v in facts.items():
        if isinstance(c, tuple) and c[0] == 'eq0':
            p = poly(subst(c[1], lambda x: env.get(x)) if env else c[1])
            if set(p) <= {(), (n,)} and abs(p.get((n,), 0)) == 1 and v == 1:
                x = -p.get((), 0) * p[(n,)]
                lo, hi = max(lo, x), min(hi, x)
    other = set()
    for c, v in facts.items():
        if isinstance(c, tuple) and c[0] == 'eq0' and v == 0:
            p = poly(subst(c[1], lambda x: env.get(x)) if env else c[1])
            if set(p) <= {(), (n,)} and abs(p.get((n,), 0)) == 1:
                other.add(-p.get((), 0) * p[(n,)])
    while lo in other and lo <= hi:
        lo += 1
    while hi in other and lo <= hi:
        hi -= 1
    return lo, hi


def index(L):
    """(symbol, first value, step) of the index of a loop."""
    for l, s in L.carried.items():
        e = L.entry[l]
        steps = {sub(it[3].get(l, s), s) for it in L.iters}
        if isinstance(e, int) and len(steps) == 1:
            k, = steps
            if isinstance(k, int) and k > 0:
                return s, e, k
    return None


def loop_tests(I, L, n, p, lo, hi):
    """Whether every pass of the loop that finds p a divisor of n in [lo, hi] is left early, and such a pass is made."""
    ix = index(L)
    if ix is None:
        return False
    s, e, step = ix
    for it in L.iters:
        if not any(v == 0 and divisor(c, n) is not None and tests(divisor(c, n), s, e, step, p) is not None for c, v in it[1].items()):
            return False
    # the pass is reached: the guard holds for the index of the pass and all before it
    for c, v in L.iters[0][1].items():
        d = divisor(c, n)
        at = tests(d, s, e, step, p) if d is not None and v == 0 else None
        if at is None:
            continue
        for x in range(e, at + 1, step):
            for it in L.iters:
                for g, gv in it[1].items():
                    if divisor(g, n) is not None or not (isinstance(g, tuple) and g[0] == 'pos'):
                        continue
                    l, h = nrange({g: gv}, n, {s: x})
                    if not (l <= lo and h >= hi):
                        return False
        return True
    return False


def tests(d, s, e, step, p):
    """The index at which the divisor d is p."""
    if isinstance(d, int):
        return e if d == p else None
    k = sub(d, s)
    if not isinstance(k, int):
        return None
    x = p - k
    return x if x >= e and (x - e) % step == 0 else None


def counted(I, o, atom):
    """The loop that accumulates atom: (loop, first index, index symbol, bound), or None."""
    for e in o.st.effects():
        if e[0] != 'loop' or atom not in e[1].carried.values():
            continue
        L = e[1]
        for l, s in L.carried.items():
            if s == atom:
                continue
            steps = {sub(it[3].get(l, s), s) for it in L.iters}
            if len(steps) != 1:
                continue
            k, = steps
            end = o.st.facts.get(('pinned', s))
            if k == 1 and end is not None:
                return L, L.entry[l], s, end, 1
            if k == -1 and end is not None:
                return L, L.entry[l], s, end, -1
    return None


def fty(ctx, v, k):
    a = ctx.P.adts.get(v[1])
    for va in (a or {'variants': []})['variants']:
        for f in va['f']:
            if f[0] == k:
                return f[1]
    return ''


def hook_ones(I, item, seen=None):
    """The item-th member of a bit set, however it is asked for, is `item`; seen collects (state, set, which)."""
    def val(st, x):
        return I.load(st, x) if isinstance(x, tuple) and x[0] == 'ref' else x

    def got(st, x, n):
        if seen is not None:
            seen.append((st, x[1], n))
        return R(st, some(item))

    def nth(I, st, c):
        x = val(st, c.args[0])
        if isinstance(x, tuple) and x[0] == 'ones':
            return got(st, x, add(x[2], c.args[1]))
        return None

    def skip(I, st, c):
        x = val(st, c.args[0])
        return R(st, ('ones', x[1], add(x[2], c.args[1]))) if isinstance(x, tuple) and x[0] == 'ones' else None

    def next_(I, st, c):
        x = val(st, c.args[0])
        return got(st, x, x[2]) if isinstance(x, tuple) and x[0] == 'ones' else None
    I.hooks['fixedbitset::FixedBitSet::ones'] = lambda I, st, c: R(st, ('ones', I.deep(st, c.args[0]), 0))
    I.hooks['std::iter::Iterator::nth'] = nth
    I.hooks['std::iter::Iterator::skip'] = skip
    I.hooks['std::iter::Iterator::next'] = next_
