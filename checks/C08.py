"""PRIME-S: no arithmetic of the layout overflows its type, for any valid layout and chunk."""
from checks.prime_model import *
from engine.interp import int_range
from checks.C07 import parameters

META = {
    'level': 'other',
    'explanation': 'Interval and polynomial-inequality analysis over MIR: PrimeS::new, id2loc, loc2id, iter, next and the accessors are interpreted '
                   'abstractly for a symbolic valid layout and a chunk given by symbolic mixed-radix digits; every addition, subtraction, '
                   'multiplication, negation and narrowing cast met on any path must have a result within its type. Sums accumulated by loops are '
                   'bounded by the trip count times the largest step.',
    'assumptions': ['entries of the offset table of an iterator are below the number of rows of a repetition (C09)', 'chunk numbers below 2^59',
                    'the values of the extended Euclidean algorithm on (a, n) do not exceed n in magnitude; trial division is only relied on for n <= 215'],
}
OPS = ('Add', 'Sub', 'Mul', 'Neg', 'Shl')


class Watch:
    def __init__(self, ctx, L, what):
        self.ctx, self.L, self.what, self.n, self.late = ctx, L, what, 0, []
        L.I.on_arith = self.arith
        L.I.hooks['cast'] = lambda st, v, frm, to, body, line: self.see(st, 'cast from ' + frm, to, v, body, line)

    def arith(self, st, op, ty, a, b, r, body, line):
        if op.replace('WithOverflow', '').replace('Unchecked', '') in OPS:
            self.see(st, op, ty, r, body, line)

    def see(self, st, op, ty, r, body, line):
        rg = int_range(ty)
        if rg is None or not isinstance(r, (int, tuple)) or isagg(r):
            return
        self.n += 1
        where = f'{fn(body)}: {op} {ty}'
        if self.fits(st, r, rg):
            self.ctx.ob('no-overflow', where, True)
        else:
            self.late.append((st.copy(), where, r, rg))

    def fits(self, st, r, rg):
        I = self.L.I
        for x in subterms(r):
            # an entry of the table of offsets of an iterator
            if isinstance(x, tuple) and len(x) == 3 and x[0] == '.' and isinstance(x[2], tuple) and x[2] and x[2][0] == '[]':
                I.ty[x] = (0, MAXN * (MAXN - 1))
        lo, hi = I.rng(r, st)
        if lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]:
            return True
        return I.known(st, lt(r, add(rg[1], 1))) == 1 and I.known(st, lt(sub(rg[0], 1), r)) == 1

    def done(self, outs):
        """Settle what depends on the number of passes of a loop."""
        I = self.L.I
        for o in outs:
            bound(I, o.st.facts, o.st, [e[1] for e in o.st.effects() if e[0] == 'loop'])
        for st, where, r, rg in self.late:
            self.ctx.ob('no-overflow', where, self.fits(st, r, rg), f'{pp(r)[:200]} ranges over {I.rng(r, st)}, outside {rg}')
        self.late = []


def fn(body):
    return body['path'].split('::', 2)[-1] if body else '?'


def bound(I, facts, st, loops):
    for L in loops:
        trips = None
        for l, y in L.carried.items():
            ds = {sub(it[3].get(l, y), y) for it in L.iters}
            end = facts.get(('pinned', y))
            if end is not None and ds in ({1}, {-1}):
                n = I.rng(sub(end, L.entry[l]) if ds == {1} else sub(L.entry[l], end), st)[1]
                trips = n if trips is None else trips
        for l, y in L.carried.items():
            if trips is None or I.ty.get(y).__class__ is tuple or not isinstance(y, tuple):
                continue
            e = I.rng(L.entry[l], st) if isinstance(L.entry[l], (int, tuple)) and not isagg(L.entry[l]) else (None, None)
            ds = []
            for it in L.iters:
                v = it[3].get(l, y)
                ds.append(I.rng(sub(v, y), st) if isinstance(v, (int, tuple)) and not isagg(v) else (None, None))
            if e[0] is None or e[1] is None or any(x is None for d in ds for x in d) or not ds:
                continue
            I.ty[y] = (e[0] + trips * min(0, min(d[0] for d in ds)), e[1] + trips * max(0, max(d[1] for d in ds)))
        for it in L.iters:
            bound(I, it[1], st, [e[1] for e in it[2] if e[0] == 'loop'])


def run(ctx):
    P = ctx.P
    n = 0

    def go(what, f):
        nonlocal n
        with ctx.rule('no-overflow', what):
            L = Layout(ctx)
            w = Watch(ctx, L, what)
            st, ref = L.locator()
            outs = f(L, st, ref)
            ctx.used(L.I, outs)
            w.done(outs)
            n += w.n
            ctx.count('operations_bounded', w.n)
    loc = lambda m: P.method(MOD + 'PrimeS', m, 'Locator')
    for kind in ('Data', 'Parity'):
        x = lambda L: L.data() if kind == 'Data' else L.parity()
        go(f'id2loc({kind})', lambda L, st, ref: L.I.run(loc('id2loc'), [ref, x(L)], st))
        go(f'iter({kind})', lambda L, st, ref: L.I.run(loc('iter'), [ref, x(L), ('s', 'end')], st))
        go(f'next({kind})', lambda L, st, ref: next_(ctx, L, st, ref, x(L)))
    go('loc2id', lambda L, st, ref: loc2id(ctx, L, st, ref))
    for m in ('datachunks', 'depth', 'disks', 'protection', 'stripesize'):
        go(m, lambda L, st, ref: L.I.run(loc(m), [ref], st))
    with ctx.rule('limits', 'PrimeS::new'):
        parameters(ctx)
    ctx.floor('no-overflow', 'operations bounded', n, 60)


def next_(ctx, L, st, ref, x):
    I = L.I
    outs = I.run(ctx.P.method(MOD + 'PrimeS', 'iter', 'Locator'), [ref, x, ('s', 'end')], st)
    res = []
    for o in outs:
        O = ('s', 'O')
        o.st.facts[eq(('len', O), L.N)] = 1
        val = I.deep(o.st, o.val)
        obj = ('agg', val[1], val[2], tuple((k, O if 'Vec<' in fty(ctx, val, k) else v) for k, v in val[3]))
        res += I.run(ctx.P.method(MOD + 'PrimeSIter', 'next', 'Iterator'), [I.alloc(o.st, obj)], o.st)
    return outs + res


def loc2id(ctx, L, st, ref):
    I = L.I
    o, d, nth = ('s', 'zo'), ('s', 'disk'), ('s', 'nth')
    for v in (o, d, nth):
        I.ty[v] = (0, MAXN - 1)

    hook_ones(I, nth)
    for q in (sub(L.K, o), sub(L.N, d), sub(L.N, nth)):
        I.assume(st, lt(0, q))
    row = add(mul(add(mul(L.R, L.P), L.Z), L.K), o)
    return I.run(ctx.P.method(MOD + 'PrimeS', 'loc2id', 'Locator'), [ref, ('agg', CHUNKLOC, '', (('disk', d), ('offset', row)))], st)
