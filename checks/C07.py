"""PRIME-S: where a chunk is, and which chunk is somewhere."""
from checks.prime_model import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with polynomial normal forms: PrimeS::new is interpreted on symbolic parameters, then id2loc on '
                   'a chunk given by symbolic mixed-radix digits and loc2id on a symbolic location, for all parameters and digits at once. The disk and '
                   'offset must equal, as normal forms, the formulas of the PRIME-S layout (doc/prime-s.tex), including the '
                   'sum over the parity positions; the helper functions are judged by loop invariants (extended Euclid, trial division); '
                   'and new must refuse exactly the parameters the formulas are not valid for.',
    'assumptions': ['the formulas of doc/prime-s.tex are a bijection between chunks and locations (proved there)', 'FixedBitSet iterates its elements in ascending order',
                    'chunk numbers below 2^60'],
}


def offset(L, st, kind):
    """The offset without the contribution of the parity chunks of the same iteration."""
    s = add(mul(L.Z, L.N), L.t)
    o0 = L.I.fdiv(st, add(mul(s, L.M), L.b(kind)), L.N)
    return add(add(mul(L.R, mul(L.K, L.P)), o0), mul(L.F, L.Z))


def run(ctx):
    P = ctx.P
    with ctx.rule('helpers', MOD):
        ctx.ob('modular-inverse', MOD, bool(inverses(ctx)), 'no function of the module is recognised as computing the inverse mod n by the invariants of Euclid\'s algorithm')
        cands = P.fns(lambda b: b['path'].startswith(MOD) and b['argc'] == 1 and not b.get('self') and b['locals'][0]['ty'] == 'bool')
        why = [w for w in (prime_test(ctx, b) for b in cands)]
        ctx.ob('primality-test', MOD, any(w is None for w in why), '; '.join(str(w) for w in why) or 'there is none')

    with ctx.rule('parameters', 'PrimeS::new'):
        parameters(ctx)

    for kind in ('Data', 'Parity'):
        with ctx.rule('location', f'id2loc({kind})'):
            L = Layout(ctx)
            st, ref = L.locator()
            m = P.method(MOD + 'PrimeS', 'id2loc', 'Locator')
            outs = L.I.run(m, [ref, L.data() if kind == 'Data' else L.parity()], st)
            ctx.used(L.I, outs)
            where = f'id2loc({kind})'
            ctx.ob('returns', where, bool(outs) and all(o.kind == 'ret' for o in outs), 'it panics on a valid chunk')
            for o in outs:
                if o.kind == 'ret':
                    location(ctx, L, o, kind, where)

    with ctx.rule('inverse', 'loc2id'):
        loc2id(ctx)

    with ctx.rule('accessors', 'Locator'):
        L = Layout(ctx)
        want = {'datachunks': mul(mul(L.N, L.P), L.M), 'depth': mul(L.K, L.P), 'disks': L.N, 'protection': L.F, 'stripesize': L.K}
        for name, w in want.items():
            st, ref = L.locator()
            outs = L.I.run(P.method(MOD + 'PrimeS', name, 'Locator'), [ref], st)
            ctx.used(L.I, outs)
            ctx.ob('accessor', name, len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val == w,
                   f'{name} is {[pp(o.val) for o in outs]}, expected {pp(w)}')


def parameters(ctx):
    """new returns exactly for prime n <= 215, 1 < k <= n, 0 < f < k."""
    I = ctx.interp()
    N, K, F = ('s', 'N'), ('s', 'K'), ('s', 'F')
    for x in (N, K, F):
        I.ty[x] = 'i16'
    for b in inverses(ctx):
        I.hooks[b['path']] = lambda I, st, c: R(st, ('inv',) + tuple(c.args))
    pr = ('s', 'prime')
    I.ty[pr] = (0, 1)

    def prime(I, st, c):
        if c.args[0] != N:
            return None
        return R(st, not_(eq(pr, 0)))
    for b in primality(ctx):
        I.hooks[b['path']] = prime
    valid = [not_(eq(pr, 0)), lt(N, MAXN + 1), lt(1, K), not_(lt(N, K)), lt(0, F), lt(F, K)]
    outs = I.run(ctx.P.method(MOD + 'PrimeS', 'new'), [N, K, F])
    ctx.used(I, outs)
    names = ['a composite number of disks', 'more than 215 disks', 'a stripe of one disk', 'a stripe wider than the array', 'no redundancy',
             'as much redundancy as the stripe is wide']
    n = 0
    for o in outs:
        if o.kind == 'ret':
            n += 1
            for c, what in zip(valid, names):
                ctx.ob('refuses', 'PrimeS::new', I.known(o.st, c) == 1, f'new accepts {what}')
        else:
            s = o.st.copy()
            ok = all(I.assume(s, c) for c in valid)
            ctx.ob('accepts', 'PrimeS::new', not ok, f'new panics on a valid layout: {pp(o.val)[:80]}')
    ctx.floor('parameters', 'returning paths', n, 1)


def location(ctx, L, o, kind, where):
    I, st = L.I, o.st
    f = dict(o.val[3]) if isagg(o.val) else {}
    disk, off = f.get('disk'), f.get('offset')
    want = L.disk(st, kind)
    ctx.ob('disk', where, disk == want, f'the disk is {pp(disk)[:300]}, expected {pp(want)[:300]}')
    rest = sub(off, offset(L, st, kind))
    # what is left must be the number of parity chunks of this iteration that precede the stripe on this disk
    p = poly(rest)
    accs = [m[0] for m in p if len(m) == 1 and p[m] == 1]
    if not ctx.ob('offset', where, len(p) == 1 and len(accs) == 1, f'the offset differs from the formula by {pp(rest)[:300]} where a sum over the parity chunks is expected'):
        return
    y_inv = ('inv', add(L.Z, 1), L.N)
    m_inv = ('inv', L.M, L.N)
    cnt = counted(I, o, accs[0])
    if not ctx.ob('offset-sum', where, cnt is not None, f'{pp(accs[0])} is not accumulated by a counted loop'):
        return
    loop, e0, ix, end, step = cnt
    if step < 0:
        ctx.ob('offset-range', where, add(sub(e0, end), 0) == L.F, f'the sum over the parity chunks has {pp(sub(e0, end))} terms, expected {pp(L.F)}')
    else:
        ctx.ob('offset-range', where, sub(end, e0) == L.F, f'the sum over the parity chunks has {pp(sub(end, e0))} terms, expected {pp(L.F)}')
    al = [l for l, s in loop.carried.items() if s == accs[0]][0]
    ctx.ob('offset-sum', where, loop.entry[al] == 0, f'the sum starts from {pp(loop.entry[al])}')

    def cond(j):
        x = I.mod(st, sub(mul(sub(mul(want, y_inv), j), m_inv), 1), L.N)
        return lt(x, L.t)
    bad = []
    for js in ([sub(ix, e0), sub(sub(L.F, 1), sub(ix, e0))] if step > 0 else [sub(ix, end), sub(sub(ix, end), 1), sub(e0, ix), sub(sub(e0, ix), 1)]):
        bad = []
        for it in loop.iters:
            s = loop.state(it)
            d = sub(it[3].get(al, loop.carried[al]), loop.carried[al])
            k = I.known(s, cond(js))
            if k is None or d != k:
                bad.append((pp(d), k))
        if not bad and loop.iters:
            break
    ctx.ob('offset-term', where, not bad and bool(loop.iters), f'a parity chunk counts {bad[:2]} (counted, whether it precedes): expected to count iff '
           f'its stripe is before this one')
    ctx.count('sum_iterations_analysed', len(loop.iters))


def loc2id(ctx):
    L = Layout(ctx)
    I = L.I
    o = ('s', 'zo')
    d = ('s', 'disk')
    I.ty[o], I.ty[d] = (0, MAXN - 1), (0, MAXN - 1)
    nth = ('s', 'nth')
    I.ty[nth] = (0, MAXN - 1)
    seen = []

    hook_ones(I, nth, seen)
    st, ref = L.locator()
    for q in (sub(L.K, o), sub(L.N, d), sub(L.N, nth)):
        I.assume(st, lt(0, q))
    row = add(mul(add(mul(L.R, L.P), L.Z), L.K), o)
    loc = ('agg', CHUNKLOC, '', (('disk', d), ('offset', row)))
    outs = I.run(ctx.P.method(MOD + 'PrimeS', 'loc2id', 'Locator'), [ref, loc], st)
    ctx.used(I, outs)
    w = 'loc2id'
    ctx.ob('returns', w, bool(outs) and all(x.kind == 'ret' for x in outs), 'it panics on a valid location')
    y_inv, m_inv = ('inv', add(L.Z, 1), L.N), ('inv', L.M, L.N)
    s = add(nth, mul(L.N, L.Z))
    first = mul(add(mul(mul(L.R, L.P), L.N), s), L.M)
    kinds = set()
    for x in outs:
        if x.kind != 'ret':
            continue
        b = I.mod(x.st, sub(mul(d, y_inv), mul(s, L.M)), L.N)
        v = x.val
        k = v[2] if isagg(v) else None
        kinds.add(k)
        f = dict(v[3]) if isagg(v) else {}
        isdata = I.known(x.st, lt(b, L.M))
        ctx.ob('kind', w, isdata is not None and k == ('Data' if isdata else 'Parity'), f'a location whose position in the stripe is {"below" if isdata else "not below"} m is {k}')
        if k == 'Data':
            ctx.ob('address', w + '(Data)', f.get('0') == add(first, b), f'the data chunk is {pp(f.get("0"))[:300]}, expected {pp(add(first, b))[:300]}')
        else:
            ctx.ob('address', w + '(Parity)', f.get('0') == first, f'the stripe of the parity chunk is {pp(f.get("0"))[:300]}, expected {pp(first)[:300]}')
            ctx.ob('parity-index', w, f.get('1') == sub(b, L.M), f'the index of the parity chunk is {pp(f.get("1"))[:300]}, expected {pp(sub(b, L.M))[:300]}')
        stripes(ctx, L, x, d, y_inv, m_inv, seen, o)
    ctx.ob('kind', w, kinds == {'Data', 'Parity'}, f'loc2id returns only {kinds}')


def stripes(ctx, L, x, d, y_inv, m_inv, seen, o):
    """The stripe is the o-th of the stripes with a chunk on the disk in the iteration."""
    I, w = L.I, 'loc2id'
    ctx.ob('stripe-rank', w, bool(seen) and all(n == o for _, _, n in seen), f'the stripe is picked by {[pp(n) for _, _, n in seen]}, expected the row within the iteration')
    loops = [e[1] for e in x.st.effects() if e[0] == 'loop']
    good = None
    for lp in loops:
        for it in lp.iters:
            ins = [e for e in it[2] if e[0] == 'call' and e[1].split('::')[-1] in ('insert', 'put', 'set') and 'FixedBitSet' in e[1]]
            if not ins:
                continue
            good = len(lp.iters) == 1 and len(ins) == 1
            for l, sy in lp.carried.items():
                stp = sub(it[3].get(l, sy), sy)
                end = x.st.facts.get(('pinned', sy))
                if stp in (1, -1) and end is not None:
                    e0 = lp.entry[l]
                    n = sub(end, e0) if stp == 1 else sub(e0, end)
                    good &= n == L.K
                    cands = [sub(sy, e0), sub(sub(L.K, 1), sub(sy, e0))] if stp == 1 else [sub(sy, end), sub(sub(sy, end), 1)]
                    vals = [I.mod(x.st, mul(sub(mul(d, y_inv), j), m_inv), L.N) for j in cands]
                    good &= ins[0][2][1] in vals
                    break
            else:
                good = False
    ctx.ob('stripe-set', w, bool(good), 'the stripes considered are not those with a chunk on this disk in this iteration')
