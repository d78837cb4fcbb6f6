"""PRIME-S: iterating over a range of chunks gives the locations id2loc gives, in order."""
from checks.prime_model import *
from checks.tables import filled, loops_of

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with polynomial normal forms. The iterator made for a symbolic chunk x is stepped once, separately for '
                   'each way the mixed-radix digits of a chunk carry into each other; the step must yield x and its location and leave the iterator '
                   'field by field as if made for the successor of x, for all layouts and chunks at once, which by induction settles every run of the '
                   'iterator. The table of offsets within an iteration is judged as a multiset of increments: one for each chunk of the iteration '
                   'before x, at the disk of that chunk.',
    'assumptions': ['counting the chunks of an iteration before a chunk on its disk gives the offset formula (doc/prime-s.tex)',
                    'every disk holds k chunks of each iteration (doc/prime-s.tex)', 'chunk numbers below 2^60'],
}


def cases(L):
    """(name, kind of chunk, what holds of its digits, those that are last, kind of the successor, its digits)"""
    F1, M1 = sub(L.F, 1), sub(L.M, 1)
    ilast, tlast = {L.i: F1}, {L.t: L.P}
    return [
        ('a data chunk before another', 'Data', [lt(L.c, M1)], {}, 'Data', {L.c: add(L.c, 1)}),
        ('the last data chunk of a stripe', 'Data', [not_(lt(L.c, M1))], {L.c: M1}, 'Parity', {L.i: 0}),
        ('a parity chunk before another', 'Parity', [lt(L.i, F1)], {}, 'Parity', {L.i: add(L.i, 1)}),
        ('the last chunk of a stripe', 'Parity', [not_(lt(L.i, F1)), lt(L.t, L.P)], ilast, 'Data', {L.t: add(L.t, 1), L.c: 0}),
        ('the last chunk of an iteration', 'Parity', [not_(lt(L.i, F1)), not_(lt(L.t, L.P)), lt(L.Z, sub(L.P, 1))], {**ilast, **tlast},
         'Data', {L.Z: add(L.Z, 1), L.t: 0, L.c: 0}),
        ('the last chunk of a repetition', 'Parity', [not_(lt(L.i, F1)), not_(lt(L.t, L.P)), not_(lt(L.Z, sub(L.P, 1)))],
         {**ilast, **tlast, L.Z: sub(L.P, 1)}, 'Data', {L.R: add(L.R, 1), L.Z: 0, L.t: 0, L.c: 0}),
    ]


def put(v, m):
    return subst(v, lambda x: m.get(x))


def run(ctx):
    P = ctx.P
    it = P.method(MOD + 'PrimeS', 'iter', 'Locator')
    nxt = P.method(MOD + 'PrimeSIter', 'next', 'Iterator')
    gen = {}
    for kind in ('Data', 'Parity'):
        with ctx.rule('iter', kind):
            L = Layout(ctx)
            st, ref = L.locator()
            end = ('s', 'end')
            outs = L.I.run(it, [ref, L.data() if kind == 'Data' else L.parity(), end], st)
            ctx.used(L.I, outs)
            ctx.ob('returns', 'iter', len(outs) == 1 and outs[0].kind == 'ret', f'making an iterator has outcomes {[o.kind for o in outs]}')
            gen[kind] = L, ref, outs[0]
            o = outs[0]
            fields = dict(o.val[3])
            vec = [k for k in fields if 'Vec<' in fty(ctx, o.val, k)]
            if not ctx.ob('table', 'PrimeSIter', len(vec) == 1, f'the iterator has {len(vec)} tables'):
                continue
            why = table(L, o, fields[vec[0]], L.b(kind))
            ctx.ob('table', f'iter at {kind}', why is None, f'the table of offsets made for a new iterator: {why}')
    n = 0
    for i in range(6 if len(gen) == 2 else 0):
        L = gen['Data'][0]
        name, kind, given, last, skind, sdig = cases(L)[i]
        for ek in ('Data', 'Parity', 'near'):
            with ctx.rule('step', name):
                n += 1
                step(ctx, gen, nxt, name, kind, given, last, skind, sdig, ek)
    ctx.floor('step', 'cases of a step', n, 18)
    for kind in gen:
        with ctx.rule('end', f'at {kind}'):
            L, ref, o = gen[kind]
            st = o.st.copy()
            val = put(L.I.deep(st, o.val), {('s', 'end'): L.data() if kind == 'Data' else L.parity()})
            r = L.I.alloc(st, val)
            res = L.I.run(nxt, [r], st)
            ctx.used(L.I, res)
            ctx.ob('end', f'next at the end ({kind})', bool(res) and all(q.kind == 'ret' and q.val == NONE for q in res), 'the iterator goes on past its end')
            ctx.ob('fused', f'next at the end ({kind})', bool(res) and all(L.I.deep(q.st, L.I.load(q.st, r)) == val for q in res),
                   'the iterator moves when it is at its end')


def step(ctx, gen, nxt, name, kind, given, last, skind, sdig, ek):
    L, ref, o = gen[kind]
    I = L.I
    s = o.st.copy()
    for g in given:
        I.assume(s, g)
    e0 = ('s', 'ze')
    I.ty[e0] = (0, 1 << 50)
    # an end beyond the successor
    beyond = add(mul(add(L.stripe(), 2), L.M), e0)
    end = ('agg', CHUNKID, 'Data', (('0', beyond),)) if ek == 'Data' else ('agg', CHUNKID, 'Parity', (('0', beyond), ('1', 0)))
    if ek == 'near':
        # an end in the same stripe: the order of addresses is not the order of chunks
        j = ('s', 'zj')
        I.ty[j] = (0, MAXN)
        end = L.parity(j) if kind == 'Data' else L.parity(add(add(L.i, 1), j))
    fields = dict(o.val[3])
    of = [k for k in fields if 'Vec<' in fty(ctx, o.val, k)][0]
    O = ('s', 'O')
    obj = ('agg', o.val[1], o.val[2], tuple((k, O if k == of else put(I.deep(s, v), {('s', 'end'): end})) for k, v in o.val[3]))
    s.facts[eq(('len', O), L.N)] = 1
    I.len_of[O] = L.N
    r = I.alloc(s, obj)
    res = I.run(nxt, [r], s)
    ctx.used(I, res)
    where = f'next at {name}'
    ctx.ob('one-outcome', where, len(res) == 1 and res[0].kind == 'ret', f'next has outcomes {[q.kind for q in res]}')
    G, _, go = gen[skind]
    x = L.data() if kind == 'Data' else L.parity()
    dd = L.disk(s, kind)
    R0 = mul(mul(L.K, L.P), L.R)
    for q in res:
        if q.kind != 'ret':
            continue
        item = q.val[3][0][1] if isagg(q.val) and q.val[2] == 'Some' else None
        got = dict(item[3]) if isagg(item) else {}
        ctx.ob('item', where, got.get('0') == x, f'yields {pp(got.get("0"))[:200]}, expected {pp(x)[:200]}')
        loc = dict(got['1'][3]) if isagg(got.get('1')) else {}
        ctx.ob('item-disk', where, loc.get('disk') == dd, f'on disk {pp(loc.get("disk"))[:200]}, expected {pp(dd)[:200]}')
        off = sub(loc.get('offset', 0), R0)
        if isinstance(off, tuple) and off[0] == 'trunc':
            off = off[2]
        ctx.ob('item-offset', where, off == ('.', O, ('[]', dd)), f'at {pp(off)[:200]} in the repetition, expected the entry of the table for disk {pp(dd)[:100]}')
        after = dict(I.deep(q.st, I.load(q.st, r))[3])
        want = dict(G.I.deep(go.st, go.val)[3])
        for k in want:
            if k == of:
                v = after[k]
                z = filled(q.st, v, loops_of(q.st.effects()), L.N)
                v = v if z is None else ('repeat', z)
                if 'repetition' in name:
                    ctx.ob('table-step', where, isinstance(v, tuple) and v[0] == 'repeat' and v[1] == 0, f'the table becomes {pp(v)[:200]}, expected zeroes')
                else:
                    bump = ('with', O, ((('[]', dd), add(('.', O, ('[]', dd)), 1)),))
                    ok = v == bump or 'iteration' in name and v[0] == 'repeat' and put(v[1], last) == put(mul(L.K, add(L.Z, 1)), last)
                    ctx.ob('table-step', where, ok, f'the table becomes {pp(v)[:300]}, expected one more for disk {pp(dd)[:100]}')
            else:
                a, w = put(after[k], last), put(put(put(want[k], sdig), {('s', 'end'): end}), last)
                ctx.ob('state', where, a == w, f'{k} becomes {pp(a)[:200]}, expected {pp(w)[:200]}')
        ctx.count('fields_compared', len(want))


def increments(L, st, v, loops, out, env):
    """Walk v back to the table it started from, collecting what it was incremented at; None if something else was done to it."""
    while True:
        if isinstance(v, tuple) and v[0] == 'with' and len(v[2]) == 1 and v[2][0][0][0] == '[]':
            k = v[2][0][0]
            if v[2][0][1] != add(('.', v[1], k), 1):
                return f'an entry is set to {pp(v[2][0][1])[:200]}'
            out.append((dict(env), k[1]))
            v = v[1]
            continue
        lp = [(L2, l) for L2 in loops for l, y in L2.carried.items() if y == v]
        if not lp:
            return v
        lp, loc = lp[0]
        if any(e == v for e in env.get('heads', ())):
            return v
        ix = None
        for l, y in lp.carried.items():
            ds = {sub(it[3].get(l, y), y) for it in lp.iters}
            if ds == {1} and st.get(('pinned', y)) is not None:
                ix = (y, lp.entry[l], st[('pinned', y)])
            elif ds == {-1} and st.get(('pinned', y)) is not None:
                # counting down: the element is the one before where the counter is
                ix = (sub(y, 1), st[('pinned', y)], lp.entry[l])
        if ix is None:
            return 'a loop is not counted'
        for it in lp.iters:
            e2 = dict(env)
            e2['ix'] = env.get('ix', ()) + (ix,)
            e2['facts'] = {**env.get('facts', {}), **it[1]}
            e2['heads'] = env.get('heads', ()) + (v,)
            inner = [e[1] for e in it[2] if e[0] == 'loop']
            w = increments(L, it[1], it[3].get(loc, v), inner, out, e2)
            if w != v:
                return w if isinstance(w, str) else f'a pass of a loop makes the table {pp(w)[:200]}'
        v = lp.entry[loc]


def table(L, o, v, b):
    """Why v is not k*Z + the number of chunks of the iteration on each disk before chunk (t, b); None if it is."""
    out = []
    loops = [e[1] for e in o.st.effects() if e[0] == 'loop']
    v0 = increments(L, o.st.facts, v, loops, out, {})
    if isinstance(v0, str):
        return v0
    base = mul(L.K, L.Z)
    if not (v0[0] == 'repeat' and v0[1] == base):
        return f'it starts from {pp(v0)[:200]}, expected {pp(base)}'
    whole = part = False
    for env, idx in out:
        ixs = env['ix']
        inner = ixs[-1]
        s = ixs[0] if len(ixs) == 2 else None
        sv = s[0] if s else L.t
        bv = sub(inner[0], inner[1])
        want = L.I.mod(o.st, mul(add(mul(add(sv, mul(L.Z, L.N)), L.M), bv), add(L.Z, 1)), L.N)
        if idx != want:
            return f'chunk {pp(bv)} of stripe {pp(sv)} is counted on disk {pp(idx)[:200]}, expected {pp(want)[:200]}'
        n = sub(inner[2], inner[1])
        last = None
        if s:
            for c, val in env['facts'].items():
                if c == eq(sv, L.t) or c == eq(L.t, sv):
                    last = val
                elif c == lt(sv, L.t):
                    last = 1 - val
            if s[1] != 0 or s[2] not in (L.t, add(L.t, 1)):
                return f'the stripes counted are from {pp(s[1])} to {pp(s[2])}'
            if s[2] == L.t:
                last = 0
        else:
            last = 1
        if last is None and n == b and n == L.K:
            continue
        if last is None:
            return f'{pp(n)} chunks are counted on the last stripe as on the others'
        if n != (b if last else L.K):
            return f'{pp(n)} chunks of {"the last" if last else "each"} stripe are counted, expected {pp(b if last else L.K)}'
        if last:
            part = True
        else:
            whole = True
    return None if whole and part else 'some of the chunks before are not counted'
