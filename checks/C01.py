"""Writeback credit is neither created nor destroyed, in any interleaving."""
from engine.terms import *
from engine.interp import St
from checks.wb_model import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with every atomic read of shared memory giving a fresh unknown, so that what is derived holds '
                   'under any interleaving. On every path of every function of the accountant, and on every iteration of its loops, the '
                   'changes made to the supply word plus credit handed out less credit taken in must be the zero polynomial; credit '
                   'is handed out only after a reservation that the same atomic operation showed to be covered; the credit operations are '
                   'compared with their specification as polynomials; and no code outside the module constructs or writes credit.',
    'assumptions': ['an atomic read-modify-write is atomic', 'a borrower that was granted credit takes it (its future is not dropped between the grant and its '
                    'next poll)', 'amounts fit in isize'],
}


def run(ctx):
    P = ctx.P
    R = Roles(P)
    bank(ctx, P, R)
    algebra(ctx, P, R)
    forgery(ctx, P, R)


def bank(ctx, P, R):
    fns = methods(P, R)
    ctx.floor('conservation', 'methods of the accountant', len(fns), 5)
    for b in fns:
        where = b['path']
        with ctx.rule('conservation', where):
            if strip_generics(b['locals'][0]['ty']) == R.BANK:
                construct(ctx, P, R, b)
                continue
            I, outs, credits = run_bank(ctx, R, b)
            for o in outs:
                if o.kind != 'ret':
                    if credits and b['argc'] > 1:
                        d = total(I, R, o.st.effects())[0]
                        ctx.ob('repayment-accepted', where, d == add(0, *credits), f'credit may be refused with a panic: {pp(o.val)[:100]}')
                    continue
                for st, evs, it in segments(I, o):
                    evs = settled(R, evs)
                    d, g, bad = total(I, R, evs)
                    for e in bad:
                        ctx.ob('conservation', where, False, f'the supply is changed from {pp(e[3])[:80]} to {pp(e[4])[:120]} in one step, neither by an even amount nor in the flag')
                    net = add(d, g)
                    if not it:
                        slept = [e for e in evs if e[0] == 'await' and has_rx(e[1])]
                        for w in credit_in(R, o.val):
                            if slept:
                                # the waker paid for it: it must be what was asked for
                                pushed = [proj(e[2], R.wants) for e in evs if e[0] == 'push' and R.is_queue(e[1])]
                                ctx.ob('grant-is-request', where, pushed == [w], f'a sleeper that asked for {[pp(x) for x in pushed]} is given {pp(w)}')
                                same = [e for e in evs if e[0] == 'push' and R.is_queue(e[1]) and tx_of(proj(e[2], R.tx)) == rx_of(slept[0][1])]
                                ctx.ob('grant-is-request', where, len(same) == 1, 'the borrower does not wait on the channel it queued')
                            else:
                                net = add(net, w)
                        for w in credits:
                            net = sub(net, w)
                    ok = net == 0 or I.known(st, eq(net, 0)) == 1
                    ctx.ob('conservation', where, ok, f'{"an iteration" if it else "a path"} changes the total of supply and credit by {pp(net)[:200]}')
                    covered(ctx, I, R, where, st, evs, it, o)
                if strip_generics(b['name']) == 'borrow':
                    n = [l['n'] for l in b['locals'][1:b['argc'] + 1] if l.get('n') != 'self']
                    for w in credit_in(R, o.val):
                        ctx.ob('exact-loan', where, w == mul(2, ('in', n[0])), f'a loan of {n[0]} bytes yields credit for {pp(w)}/2')
                    ctx.ob('exact-loan', where, len(credit_in(R, o.val)) == 1, 'a path returns without credit')
    with ctx.rule('capacity', R.BANK + '::capacity'):
        b = P.fn(R.BANK + '::capacity')
        I = ctx.interp()
        st = St()
        I.ty[('in', 'cap')] = (0, 2 ** 62)
        st.mem[R.SELF] = ('with', ('*', ('in', 'self')), ((R.capacity, mul(2, ('in', 'cap'))),))
        outs = I.run(b, [('in', 'self')], st)
        ctx.used(I, outs)
        for o in outs:
            if o.kind == 'ret':
                ctx.ob('capacity', b['path'], o.val == ('in', 'cap'), f'the capacity reported is {pp(o.val)}')


def has_rx(v):
    return any(isinstance(t, tuple) and t and t[0] == 'chan_rx' for t in subterms(v))


def rx_of(v):
    return [t[1:] for t in subterms(v) if isinstance(t, tuple) and t and t[0] == 'chan_rx'][0]


def tx_of(v):
    return v[1:] if isinstance(v, tuple) and v[0] == 'chan_tx' else None


def covered(ctx, I, R, where, st, evs, it, o):
    """Credit leaves the supply only by a reservation known to have been covered."""
    grants = [wants_of(R, e[1]) for e in evs if e[0] == 'send']
    if not it and o.kind == 'ret' and not any(e[0] == 'await' and has_rx(e[1]) for e in evs):
        grants += credit_in(R, o.val)
    for w in grants:
        good = False
        for e in evs:
            if e[0] == 'atomic' and R.is_supply(e[2]):
                f = R.flag(e[3], e[4])
                if f and f[0] == neg(w) and (I.known(st, lt(e[3], w)) == 0 or w == 0):
                    good = True
        ctx.ob('no-overdraft', where, good, f'credit for {pp(w)[:80]} is granted without the operation that took it from the supply having shown it to be there')


def construct(ctx, P, R, b):
    I = ctx.interp()
    outs = I.run(b)
    ctx.used(I, outs)
    for o in outs:
        if o.kind != 'ret':
            continue
        v = I.deep(o.st, o.val)
        s, c = proj(v, R.supply), proj(v, R.capacity)
        ctx.ob('initial', b['path'], s == c and R.even(s), f'a new accountant has supply {pp(s)} and capacity {pp(c)}')
        n = [l.get('n') for l in b['locals'][1:b['argc'] + 1]]
        if n:
            ctx.ob('initial', b['path'], s == mul(2, ('in', n[0])), f'a new accountant of {n[0]} bytes has supply {pp(s)}/2')
        q = proj(v, R.queue)
        qd = proj(q, 'data') if isagg(q) else q
        ctx.ob('initial', b['path'], not (isagg(qd) and qd[3]), 'a new accountant has sleepers')


# ---- the operations on credit

S, C = ('in', 'held'), ('in', 'amount')


def algebra(ctx, P, R):
    two = lambda t: mul(2, t)
    m = tmin(C, S)
    half = ('shr', S, 1)
    spec = {
        'split': [(m, sub(S, m))],
        'atomic_split': [(m, sub(S, m))],
        'isplit': [(C, sub(S, C))],
        'take': [(S, 0)],
        'halve': [(half, sub(S, half)), (sub(S, half), half)],
        'null': [(0, None)],
    }
    fns = P.fns(lambda b: strip_generics((b.get('self') or '').replace('&mut ', '').replace('&', '')) == R.CREDIT)
    seen = 0
    for b in fns:
        if b.get('trait') and b['name'] in ('fmt', 'serialize'):
            continue
        if b['name'] not in spec and 'Restricted' in (b.get('vis') or '') and R.mod.rstrip(':') in b['vis']:
            # private to the module: judged where it is called
            continue
        where = b['path']
        with ctx.rule('credit-algebra', where):
            I, st, args, kinds, other = credit_args(ctx, P, R, b)
            outs = I.run(b, args, st)
            ctx.used(I, outs)
            ctx.ob('credit-algebra', where, any(o.kind == 'ret' for o in outs) or b['name'] == 'drop', 'no path returns')
            for o in outs:
                if o.kind != 'ret':
                    if b['name'] != 'drop':
                        ctx.ob('credit-algebra', where, allowed_panic(I, o), f'can panic: {pp(o.val)[:120]}')
                    continue
                fix = lambda t: norm_half(t)
                ret = [fix(x) for x in credit_in(R, o.val)]
                end = None
                if kinds.get('self') in ('ref', 'mut'):
                    end = fix(I.read(o.st, ('P', ('in', 'self')), (R.word,)))
                if kinds.get('self') == 'ref':
                    delta = 0
                    for e in o.st.effects():
                        if e[0] == 'atomic' and e[1] != 'load':
                            delta = add(delta, sub(e[4], e[3]))
                    total_ = fix(delta)
                else:
                    total_ = sub(end, two(S)) if end is not None else (neg(two(S)) if kinds.get('self') == 'own' else 0)
                for x in ret:
                    total_ = add(total_, x)
                for x in other:
                    total_ = sub(total_, x)
                good = total_ == 0 or I.known(o.st, eq(total_, 0)) == 1 or agree(I, o.st, total_, 0)
                ctx.ob('credit-conserved', where, good, f'the credits after the call differ from those before by {pp(total_)[:160]}')
                for x in ret:
                    ctx.ob('credit-even', where, R.even(x), f'produces the odd word {pp(x)[:80]}')
                if b['name'] in spec and not b.get('trait'):
                    seen += 1
                    okk = False
                    for r, s in spec[b['name']]:
                        r, s = (fix(two(x)) if x is not None else None for x in (r, s))
                        rr = ret and (ret[0] == r or agree(I, o.st, ret[0], r))
                        ss = s is None or kinds.get('self') == 'ref' or end == s or agree(I, o.st, end, s)
                        okk = okk or (len(ret) == 1 and bool(rr) and ss)
                    ctx.ob('credit-algebra', where, okk, f'yields {[pp(x)[:100] for x in ret]} leaving {pp(end)[:100] if end is not None else None}')
                elif b['name'] == 'extend' and not b.get('trait'):
                    seen += 1
                    ctx.ob('credit-algebra', where, end == add(two(S), *other), f'leaves {pp(end)[:100]}')
                elif b['name'] in ('add', 'sub') and b.get('trait'):
                    want = add(S, C) if b['name'] == 'add' else sub(S, C)
                    ctx.ob('credit-algebra', where, o.val == want, f'yields {pp(o.val)[:100]}')
                elif b['name'] == 'is_null' or b['name'] == 'eq':
                    want = eq(S, 0) if b['name'] == 'is_null' else eq(S, C)
                    ctx.ob('credit-algebra', where, truth(I, o, want), f'yields {pp(o.val)[:100]}')
                elif b['name'] == 'drop':
                    w = proj(I.read(o.st, ('P', ('in', 'self')), ()), R.word)
                    zero = I.known(o.st, eq(S, 0)) == 1
                    pan = any('panicking' in str(k) and v == 1 for k, v in o.st.facts.items())
                    ctx.ob('no-silent-loss', where, zero or pan, 'credit that is not zero can be dropped without notice')
    ctx.floor('credit-algebra', 'credit operations', seen, 6)
    shared(ctx, P, R, fns)


def shared(ctx, P, R, fns):
    """Operations on credit that others may be using: atomic, conserving, and never taking it below zero."""
    n = 0
    for b in fns:
        l = b['locals'][1] if b['argc'] else None
        if b.get('trait') or l is None or not l['ty'].startswith('&') or '&mut' in l['ty'] or strip_generics(l['ty'].replace('&', '')) != R.CREDIT:
            continue
        with ctx.rule('shared-credit', b['path']):
            I, st, args, kinds, other = credit_args(ctx, P, R, b, volatile_atomics=True)
            outs = I.run(b, args, st)
            ctx.used(I, outs)
            for o in outs:
                if o.kind != 'ret':
                    continue
                evs = [e for e in o.st.effects() if e[0] == 'atomic']
                total_ = 0
                s = o.st.copy()
                for e in evs:
                    I.assume(s, not_(lt(e[3], 0)))
                for e in evs:
                    if e[1] == 'load':
                        continue
                    n += 1
                    total_ = add(total_, sub(e[4], e[3]))
                    ctx.ob('shared-credit', b['path'], e[1] != 'store', 'credit others may be using is overwritten')
                    ctx.ob('shared-credit', b['path'], nonneg(I, s, e[4]), f'credit others may be using can go below zero: {pp(e[3])[:60]} becomes {pp(e[4])[:120]}')
                for x in credit_in(R, o.val):
                    total_ = add(total_, x)
                same = {k[1]: k[2] for k, v in s.facts.items() if isinstance(k, tuple) and k[0] == 'eq' and v == 1}
                total_ = subst(total_, lambda x: same.get(x)) if same else total_
                good = total_ == 0 or I.known(s, eq(total_, 0)) == 1 or agree(I, s, total_, 0)
                ctx.ob('shared-credit', b['path'], good, f'the credits after the call differ from those before by {pp(total_)[:160]}')
    ctx.floor('shared-credit', 'updates of shared credit', n, 1)


def nonneg(I, st, t):
    if isinstance(t, tuple) and t[0] == 'max0' or I.known(st, lt(t, 0)) == 0:
        return True
    lo = I.rng(t, st)[0]
    if lo is not None and lo >= 0:
        return True
    # max0(x) is at least x, and at least 0
    for m, k in poly(t).items():
        if k > 0 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'max0':
            rest = sub(t, mul(k, m[0]))
            return nonneg(I, st, add(rest, mul(k, m[0][1]))) or nonneg(I, st, rest)
    return False


def truth(I, o, want):
    if isinstance(o.val, int):
        return I.known(o.st, want) == o.val

    def zero(c):
        return c[1] if isinstance(c, tuple) and c[0] == 'eq0' else sub(c[1], c[2]) if isinstance(c, tuple) and c[0] == 'eq' else None
    x, y = zero(o.val), zero(want)
    return o.val == want or x is not None and y is not None and any(x == mul(k, y) for k in (1, -1, 2, -2))


def agree(I, st, a, b):
    """a and b are equal under what the path knows, which may settle a minimum or maximum."""
    def go(t):
        if isinstance(t, tuple) and t and t[0] == 'max0':
            k = I.known(st, lt(0, t[1]))
            if k == 1 or I.known(st, lt(t[1], 0)) == 0:
                return t[1]
            if k == 0:
                return 0
        return None
    x, y = subst(a, go), subst(b, go)
    return x == y or I.known(st, eq(x, y)) == 1


def norm_half(t):
    """floor(2x / 4) as floor(x / 2), and twice that as x - x mod 2."""
    def go(x):
        if isinstance(x, tuple) and x and x[0] == 'shr' and isinstance(x[2], int) and x[2] >= 1 and all(c % 2 == 0 for c in poly(x[1]).values()):
            return norm_half(shr(mk({m: c // 2 for m, c in poly(x[1]).items()}), x[2] - 1))
        if isinstance(x, tuple) and x and x[0] == 'div' and isinstance(x[2], int) and x[2] & (x[2] - 1) == 0:
            return norm_half(shr(x[1], x[2].bit_length() - 1))
        return None
    t = subst(t, go)
    if not is_int_like(t):
        return t
    out = 0
    for m, c in poly(t).items():
        h = [a for a in m if isinstance(a, tuple) and a[0] == 'shr' and a[2] == 1]
        if len(m) == 1 and h and c % 2 == 0:
            out = add(out, mul(c // 2, sub(h[0][1], mod(h[0][1], 2))))
        else:
            out = add(out, mk({m: c}))
    return out


def allowed_panic(I, o):
    """Only an amount that does not fit may panic."""
    return 'TryFromIntError' in str(o.val)


def credit_args(ctx, P, R, b, volatile_atomics=False):
    I = ctx.interp(volatile_atomics=volatile_atomics)
    st = St()
    I.ty[S] = (0, 2 ** 61)
    I.ty[C] = 'usize'
    args, kinds, other = [], {}, []
    for i in range(b['argc']):
        l = b['locals'][i + 1]
        t = l['ty']
        base = strip_generics(t.replace('&mut ', '').replace('&', ''))
        me = i == 0 and (l.get('n') == 'self' or b.get('trait'))
        if base == R.CREDIT and me:
            kinds['self'] = 'mut' if '&mut' in t else 'ref' if t.startswith('&') else 'own'
            if t.startswith('&'):
                st.mem[('P', ('in', 'self'))] = agg(R.CREDIT, **{R.word: mul(2, S)})
                args.append(('in', 'self'))
            else:
                args.append(agg(R.CREDIT, **{R.word: mul(2, S)}))
            continue
        if base == R.CREDIT and not t.startswith('&'):
            args.append(agg(R.CREDIT, **{R.word: mul(2, C)}))
            other.append(mul(2, C))
            continue
        if t.startswith('&'):
            st.mem[('C', 'amount')] = C
            args.append(('ref', ('C', 'amount'), ()))
        else:
            I.ty[C] = t if base in ('usize', 'isize') else 'usize'
            if t == 'usize':
                I.ty[C] = (0, 2 ** 61)
            args.append(C)
    return I, st, args, kinds, other


def forgery(ctx, P, R):
    """No code outside the module makes or rewrites credit."""
    with ctx.rule('no-forgery', R.CREDIT):
        a = P.adt(R.CREDIT)
        for f in a['variants'][0]['f']:
            ctx.ob('no-forgery', R.CREDIT, 'Restricted' in f[2] and f[2] != 'Public' and 'writeback::writeback' in f[2] or 'Restricted' in f[2],
                   'the word of a credit is visible outside the module')
        for i in P.impls:
            if strip_generics(i['self']) == R.CREDIT:
                t = strip_generics(i['trait']).split('::')[-1]
                ctx.ob('no-forgery', R.CREDIT, t not in ('Clone', 'Copy', 'Default', 'Deserialize', 'From', 'Readable', 'FromStr'), f'credit implements {t}')
        n = 0
        for k, b in P.bodies.items():
            inside = (b.get('path') or b.get('root') or k).startswith(R.mod) or R.mod in k
            for blk in b['blocks']:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and strip_generics(s[2][1][1]) == R.CREDIT:
                        n += 1
                        ctx.ob('no-forgery', k, inside, 'credit is constructed outside the accountant')
                    if s[0] == '=' and s[2][0] == 'cast' and not inside and R.CREDIT in str(s[2][4]) and 'Transmute' in str(s[2][1]):
                        ctx.ob('no-forgery', k, False, 'something is transmuted to credit')
        ctx.floor('no-forgery', 'constructions of credit', n, 4)
