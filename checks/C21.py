"""The life of a zone: empty, open, closed, dead, and empty again; what is handed out, what is free, and what the map on disk says of it."""
from engine.interp import St
from engine.mir import strip_generics
from engine.models import R, ok, err, some, NONE, UNIT, proj, map_slot
from engine.terms import *
from checks.proto import strip

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. Every method of the free-space map is run once from each of the five states a zone can be in, with symbolic counts; the state it is left '
                   'in, the counts, the result and the panics are compared with the table of the life cycle, and the rest of the map is shown to be untouched. The cluster, which drives '
                   'the map and the device under it together, is decided as the sequence of its calls.',
    'assumptions': ['zones have fewer than 2^32 blocks and a device fewer than 2^32 zones', 'BTreeMap, BTreeSet, FixedBitSet and Vec do what they document'],
}
FSM = ('in', 'fsm')
ROOT = ('P', FSM)
Z = ('in', 'zone')
SLOT = ('[]', Z)
T = 'cluster::FreeSpaceMap'
S, A, FR, TO, X, E = (('in', n) for n in ('start', 'allocated', 'freed', 'total', 'first', 'end'))
LEN = ('len', ('.', ('*', FSM), 'zones'))
TXG_MAX = 2**32 - 2
CLASSES = ('beyond', 'empty', 'open', 'closed', 'dead')


def run(ctx):
    for r, w, f in (('observe', T, observers), ('open', f'{T}::open_zone', opening), ('finish', f'{T}::finish_zone', finishing), ('kill', f'{T}::kill_zone', killing),
                    ('free', f'{T}::free', freeing),
                    ('allocate', f'{T}::try_allocate', allocating), ('find', T, finding), ('reap', f'{T}::reap', reaping), ('totals', T, totals),
                    ('waste', f'{T}::waste_space', wasting), ('save', f'{T}::serialize', saving), ('load', f'{T}::deserialize', loading),
                    ('seal', 'cluster::SpacemapOnDisk', seal), ('write', 'cluster::Cluster::write', writing),
                    ('release', 'cluster::Cluster::free', releasing), ('flush', 'cluster::Cluster::flush', flushing), ('start', 'cluster::Cluster::new', starting)):
        with ctx.rule(r, w):
            f(ctx)


# ---- the state of one zone

def sget(I, s, r, p):
    v = I.read(s, r, p)
    base = I.read(s, r, p[:-1])
    while isinstance(base, tuple) and base[0] == 'with':
        base = base[1]
    if isinstance(base, tuple) and base[0] == 'empty' and v == ('.', base, p[-1]):
        return 0
    if isinstance(v, tuple):
        I.ty.setdefault(v, 'bool')
    return v


def setop(what):
    def f(I, st, c):
        out = []
        for s, r, p in map_slot(I, st, c.args[0], c.args[1]):
            old = sget(I, s, r, p)
            if what == 'contains':
                out.extend(R(s, old))
                continue
            I.write(s, r, p, 1 if what == 'insert' else 0)
            out.extend(R(s, not_(old) if what == 'insert' else old))
        return out
    return f


def interp(ctx):
    I = ctx.interp()
    for t in ('std::collections::BTreeSet', 'fixedbitset::FixedBitSet'):
        for m in ('insert', 'remove', 'contains'):
            I.hooks[f'{t}::{m}'] = setop(m)
    I.ty[LEN] = (0, 2**32 - 1)
    for t in (A, FR, TO, X, E, Z):
        I.ty[t] = 'u32'
    I.ty[S] = (0, 2**62)
    return I


def txg(n):
    return ('agg', 'types::TxgT', '', (('0', n),))


def zone(st, I, cls):
    """A state whose zone is of class `cls`; the rest of the map is unknown."""
    def zrec(freed, total, start, end):
        I.write(st, ROOT, ('zones', SLOT), ('agg', 'cluster::Zone', '', (('freed_blocks', freed), ('total_blocks', total), ('txgs', ('agg', 'std::ops::Range', '', (
            ('start', txg(start)), ('end', txg(end))))))))
    good = I.assume(st, lt(Z, LEN), 0 if cls == 'beyond' else 1)
    I.write(st, ROOT, ('empty_zones', SLOT), 1 if cls in ('empty', 'dead') else 0)
    I.write(st, ROOT, ('open_zones', SLOT), some(('agg', 'cluster::OpenZone', '', (('start', S), ('allocated_blocks', A)))) if cls == 'open' else NONE)
    if cls == 'empty':
        zrec(FR, TO, 0, 0)
    elif cls == 'open':
        zrec(FR, TO, X, TXG_MAX)
        good &= I.assume(st, le(A, TO)) and I.assume(st, le(FR, A))
    elif cls == 'closed':
        zrec(FR, TO, X, E)
        good &= I.assume(st, lt(0, E)) and I.assume(st, le(FR, TO))
    elif cls == 'dead':
        zrec(FR, TO, 0, E)
        good &= I.assume(st, lt(0, E))
    assert good
    return st


def le(a, b):
    return lt(a, add(b, 1))


def same(I, st, a, b):
    return a == b or I.known(st, eq(a, b)) == 1 or isinstance(b, int) and b in (0, 1) and isinstance(a, tuple) and a[0] in ('eq0', 'pos', 'not', 'and', 'or', 'eq', 'lt', 'is') and I.known(st, a) == b


def after(I, st):
    """(class, values) of the zone in a final state; class None if it cannot be told."""
    m = st.mem.get(ROOT)
    zs = I.read(st, ROOT, ('zones',))
    e = sget(I, st, ROOT, ('empty_zones', SLOT))
    o = I.read(st, ROOT, ('open_zones', SLOT))
    inn = I.known(st, lt(Z, I.length(zs)))
    if inn == 0:
        return ('beyond' if e == 0 and o == NONE else None), {}
    if inn is None or not isinstance(e, int) or not isagg(o):
        return None, {}

    def z(*p):
        return I.read(st, ROOT, ('zones', SLOT) + p)
    v = {'freed': z('freed_blocks'), 'total': z('total_blocks'), 'first': z('txgs', 'start', '0'), 'end': z('txgs', 'end', '0')}
    if o[2] == 'Some':
        v['start'], v['allocated'] = I.read(st, ROOT, ('open_zones', SLOT, '0', 'start')), I.read(st, ROOT, ('open_zones', SLOT, '0', 'allocated_blocks'))
        return ('open' if not e else None), v
    alive = I.known(st, lt(0, v['end']))
    if alive is None:
        return None, v
    return (('dead' if alive else 'empty') if e else 'closed' if alive else None), v


def framed(I, st, but=()):
    """The names of what else of the map has changed."""
    m = st.mem.get(ROOT)
    bad = []
    def parts(v, base):
        while isinstance(v, tuple) and v[0] == 'with' and v != base:
            yield from v[2]
            v = v[1]
        if v != base:
            yield ('?', v)
    d = {}
    for k, x in parts(m, ('*', FSM)):
        d[k] = x
    for k, x in d.items():
        if k in but:
            continue
        if k == 'dirty':
            bad += [f'dirty{pp(kk)}' for kk, y in parts(x, ('.', ('*', FSM), 'dirty')) if y != 1]
        elif k in ('zones', 'empty_zones', 'open_zones'):
            bad += [f'{k}{pp(kk)}' for kk, y in parts(x, ('.', ('*', FSM), k)) if kk != SLOT]
        else:
            bad.append(str(k))
    return bad


def dirty(I, st):
    """The zone's block of the map is marked."""
    return I.read(st, ROOT, ('dirty', ('[]', div(Z, 255)))) == 1


def changed(I, st, pre):
    return after(I, st) != pre


def each_class(ctx, name, args, classes=CLASSES):
    """(class, interpreter, outcomes) of a method of the map from every state of the zone."""
    b = ctx.P.fn(f'{T}::{name}')
    for cls in classes:
        I = interp(ctx)
        st = zone(St(), I, cls)
        for k, v in args[1]:
            I.ty[k] = v
        outs = [o for o in I.run(b, [FSM, *args[0]], st)]
        ctx.used(I, outs)
        yield cls, I, outs


def panics(ctx, rule, w, outs, what):
    ctx.ob(rule, w, bool(outs) and all(o.kind == 'panic' for o in outs), f'{what} is not refused')


# ---- rules

def observers(ctx):
    want = {'is_empty': lambda c: int(c in ('beyond', 'empty')), 'is_open': lambda c: int(c == 'open'), 'is_closed': lambda c: int(c == 'closed'), 'is_dead': lambda c: int(c == 'dead'),
            'allocated': lambda c: A if c == 'open' else TO if c == 'closed' else None if c == 'beyond' else 0,
            'available': lambda c: sub(TO, A) if c == 'open' else 0,
            'in_use': lambda c: sub(A, FR) if c == 'open' else sub(TO, FR) if c == 'closed' else 0,
            'write_pointer': lambda c: some(A) if c == 'open' else NONE}
    for n, f in want.items():
        w = f'{T}::{n}'
        for cls, I, outs in each_class(ctx, n, ((Z,), ())):
            v = f(cls)
            if v is None:
                continue
            ctx.ob('observe', w, bool(outs) and all(o.kind == 'ret' and same(I, o.st, strip(I.deep(o.st, o.val)), v) for o in outs),
                   f'of {cls} zones it says {sorted({pp(I.deep(o.st, o.val))[:80] if o.kind == "ret" else "panic" for o in outs})}, not {pp(v)}')
            for o in outs:
                ctx.ob('observe', w, o.kind == 'panic' or not framed(I, o.st) and not dirty(I, o.st), f'looking at a zone changes {framed(I, o.st)}')


def opening(ctx):
    w = f'{T}::open_zone'
    N, L, G = ('in', 'size'), ('in', 'lbas'), ('in', 'txg')
    args = ((Z, S, add(S, N), L, txg(G)), ((N, 'u32'), (L, (0, 2**40)), (G, (0, TXG_MAX))))
    for cls, I, outs in each_class(ctx, 'open_zone', args):
        if cls not in ('beyond', 'empty'):
            panics(ctx, 'open', w, outs, f'opening one of the {cls} zones')
            continue
        seen = set()
        for o in outs:
            if o.kind == 'panic':
                # Only what can happen: the zones between are not listed yet.
                ctx.ob('open', w, cls == 'beyond' and any(e[0] == 'loop' for e in o.st.effects()), f'opening one of the {cls} zones panics')
                continue
            c, v = after(I, o.st)
            fit = I.known(o.st, lt(N, L)) == 0
            if isagg(o.val) and o.val[2] == 'Err':
                seen.add('full')
                ctx.ob('open', w, I.known(o.st, lt(N, L)) == 1, 'a zone large enough is refused')
                ctx.ob('open', w, c == cls, f'a zone too small is left {c}, not {cls}')
                ctx.ob('open', w, not framed(I, o.st), f'a zone too small changes {framed(I, o.st)}')
                continue
            r = proj(o.val, '0')
            z0 = I.known(o.st, lt(0, L))
            seen.add(z0)
            ctx.ob('open', w, fit, 'more is allocated than the zone holds')
            ctx.ob('open', w, c == 'open', f'an opened zone becomes {c}')
            ctx.ob('open', w, dirty(I, o.st), 'an opened zone is not marked for writing')
            for k, x in (('start', S), ('allocated', L), ('freed', 0), ('total', N), ('first', G), ('end', TXG_MAX)):
                ctx.ob('open', w, k in v and same(I, o.st, v[k], x), f'{k} of an opened zone is {pp(v.get(k))}, not {pp(x)}')
            if z0 == 1:
                ctx.ob('open', w, isagg(r) and r[2] == 'Some' and same(I, o.st, proj(proj(r, '0'), '0'), Z) and same(I, o.st, proj(proj(r, '0'), '1'), S), f'space is allocated at {pp(r)[:80]}, not at the start of the zone')
            else:
                ctx.ob('open', w, r == NONE, 'an allocation of nothing returns a place')
            bad = framed(I, o.st)
            if cls == 'beyond':
                bad = between(ctx, I, o, w, bad)
            ctx.ob('open', w, not bad, f'opening a zone changes {bad}')
        ctx.ob('open', w, seen == {'full', 0, 1}, f'not every way of opening a zone is there: {seen}')


def between(ctx, I, o, w, bad):
    """The zones between the end of the list and an opened one are listed as empty."""
    zs = I.read(o.st, ROOT, ('zones',))
    ctx.ob('open', w, same(I, o.st, I.length(zs), add(Z, 1)), f'the list of zones gets length {pp(I.length(zs))}')
    ls = [e[1] for e in o.st.effects() if e[0] == 'loop']
    ez = I.read(o.st, ROOT, ('empty_zones',))
    if same(I, o.st, LEN, Z):
        return [x for x in bad if not x.startswith('zones')]
    good = False
    for L in ls:
        for loc, lv in L.carried.items():
            ran = L.entry.get(loc)
            end = o.st.facts.get(('pinned', lv))
            if ran is None or end is None or not same(I, o.st, ran, LEN) or not same(I, o.st, end, Z):
                continue
            for it in L.iters:
                m = [(k, x) for k, x in it[3].items() if 'empty_zones' in str(k)]
                for k, x in m:
                    put = dict(x[2]) if isinstance(x, tuple) and x and x[0] == 'with' else {}
                    good |= put == {('[]', lv): 1} and it[3].get(loc) == add(lv, 1)
    ctx.ob('open', w, good, 'the zones between the last one known and the opened one are not all listed as empty')
    return [x for x in bad if not x.startswith('zones') and not x.startswith('empty_zones?')]


def finishing(ctx):
    w = f'{T}::finish_zone'
    G = ('in', 'txg')
    for cls, I, outs in each_class(ctx, 'finish_zone', ((Z, txg(G)), ((G, (0, TXG_MAX - 1)),))):
        if cls != 'open':
            panics(ctx, 'finish', w, outs, f'closing one of the {cls} zones')
            continue
        ctx.ob('finish', w, bool(outs) and all(o.kind == 'ret' for o in outs), 'closing an open zone panics')
        for o in outs:
            if o.kind != 'ret':
                continue
            c, v = after(I, o.st)
            ctx.ob('finish', w, c == 'closed', f'a finished zone becomes {c}')
            for k, x in (('freed', add(FR, sub(TO, A))), ('total', TO), ('first', X), ('end', add(G, 1))):
                ctx.ob('finish', w, k in v and same(I, o.st, v[k], x), f'{k} of a finished zone is {pp(v.get(k))}, not {pp(x)}')
            ctx.ob('finish', w, same(I, o.st, o.val, sub(TO, A)), f'{pp(o.val)[:80]} is said to be wasted, not what was available')
            ctx.ob('finish', w, dirty(I, o.st), 'a finished zone is not marked for writing')
            ctx.ob('finish', w, not framed(I, o.st), f'finishing a zone changes {framed(I, o.st)}')


def killing(ctx):
    w = f'{T}::kill_zone'
    for cls, I, outs in each_class(ctx, 'kill_zone', ((Z,), ())):
        if cls in ('open', 'beyond'):
            panics(ctx, 'kill', w, outs, f'killing one of the {cls} zones')
        elif cls == 'closed':
            ctx.ob('kill', w, bool(outs) and all(o.kind == 'ret' for o in outs), 'killing a closed zone panics')
            for o in outs:
                if o.kind != 'ret':
                    continue
                c, v = after(I, o.st)
                ctx.ob('kill', w, c == 'dead', f'a killed zone becomes {c}')
                ctx.ob('kill', w, v.get('first') == 0, 'a killed zone still claims to hold transactions')
                ctx.ob('kill', w, same(I, o.st, o.val, TO), f'{pp(o.val)[:80]} is said to be freed, not the whole zone')
                ctx.ob('kill', w, dirty(I, o.st), 'a killed zone is not marked for writing')
                ctx.ob('kill', w, not framed(I, o.st), f'killing a zone changes {framed(I, o.st)}')


def freeing(ctx):
    w = f'{T}::free'
    N = ('in', 'length')
    for cls, I, outs in each_class(ctx, 'free', ((Z, N), ((N, (0, 2**40)),))):
        if cls in ('empty', 'beyond'):
            panics(ctx, 'free', w, outs, f'freeing from one of the {cls} zones')
        elif cls in ('open', 'closed'):
            top = A if cls == 'open' else TO
            ctx.ob('free', w, any(o.kind == 'ret' for o in outs), f'nothing can be freed from {cls} zones')
            for o in outs:
                if o.kind != 'ret':
                    big = I.known(o.st, lt(top, add(FR, N))) == 1 or I.known(o.st, lt(2**32 - 1, N)) == 1
                    ctx.ob('free', w, big, f'freeing from {cls} zones panics though there is enough in use')
                    continue
                c, v = after(I, o.st)
                ctx.ob('free', w, I.known(o.st, le(add(FR, N), top)) == 1, f'more can be freed from {cls} zones than is in use')
                ctx.ob('free', w, c == cls, f'freeing from {cls} zones makes them {c}')
                for k, x in (('freed', add(FR, N)), ('total', TO), ('first', X), ('end', E if cls == 'closed' else TXG_MAX)) + ((('allocated', A), ('start', S)) if cls == 'open' else ()):
                    ctx.ob('free', w, k in v and same(I, o.st, v[k], x), f'{k} is {pp(v.get(k))} after freeing, not {pp(x)}')
                ctx.ob('free', w, dirty(I, o.st), 'a zone something is freed from is not marked for writing')
                ctx.ob('free', w, not framed(I, o.st), f'freeing changes {framed(I, o.st)}')


# ---- small maps, all of whose zones are known

def keys_of(v, on):
    d = {}
    while isinstance(v, tuple) and v[0] == 'with':
        for k, x in v[2]:
            d.setdefault(k[1], x)
        v = v[1]
    if not (isinstance(v, tuple) and v[0] == 'empty') or not all(isinstance(k, int) for k in d):
        return None
    return [k for k in sorted(d) if on(d[k])]


def over(what):
    """Iteration over a map or set whose contents are known."""
    def f(I, st, c):
        r, p = I.deref(st, c.args[0])
        v = I.read(st, r, p)
        if 'Set' in strip_generics(c.argtys[0]) or 'BTreeSet' in c.name:
            ks = keys_of(v, lambda x: x == 1)
            if ks is None:
                return None
            items = [I.alloc(st, k) for k in ks]
        else:
            ks = keys_of(v, lambda x: isagg(x) and x[2] == 'Some')
            if ks is None:
                return None
            pl = lambda k: ('ref', r, p + (('[]', k), '0'))
            items = [I.alloc(st, k) if what == 'keys' else pl(k) if what == 'values' else ('agg', 'tuple', '', (('0', I.alloc(st, k)), ('1', pl(k)))) for k in ks]
        arr = I.alloc(st, ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(items))))
        return R(st, ('agg', 'it:into', '', (('s', arr), ('i', 0), ('e', len(items)))))
    return f


def set_len(I, st, c):
    ks = keys_of(I.load(st, c.args[0]), lambda x: x == 1 or isagg(x) and x[2] == 'Some')
    return None if ks is None else R(st, len(ks) if c.name.endswith('len') else int(not ks))


def split_off(I, st, c):
    v = I.load(st, c.args[0])
    ks = keys_of(v, lambda x: x == 1)
    k = I.load(st, c.args[1])
    if ks is None or not isinstance(k, int):
        return None
    mk = lambda xs: ('with', ('empty', 'set'), tuple((('[]', x), 1) for x in xs))
    I.store(st, c.args[0], mk([x for x in ks if x < k]))
    return R(st, mk([x for x in ks if x >= k]))


def small(ctx):
    I = interp(ctx)
    M = 'std::collections::BTreeMap::'
    for n, w in (('iter', 'pairs'), ('iter_mut', 'pairs'), ('keys', 'keys'), ('values', 'values'), ('values_mut', 'values')):
        I.hooks[M + n] = over(w)
    I.hooks['std::collections::BTreeSet::iter'] = over('keys')
    for t in (M, 'std::collections::BTreeSet::'):
        I.hooks[t + 'len'] = I.hooks[t + 'is_empty'] = set_len
    I.hooks['std::collections::BTreeSet::split_off'] = split_off
    I.hooks['std::collections::BTreeSet::new'] = lambda I, st, c: R(st, ('empty', 'set'))

    def into(I, st, c):
        t = strip_generics(c.argtys[0])
        return over('keys' if 'Set' in t else 'pairs')(I, st, c) if t.startswith('&') and ('BTreeMap' in t or 'BTreeSet' in t) else None
    I.hooks['std::iter::IntoIterator::into_iter'] = into
    I.unroll = 12
    return I


def val(n, i):
    return ('in', f'{n}{i}')


def fsm_of(I, st, classes, total, dirty_=('empty', 'bits')):
    """A map of len(classes) zones in the given states."""
    n = len(classes)
    rec, ez, oz = [], [], []
    for i, c in enumerate(classes):
        a, f, t, x, e = (val(k, i) for k in ('allocated', 'freed', 'total', 'first', 'end'))
        for v in (a, f, t):
            I.ty[v] = 'u32'
        I.ty[val('start', i)] = (0, 2**40)
        I.ty[x] = (0, TXG_MAX - 1)
        I.ty[e] = (1, TXG_MAX)
        first, end = {'empty': (0, 0), 'dead': (0, e), 'open': (x, TXG_MAX), 'closed': (x, e)}[c]
        rec.append(('agg', 'cluster::Zone', '', (('freed_blocks', f), ('total_blocks', t), ('txgs', ('agg', 'std::ops::Range', '', (('start', txg(first)), ('end', txg(end))))))))
        if c in ('empty', 'dead'):
            ez.append((('[]', i), 1))
        if c == 'open':
            oz.append((('[]', i), some(('agg', 'cluster::OpenZone', '', (('start', val('start', i)), ('allocated_blocks', a))))))
            assert I.assume(st, le(a, t)) and I.assume(st, le(f, a))
        if c == 'closed':
            assert I.assume(st, le(f, t))
    arr = ('agg', 'array', '', tuple((('[]', i), r) for i, r in enumerate(rec)))
    return ('agg', T, '', (('dirty', dirty_), ('empty_zones', ('with', ('empty', 'set'), tuple(ez)) if ez else ('empty', 'set')),
                           ('open_zones', ('with', ('empty', 'map'), tuple(oz)) if oz else ('empty', 'map')), ('total_zones', total), ('zones', arr)))


def combos(n, but=()):
    from itertools import product
    return [c for k in range(n + 1) for c in product(('empty', 'open', 'closed', 'dead'), repeat=k) if all(c.count(x) <= m for x, m in but)]


def state_of(I, st, ref, i):
    """(class, values) of zone i of a small map."""
    r, p = I.deref(st, ref)
    zs = I.read(st, r, p + ('zones',))
    if I.known(st, lt(i, I.length(zs))) != 1:
        return ('beyond', {}) if I.known(st, lt(i, I.length(zs))) == 0 else (None, {})
    e = keys_of(I.read(st, r, p + ('empty_zones',)), lambda x: x == 1)
    o = keys_of(I.read(st, r, p + ('open_zones',)), lambda x: isagg(x) and x[2] == 'Some')
    if e is None or o is None:
        return None, {}
    g = lambda *q: I.read(st, r, p + ('zones', ('[]', i)) + q)
    v = {'freed': g('freed_blocks'), 'total': g('total_blocks'), 'first': g('txgs', 'start', '0'), 'end': g('txgs', 'end', '0')}
    if i in o:
        q = p + ('open_zones', ('[]', i), '0')
        v['start'], v['allocated'] = I.read(st, r, q + ('start',)), I.read(st, r, q + ('allocated_blocks',))
        return (None if i in e else 'open'), v
    alive = I.known(st, lt(0, v['end']))
    if i in e:
        return (None if alive is None else 'dead' if alive else 'empty'), v
    return ('closed' if alive else None), v


def lst(I, st, v):
    """The elements of a returned vector."""
    v = I.deep(st, v)
    while isinstance(v, tuple) and v[0] in ('push', 'put', 'concat'):
        if v[0] == 'concat':
            a, b = lst(I, st, v[1]), lst(I, st, v[2])
            return None if a is None or b is None else a + b
        a = lst(I, st, v[1])
        return None if a is None else a + [v[2]]
    if isagg(v) and v[1] == 'array':
        return [x for _, x in v[3]]
    return [] if isinstance(v, tuple) and v[0] == 'empty' else None


def allocating(ctx):
    w = f'{T}::try_allocate'
    b = ctx.P.fn(w)
    N = ('in', 'space')
    n = 0
    for cs in combos(3):
        if cs.count('dead') or cs.count('empty') > 1:
            continue
        I = small(ctx)
        st = St()
        I.ty[N] = 'u32'
        ref = I.alloc(st, fsm_of(I, st, cs, 5))
        pre = [state_of(I, st, ref, i) for i in range(len(cs))]
        outs = I.run(b, [ref, N], st)
        ctx.used(I, outs)
        n += len(outs)
        for o in outs:
            if not ctx.ob('allocate', w, o.kind == 'ret', 'allocating panics'):
                continue
            got, full = proj(o.val, '0'), lst(I, o.st, proj(o.val, '1'))
            room = {i: I.known(o.st, lt(sub(val('total', i), val('allocated', i)), N)) for i, c in enumerate(cs) if c == 'open'}
            full = [I.load(o.st, x) if isinstance(x, tuple) and x[0] == 'ref' else x for x in full] if full is not None else None
            ctx.ob('allocate', w, full is not None and all(room.get(i) == 1 for i in full) and len(set(full)) == len(full), f'zones {full} are said to be nearly full')
            if isagg(got) and got[2] == 'None':
                ctx.ob('allocate', w, all(x == 1 for x in room.values()), 'nothing is allocated though an open zone has room')
                ctx.ob('allocate', w, full is not None and set(full) == set(room), 'a zone that is too full is not reported, so it is never closed')
            for i, c in enumerate(cs):
                s2, v2 = state_of(I, o.st, ref, i)
                v1 = dict(pre[i][1])
                if isagg(got) and got[2] == 'Some' and same(I, o.st, proj(proj(got, '0'), '0'), i):
                    ctx.ob('allocate', w, c == 'open' and room.get(i) == 0, 'space is allocated where there is none')
                    ctx.ob('allocate', w, same(I, o.st, proj(proj(got, '0'), '1'), add(val('start', i), val('allocated', i))), f'space is allocated at {pp(proj(proj(got, "0"), "1"))[:80]}, not at the write pointer')
                    v1['allocated'] = add(v1.get('allocated', 0), N)
                    ctx.ob('allocate', w, I.read(o.st, *_at(I, o.st, ref, 'dirty', ('[]', 0))) == 1, 'a zone space is allocated in is not marked for writing')
                ctx.ob('allocate', w, s2 == pre[i][0] and set(v1) == set(v2) and all(same(I, o.st, v2[k], v1[k]) for k in v1), f'an allocation makes of one of the {c} zones one of the {s2}, {[(k, pp(v2.get(k))) for k in v1 if not same(I, o.st, v2.get(k), v1[k])]}')
    ctx.floor('allocate', 'paths', n, 40)


def _at(I, st, ref, *p):
    r, q = I.deref(st, ref)
    return r, q + p


def finding(ctx):
    w = f'{T}::find_empty'
    b = ctx.P.fn(w)
    for cs in combos(3):
        for total in (len(cs), len(cs) + 2):
            I = small(ctx)
            st = St()
            ref = I.alloc(st, fsm_of(I, st, cs, total))
            outs = I.run(b, [ref], st)
            ctx.used(I, outs)
            want = {i for i, c in enumerate(cs) if c == 'empty'} | set(range(len(cs), total))
            for o in outs:
                v = o.val if o.kind == 'ret' else None
                g = I.deep(o.st, proj(v, '0')) if isagg(v) and v[2] == 'Some' else None
                ctx.ob('find', w, isagg(v) and (v[2] == 'None' and not want or g in want), f'of zones {cs} of {total}, {pp(g) if g is not None else "none"} is said to be empty')
    w = f'{T}::find_closed_zone'
    b = ctx.P.fn(w)
    for cs in combos(3):
        for start in range(len(cs) + 2):
            I = small(ctx)
            st = St()
            ref = I.alloc(st, fsm_of(I, st, cs, 4))
            outs = I.run(b, [ref, start], st)
            ctx.used(I, outs)
            want = [i for i, c in enumerate(cs) if c == 'closed' and i >= start]
            for o in outs:
                v = o.val if o.kind == 'ret' else None
                if not want:
                    ctx.ob('find', w, v == NONE, f'from {start} on zones {cs} have no closed one, but {pp(v)[:60]} is found')
                    continue
                g = I.deep(o.st, proj(v, '0')) if isagg(v) and v[2] == 'Some' else None
                i = want[0]
                if ctx.ob('find', w, g is not None and proj(g, 'zid') == i, f'from {start} on the first closed zone of {cs} is {i}, not {pp(g)[:60]}'):
                    for k, x in (('freed_blocks', val('freed', i)), ('total_blocks', val('total', i))):
                        ctx.ob('find', w, proj(g, k) == x, f'{k} of a closed zone is reported as {pp(proj(g, k))[:60]}')
                    t = proj(g, 'txgs')
                    ctx.ob('find', w, proj(proj(t, 'start'), '0') == val('first', i) and proj(proj(t, 'end'), '0') == val('end', i), 'the transactions of a closed zone are reported wrong')


def reaping(ctx):
    w = f'{T}::reap'
    b = ctx.P.fn(w)
    n = 0
    for cs in combos(3):
        if cs and cs[-1] == 'empty':
            continue            # the list is kept short
        I = small(ctx)
        st = St()
        ref = I.alloc(st, fsm_of(I, st, cs, 5))
        pre = [state_of(I, st, ref, i) for i in range(len(cs))]
        outs = I.run(b, [ref], st)
        ctx.used(I, outs)
        n += len(outs)
        dead = [i for i, c in enumerate(cs) if c == 'dead']
        for o in outs:
            if not ctx.ob('reap', w, o.kind == 'ret', f'reaping zones {cs} panics'):
                continue
            got = lst(I, o.st, o.val)
            ctx.ob('reap', w, got is not None and sorted(got, key=str) == dead, f'of zones {cs}, {got} are reaped')
            for i, c in enumerate(cs):
                s2, v2 = state_of(I, o.st, ref, i)
                if c in ('dead', 'empty'):
                    ctx.ob('reap', w, s2 in ('empty', 'beyond'), f'reaping makes of one of the {c} zones of {cs} one of the {s2}')
                else:
                    ctx.ob('reap', w, s2 == c and v2 == pre[i][1], f'reaping makes of one of the {c} zones of {cs} one of the {s2}')
            if dead:
                ctx.ob('reap', w, I.read(o.st, *_at(I, o.st, ref, 'dirty', ('[]', 0))) == 1, 'a reaped zone is not marked for writing')
            zs = I.length(I.read(o.st, *_at(I, o.st, ref, 'zones')))
            r, p = I.deref(o.st, ref)
            ez = keys_of(I.read(o.st, r, p + ('empty_zones',)), lambda x: x == 1)
            ctx.ob('reap', w, ez is not None and all(isinstance(zs, int) and k < zs for k in ez), f'after reaping, zones {ez} are listed as empty in a list of {pp(zs)}')
    ctx.floor('reap', 'paths', n, 40)


def totals(ctx):
    for name, f in (('allocated_total', lambda c, i: val('allocated', i) if c == 'open' else val('total', i) if c == 'closed' else 0),
                    ('in_use_total', lambda c, i: sub(val('allocated', i), val('freed', i)) if c == 'open' else sub(val('total', i), val('freed', i)) if c == 'closed' else 0)):
        w = f'{T}::{name}'
        b = ctx.P.fn(w)
        for cs in combos(3):
            I = small(ctx)
            st = St()
            ref = I.alloc(st, fsm_of(I, st, cs, 5))
            outs = I.run(b, [ref], st)
            ctx.used(I, outs)
            want = 0
            for i, c in enumerate(cs):
                want = add(want, f(c, i))
            ctx.ob('totals', w, bool(outs) and all(o.kind == 'ret' and same(I, o.st, o.val, want) for o in outs),
                   f'of zones {cs} it is {sorted({pp(o.val)[:90] for o in outs})}, not {pp(want)[:90]}')


def wasting(ctx):
    w = f'{T}::waste_space'
    N = ('in', 'space')
    for cls, I, outs in each_class(ctx, 'waste_space', ((Z, N), ((N, 'u32'),))):
        if cls != 'open':
            if cls != 'beyond':
                panics(ctx, 'waste', w, outs, f'wasting space of one of the {cls} zones')
            continue
        ctx.ob('waste', w, any(o.kind == 'ret' for o in outs), 'no space can be wasted')
        for o in outs:
            if o.kind != 'ret':
                ctx.ob('waste', w, I.known(o.st, lt(TO, add(A, N))) == 1, 'wasting space panics though the zone has it')
                continue
            c, v = after(I, o.st)
            ctx.ob('waste', w, c == 'open', f'wasting space of an open zone makes it {c}')
            ctx.ob('waste', w, I.known(o.st, le(add(A, N), TO)) == 1, 'more can be wasted than the zone has')
            for k, x in (('allocated', add(A, N)), ('freed', add(FR, N)), ('total', TO), ('first', X), ('end', TXG_MAX), ('start', S)):
                ctx.ob('waste', w, k in v and same(I, o.st, v[k], x), f'{k} is {pp(v.get(k))} after wasting space, not {pp(x)}')
            ctx.ob('waste', w, dirty(I, o.st), 'a zone that wastes space is not marked for writing')
            ctx.ob('waste', w, not framed(I, o.st), f'wasting space changes {framed(I, o.st)}')


def items(I, st, it):
    """[(state, elements)] of an iterator run to its end."""
    from engine.models import next_of
    ref = I.alloc(st, it)
    r, p = ref[1], ref[2]
    out, cur = [], [(st, [])]
    for _ in range(8):
        nxt = []
        for s, xs in cur:
            adv = next_of(I, s, r, p)
            if adv is None:
                return None
            for s2, more, x in adv:
                if more == 1:
                    nxt.append((s2, xs + [x]))
                elif more == 0:
                    out.append((s2, xs))
                else:
                    return None
        cur = nxt
    return out if not cur else None


def on_disk(I, st, z):
    """(allocated, freed, first, end) of a zone's record."""
    g = lambda *q: _proj(z, q)
    return g('allocated_blocks'), g('freed_blocks'), g('txgs', 'start', '0'), g('txgs', 'end', '0')


def _proj(v, q):
    for k in q:
        v = proj(v, k)
    return v


CLOSED = 2**32 - 1


def ones(I, st, c):
    ks = keys_of(I.load(st, c.args[0]), lambda x: x == 1)
    if ks is None:
        return None
    arr = I.alloc(st, ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(ks))))
    return R(st, ('agg', 'it:into', '', (('s', arr), ('i', 0), ('e', len(ks)))))


def saving(ctx):
    """The four states are told apart on disk, and the counts that matter are there."""
    w = f'{T}::serialize'
    b = ctx.P.fn(w)
    n = 0
    for cs in combos(3):
        for bits in ((), (0,)):
            I = small(ctx)
            h = I.hooks
            h['fixedbitset::FixedBitSet::ones'] = ones
            h['cluster::SpacemapOnDisk::new'] = lambda I, st, c: R(st, ('block', c.args[0], tuple(lst(I, st, c.args[1]) or ('?',))))
            h['speedy::Writable::write_to_vec'] = lambda I, st, c: R(st, ok(('bytes', I.deep(st, I.load(st, c.args[0]) if c.args[0][0] == 'ref' else c.args[0]))))
            st = St()
            total = len(cs) + 1
            ref = I.alloc(st, fsm_of(I, st, cs, total, ('with', ('empty', 'bits'), tuple((('[]', k), 1) for k in bits)) if bits else ('empty', 'bits')))
            for o in I.run(b, [ref], st):
                ctx.used(I, [o])
                got = items(I, o.st, o.val) if o.kind == 'ret' else None
                if not ctx.ob('save', w, got is not None, 'what is written of the map cannot be told'):
                    continue
                for s, xs in got:
                    n += 1
                    ctx.ob('save', w, len(xs) == len(bits), f'{len(xs)} blocks are written of {len(bits)} that changed')
                    for k, x in zip(bits, xs):
                        x = I.deep(s, x)
                        ctx.ob('save', w, proj(x, '0') == k, f'block {k} is written as {pp(proj(x, "0"))[:60]}')
                        blk = [t for t in subterms(proj(x, '1')) if isinstance(t, tuple) and t and t[0] == 'block']
                        zs = blk[0][2] if blk else ()
                        ctx.ob('save', w, bool(blk) and blk[0][1] == k, 'a block is sealed with the number of another')
                        if not ctx.ob('save', w, len(zs) == total and '?' not in zs, f'{len(zs)} zones are written of {total}'):
                            continue
                        for i, z in enumerate(zs):
                            c = cs[i] if i < len(cs) else 'empty'
                            a, f, x0, e = on_disk(I, s, z)
                            want = {'empty': (0, None, None, 0), 'dead': (0, None, None, val('end', i)), 'open': (val('allocated', i), val('freed', i), val('first', i), TXG_MAX),
                                    'closed': (CLOSED, val('freed', i), val('first', i), val('end', i))}[c]
                            for nm, g, y in zip(('allocated blocks', 'freed blocks', 'first transaction', 'last transaction'), (a, f, x0, e), want):
                                ctx.ob('save', w, y is None or same(I, s, g, y), f'of one of the {c} zones, {nm} is written as {pp(g)[:60]}, not {pp(y)[:60] if y is not None else ""}')
    ctx.floor('save', 'maps', n, 80)


def loading(ctx):
    """What serialize wrote is the map that is read back."""
    from itertools import product
    P = ctx.P
    w = f'{T}::deserialize'
    b = P.fn(w)
    n = 0
    VD = ('in', 'vdev')
    recs = ('empty', 'dead', 'open', 'closed', 'unused')
    for cs in [c for k in (1, 2, 3) for c in product(recs, repeat=k) if c.count('open') + c.count('unused') <= 1]:
        for bad in ((False, 'sum', 'form') if cs == ('open',) else (False,)):
            I = small(ctx)
            h = I.hooks
            st = St()
            zs = []
            for i, c in enumerate(cs):
                a, f, x, e, t = (val(k, i) for k in ('allocated', 'freed', 'first', 'end', 'total'))
                for v in (a, f, t):
                    I.ty[v] = (0, CLOSED - 1)
                I.ty[a] = (1, CLOSED - 1)
                I.ty[x], I.ty[e], I.ty[val('start', i)] = (0, TXG_MAX - 1), (1, TXG_MAX), (0, 2**40)
                if c in ('open', 'closed', 'unused'):
                    assert I.assume(st, le(a, t)) and I.assume(st, le(f, a if c == 'open' else t))
                al, fr, fi, en = {'empty': (0, 0, 0, 0), 'dead': (0, 0, 0, e), 'open': (a, f, x, TXG_MAX), 'closed': (CLOSED, f, x, e), 'unused': (0, 0, x, TXG_MAX)}[c]
                zs.append(('agg', 'cluster::ZoneOnDisk', '', (('allocated_blocks', al), ('freed_blocks', fr), ('txgs', ('agg', 'std::ops::Range', '', (('start', txg(fi)), ('end', txg(en))))))))
            if 'unused' in cs:
                continue            # an open zone nothing was allocated in: it never reaches the disk
            arr = ('agg', 'array', '', tuple((('[]', i), z) for i, z in enumerate(zs)))
            h['cluster::SpacemapOnDisk::deserialize'] = lambda I, st, c: R(st, err(('why',)) if bad == 'form' else ok(err(('why',)) if bad else ok(('agg', 'cluster::SpacemapOnDisk', '', (('checksum', 0), ('zones', arr))))))
            one = ('agg', 'array', '', ((('[]', 0), ('in', 'chunk')),))
            h['divbuf::DivBuf::into_chunks'] = lambda I, st, c: R(st, ('agg', 'it:into', '', (('s', I.alloc(st, one)), ('i', 0), ('e', 1))))
            h['vdev::Vdev::zone_limits'] = lambda I, st, c: R(st, ('agg', 'tuple', '', (('0', val('start', c.args[1])), ('1', add(val('start', c.args[1]), val('total', c.args[1]))))))
            from checks.proto import op
            h['raid::vdev_raid_api::VdevRaidApi::reopen_zone'] = op('reopen')
            h['futures::TryStreamExt::try_collect'] = together
            h['fixedbitset::FixedBitSet::clear'] = lambda I, st, c: (I.store(st, c.args[0], ('empty', 'bits')), R(st, UNIT))[1]
            outs = []
            for o in I.run(b, [VD, ('in', 'buf'), len(cs)], st):
                outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
            ctx.used(I, outs)
            n += 1
            oks = errs = 0
            for o in outs:
                if not ctx.ob('load', w, o.kind == 'ret', f'opening a map of zones {cs} panics'):
                    continue
                aw = [e for e in o.st.effects() if e[0] == 'await']
                if isagg(o.val) and o.val[2] == 'Err':
                    errs += 1
                    ctx.ob('load', w, bad or any(isinstance(t, tuple) and t and t[0] == 'out' for t in subterms(o.val)), f'a good map of zones {cs} is refused')
                    continue
                if not ctx.ob('load', w, isagg(o.val) and o.val[2] == 'Ok' and not bad, 'whether a map was read cannot be told' if not bad else 'a damaged map is taken for good'):
                    continue
                oks += 1
                m = proj(proj(o.val, '0'), '0')
                ref = I.alloc(o.st, m)
                ctx.ob('load', w, proj(m, 'total_zones') == len(cs), 'the number of zones is not the one of the device')
                d = I.read(o.st, *_at(I, o.st, ref, 'dirty'))
                ctx.ob('load', w, keys_of(d, lambda x: x == 1) == [], 'a map just read is to be written again')
                for i, c in enumerate(cs):
                    s2, v = state_of(I, o.st, ref, i)
                    ctx.ob('load', w, s2 == c or c == 'empty' and s2 == 'beyond', f'one of the {c} zones of {cs} is read back as one of the {s2}')
                    want = {'empty': {}, 'dead': {'end': val('end', i)}, 'open': {'allocated': val('allocated', i), 'freed': val('freed', i), 'total': val('total', i), 'first': val('first', i), 'start': val('start', i), 'end': TXG_MAX},
                            'closed': {'freed': val('freed', i), 'total': val('total', i), 'first': val('first', i), 'end': val('end', i)}}[c]
                    for k, x in want.items():
                        ctx.ob('load', w, k in v and same(I, o.st, v[k], x), f'{k} of one of the {c} zones is read back as {pp(v.get(k))[:80]}, not {pp(x)}')
                    if c == 'open':
                        ops = [t for e in o.st.effects() for t in subterms(e) if isinstance(t, tuple) and t and t[0] == 'op']
                        ctx.ob('load', w, any(t[1] == 'reopen' and t[3:5] == (i, val('allocated', i)) or t[1] == 'reopen' and t[2:] and tuple(t[-2:]) == (i, val('allocated', i)) for t in ops), f'an open zone is not opened again in the device: {[pp(t)[:80] for t in ops]}')
                        ctx.ob('load', w, any(isinstance(t, tuple) and t and t[0] in ('op', 'out') for e in aw for t in subterms(e)), 'nobody waits for the zone to be opened again')
            ctx.ob('load', w, bad or 'open' not in cs or errs, 'a zone the device could not open again is taken for open')
            ctx.ob('load', w, bool(oks) != bool(bad), f'no map of zones {cs} can be read back' if not bad else 'a damaged map is taken for good')
    ctx.floor('load', 'maps', n, 60)


def seal(ctx):
    """The sum over a block of the map covers its number and its zones, and is the one compared when it is read."""
    P = ctx.P
    w = 'cluster::SpacemapOnDisk::new'
    I = ctx.interp()
    outs = I.run(P.fn(w), [('in', 'block'), ('in', 'zones')], St())
    ctx.used(I, outs)
    good = [o for o in outs if o.kind == 'ret']
    ctx.ob('seal', w, bool(good), 'no block of the map can be made')
    sums = set()
    for o in good:
        v = I.deep(o.st, o.val)
        s = proj(v, 'checksum')
        sums.add(s)
        ctx.ob('seal', w, proj(v, 'zones') == ('in', 'zones'), 'a block of the map does not hold the zones it is made of')
        ts = set(subterms(s))
        ctx.ob('seal', w, ('in', 'block') in ts, 'the sum does not cover the number of the block: a misdirected write is not noticed')
        ctx.ob('seal', w, ('in', 'zones') in ts, 'the sum does not cover the zones')
    w = 'cluster::SpacemapOnDisk::deserialize'
    I = ctx.interp()
    I.hooks['speedy::Readable::read_from_buffer'] = lambda I, st, c: [o for good in (1, 0) for o in R(st.copy(), ok(('agg', 'cluster::SpacemapOnDisk', '', (
        ('checksum', ('in', 'sum')), ('zones', ('in', 'zones'))))) if good else err(('why',)))]
    outs = I.run(P.fn(w), [('in', 'block'), ('in', 'buf')], St())
    ctx.used(I, outs)
    seen = set()
    for o in outs:
        if not ctx.ob('seal', w, o.kind == 'ret', 'reading a block of the map panics'):
            continue
        v = I.deep(o.st, o.val)
        inner = proj(v, '0') if isagg(v) and v[2] == 'Ok' else v
        how = inner[2] if isagg(inner) else None
        m = [I.known(o.st, eq(('in', 'sum'), s)) for s in sums]
        if isagg(v) and v[2] == 'Ok' and how == 'Ok':
            seen.add('good')
            ctx.ob('seal', w, 1 in m, 'a block of the map is taken for good whatever its sum')
        elif isagg(v) and v[2] == 'Ok':
            seen.add('bad')
            ctx.ob('seal', w, bool(m) and all(x == 0 for x in m), 'a block of the map is refused though its sum is right')
        else:
            seen.add('form')
    ctx.ob('seal', w, {'good', 'bad'} <= seen, f'reading a block of the map ends only in {sorted(seen)}')


# ---- the cluster

CL = ('in', 'cluster')
CROOT = ('P', CL)
ALLOC = ('in', 'allocated_space')
MAP = ('ref', CROOT, ('fsm', 'data'))
RAID = 'raid::vdev_raid_api::VdevRaidApi::'


def cluster(ctx, cs, total):
    from checks.proto import op
    I = small(ctx)
    h = I.hooks
    for n in ('finish_zone', 'open_zone', 'write_at', 'erase_zone', 'write_spacemap'):
        h[RAID + n] = op(n)
    h['vdev::Vdev::zone_limits'] = lambda I, st, c: R(st, ('agg', 'tuple', '', (('0', lo(c.args[1])), ('1', add(lo(c.args[1]), ('in', f'size{c.args[1]}'))))))
    h['futures::TryStreamExt::try_collect'] = together
    h['divbuf::DivBuf::len'] = lambda I, st, c: R(st, ('in', 'bytes'))
    st = St()
    I.write(st, CROOT, ('fsm', 'data'), fsm_of(I, st, cs, total))
    I.write(st, CROOT, ('allocated_space',), ALLOC)
    I.ty[ALLOC] = (0, 2**60)
    for i in range(total):
        I.ty[('in', f'size{i}')] = 'u32'
        I.ty[val('start', i)] = (0, 2**40)
    return I, st


def together(I, st, c):
    """Futures gathered one by one are all waited for."""
    xs, v = [], c.args[0]
    while isinstance(v, tuple) and v[0] in ('put', 'push'):
        xs.insert(0, v[2])
        v = v[1]
    if isagg(v) and v[1] == 'array':
        xs = [x for _, x in v[3]] + xs
    elif not (isinstance(v, tuple) and v[0] == 'empty'):
        return None
    return R(st, ('agg', 'fut:try_join', '', tuple((str(i), x) for i, x in enumerate(xs))))


def lo(i):
    return val('start', i)


def allocated(s, v):
    return v.get('allocated') if s == 'open' else v.get('total') if s == 'closed' else 0


def balance(ctx, rule, w, I, st, pre, n, what):
    """The counter of the cluster moves with the map."""
    d = 0
    for i in range(n):
        s1, v1 = pre[i] if i < len(pre) else ('beyond', {})
        s2, v2 = state_of(I, st, MAP, i)
        if not ctx.ob(rule, w, s2 is not None, f'what {what} makes of one of the {s1} zones cannot be told'):
            return
        d = sub(add(d, allocated(s2, v2)), allocated(s1, v1))
    now = I.read(st, CROOT, ('allocated_space',))
    ctx.ob(rule, w, same(I, st, sub(now, ALLOC), d), f'{what} changes what is allocated by {pp(d)[:120]} blocks but the counter by {pp(sub(now, ALLOC))[:120]}')


def ops_in(v):
    return [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == 'op']


def writing(ctx):
    w = 'cluster::Cluster::write'
    b = ctx.P.fn(w)
    BUF, G = ('in', 'buf'), ('in', 'txg')
    n = 0
    ends = set()
    for cs in combos(2, (('open', 1),)):
        for total in (len(cs), len(cs) + 1):
            I, st = cluster(ctx, cs, total)
            I.ty[G] = (0, TXG_MAX - 1)
            I.ty[('in', 'bytes')] = (1, 2**32)
            space = div(add(('in', 'bytes'), 4095), 4096)
            pre = [state_of(I, st, MAP, i) for i in range(len(cs))]
            outs = []
            for o in I.run(b, [CL, BUF, txg(G)], st):
                if o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Ok':
                    fut = proj(proj(o.val, '0'), '1')
                    k = len(list(o.st.effects()))
                    for o2 in I.run_future(o.st, fut):
                        outs.append((o, o2, k))
                else:
                    outs.append((o, o, 0))
            ctx.used(I, [x for x, _, _ in outs])
            n += len(outs)
            for o, o2, k in outs:
                st1 = o.st
                what = f'a write to zones {cs} of {total}'
                if o.kind != 'ret':
                    # the documented refusal of an empty write cannot happen here
                    ctx.ob('write', w, False, f'{what} panics')
                    continue
                made = [e for e in o2.st.effects()]
                if isagg(o.val) and o.val[2] == 'Err':
                    ends.add('full')
                    free = [i for i in range(total) if i >= len(cs) or cs[i] == 'empty']
                    room = any(c == 'open' and I.known(st1, lt(sub(val('total', i), val('allocated', i)), space)) == 0 for i, c in enumerate(cs))
                    ctx.ob('write', w, not room and (not free or any(I.known(st1, lt(('in', f'size{i}'), space)) == 1 for i in free)), f'{what} is refused though there is room')
                    ctx.ob('write', w, all(state_of(I, st1, MAP, i) == pre[i] for i in range(len(cs))), f'{what} is refused, but changes the map')
                    ctx.ob('write', w, not [t for e in made for t in ops_in(e) if t[1] in ('finish_zone', 'open_zone', 'write_at')], f'{what} is refused, but closes or opens a zone: what its stripe buffer held is dropped')
                    balance(ctx, 'write', w, I, st1, pre, total, 'a refused write')
                    continue
                lba = proj(proj(o.val, '0'), '0')
                done = [e[1] for e in o2.st.effects() if e[0] == 'await']
                steps = [t for v in done for t in ops_in(v)]
                seq = list(dict.fromkeys(steps))
                wr = [t for t in seq if t[1] == 'write_at']
                op_, cl = [t for t in seq if t[1] == 'open_zone'], [t for t in seq if t[1] == 'finish_zone']
                failed = o2.kind == 'ret' and isagg(o2.val) and o2.val[2] == 'Err'
                where = None
                for i in range(total):
                    s1, v1 = pre[i] if i < len(pre) else ('beyond', {})
                    s2, v2 = state_of(I, st1, MAP, i)
                    if s1 == 'open' and s2 == 'open' and same(I, st1, v2['allocated'], add(v1['allocated'], space)) and same(I, st1, lba, add(v1['start'], v1['allocated'])):
                        where = i
                        rest = {x: y for x, y in v2.items() if x != 'allocated'}
                        ctx.ob('write', w, all(same(I, st1, rest[x], v1[x]) for x in rest), f'{what} changes more of the zone than what is allocated')
                        ctx.ob('write', w, not op_, f'{what} opens a zone that is open')
                    elif s1 in ('beyond', 'empty') and s2 == 'open':
                        where = i
                        good = same(I, st1, lba, lo(i)) and all(same(I, st1, v2[x], y) for x, y in (('allocated', space), ('freed', 0), ('total', ('in', f'size{i}')), ('first', G), ('start', lo(i))))
                        ctx.ob('write', w, good, f'{what} opens a zone wrong: {[(x, pp(y)[:50]) for x, y in v2.items()]}, at {pp(lba)[:50]}')
                        ctx.ob('write', w, failed or [t[-1] for t in op_] == [i], f'{what} opens zone {i} in the map but {[t[-1] for t in op_]} in the device')
                        if wr and op_:
                            ctx.ob('write', w, seq.index(op_[0]) < seq.index(wr[0]), f'{what} does not wait for the zone to be opened')
                    elif s1 == 'open' and s2 in ('closed', 'dead'):
                        ctx.ob('write', w, I.known(st1, lt(sub(v1['total'], v1['allocated']), space)) == 1, f'{what} closes a zone that has room')
                        used = I.known(st1, lt(v1['freed'], v1['allocated']))
                        ctx.ob('write', w, (s2 == 'closed') if used == 1 else (s2 == 'dead') if used == 0 else False, f'{what} makes a full zone {s2}, of which {"some" if used else "nothing"} is in use')
                        if s2 == 'closed':
                            ctx.ob('write', w, same(I, st1, v2['end'], add(G, 1)) and same(I, st1, v2['first'], v1['first']), f'{what} closes a zone as of another transaction')
                        ctx.ob('write', w, failed or [t[-1] for t in cl] == [i], f'{what} closes zone {i} in the map but {[t[-1] for t in cl]} in the device, or nobody waits for that')
                    else:
                        ctx.ob('write', w, (s2 == s1 or s1 == 'beyond' and s2 == 'empty') and (v2 == v1 or s1 == 'beyond'), f'{what} makes of one of the {s1} zones one of the {s2}')
                if ctx.ob('write', w, where is not None, f'{what} returns the place {pp(lba)[:80]}, which it did not allocate'):
                    good = wr and wr[0][-2] == where and same(I, st1, wr[0][-1], lba) and BUF in set(subterms(wr[0]))
                    ctx.ob('write', w, failed or bool(good) and len(wr) == 1, f'{what} returns {pp(lba)[:60]} in zone {where}, but writes {[pp(t)[:90] for t in wr]}')
                if not failed:
                    ends.add('done')
                balance(ctx, 'write', w, I, st1, pre, total, 'a write')
    ctx.floor('write', 'paths', n, 40)
    ctx.ob('write', w, ends == {'full', 'done'}, f'writes end only {sorted(ends)}')


def releasing(ctx):
    """Freeing: the zone of the block, once; the zone is killed when it is closed and nothing is left in it."""
    w = 'cluster::Cluster::free'
    b = ctx.P.fn(w)
    N, LBA = ('in', 'length'), ('in', 'lba')
    n = 0
    for cs in combos(2, (('open', 1),)):
        for i in range(len(cs)):
            if cs[i] not in ('open', 'closed'):
                continue
            I, st = cluster(ctx, cs, len(cs) + 1)
            I.ty[N], I.ty[LBA] = (1, 2**31), (0, 2**40)
            asked = []

            def zone_of(I, st, c):
                asked.append(c.args[1])
                return R(st, some(i))
            I.hooks['vdev::Vdev::lba2zone'] = zone_of
            top = val('allocated', i) if cs[i] == 'open' else val('total', i)
            assert I.assume(st, le(add(val('freed', i), N), top))
            pre = [state_of(I, st, MAP, j) for j in range(len(cs))]
            outs = I.run(b, [CL, LBA, N], st)
            ctx.used(I, outs)
            n += len(outs)
            ctx.ob('release', w, bool(asked) and all(same(I, st, a, LBA) for a in asked), f'space is freed from the zone of {[pp(a)[:40] for a in asked]}')
            for o in outs:
                if not ctx.ob('release', w, o.kind == 'ret', f'freeing from one of the {cs[i]} zones panics though there is enough in use'):
                    continue
                for j, (s1, v1) in enumerate(pre):
                    s2, v2 = state_of(I, o.st, MAP, j)
                    if j != i:
                        ctx.ob('release', w, (s2, v2) == (s1, v1), f'freeing from one zone makes of one of the {s1} others one of the {s2}')
                        continue
                    left = I.known(o.st, lt(add(v1['freed'], N), v1['total'])) if s1 == 'closed' else 1
                    ctx.ob('release', w, s2 == s1 if left == 1 else s2 == 'dead' if left == 0 else False, f'after freeing from one of the {s1} zones, with {"something" if left else "nothing"} left in it, it is {s2}')
                    if s2 == s1:
                        ctx.ob('release', w, same(I, o.st, v2['freed'], add(v1['freed'], N)) and all(same(I, o.st, v2[k], v1[k]) for k in v1 if k != 'freed'), 'freeing counts something else than what is freed')
                balance(ctx, 'release', w, I, o.st, pre, len(cs), 'freeing')
    ctx.floor('release', 'paths', n, 15)
    from checks.C19 import callers
    callers(ctx, 'release', 'cluster::Cluster::free', {'pool::Pool::free'}, '')


def flushing(ctx):
    """Padding a stripe wastes the space in the map that the device padded, before the map is written."""
    w = 'cluster::Cluster::flush'
    b = ctx.P.fn(w)
    GAP = ('in', 'gap')
    for cs in combos(2, (('open', 1),)):
        I, st = cluster(ctx, cs, len(cs))
        from checks.proto import op
        I.ty[GAP] = 'u32'
        opened = [i for i, c in enumerate(cs) if c == 'open']
        I.hooks[RAID + 'flush_zone'] = lambda I, st, c: (st.log('did', 'flush_zone', (c.args[1] if not isinstance(c.args[1], tuple) else I.load(st, c.args[1]),)), R(st, ('agg', 'tuple', '', (('0', GAP), ('1', ('op', 'flush_zone', c.args[1]))))))[1]

        def ser(I, st, c):
            m = I.load(st, c.args[0]) if isinstance(c.args[0], tuple) and c.args[0][0] == 'ref' else c.args[0]
            st.log('did', 'serialize', (I.deep(st, m),))
            arr = I.alloc(st, ('agg', 'array', '', ()))
            return R(st, ('agg', 'it:into', '', (('s', arr), ('i', 0), ('e', 0))))
        I.hooks[T + '::serialize'] = ser
        I.hooks['fixedbitset::FixedBitSet::clear'] = lambda I, st, c: (I.store(st, c.args[0], ('empty', 'bits')), R(st, UNIT))[1]
        for i in opened:
            assert I.assume(st, le(add(val('allocated', i), GAP), val('total', i)))
        pre = [state_of(I, st, MAP, j) for j in range(len(cs))]
        outs = I.run(b, [CL, ('in', 'idx')], st)
        ctx.used(I, outs)
        ctx.ob('flush', w, bool(outs), 'a flush does not end')
        for o in outs:
            if not ctx.ob('flush', w, o.kind == 'ret', f'flushing zones {cs} panics'):
                continue
            did = [e for e in o.st.effects() if e[0] == 'did']
            fl = [e[2][0] for e in did if e[1] == 'flush_zone']
            ctx.ob('flush', w, sorted(fl, key=str) == opened, f'of zones {cs}, {fl} are flushed in the device')
            last = [k for k, e in enumerate(did) if e[1] == 'serialize']
            ctx.ob('flush', w, len(last) == 1 and last[0] == len(did) - 1, 'the map is written before all zones are flushed')
            for j, (s1, v1) in enumerate(pre):
                s2, v2 = state_of(I, o.st, MAP, j)
                v1 = dict(v1)
                if s1 == 'open':
                    v1['allocated'], v1['freed'] = add(v1['allocated'], GAP), add(v1['freed'], GAP)
                ctx.ob('flush', w, s2 == s1 and all(same(I, o.st, v2.get(k), v1[k]) for k in v1), f'a flush makes of one of the {s1} zones one of the {s2}')
                if last:
                    m = did[last[0]][2][0]
                    ref = I.alloc(o.st, m)
                    ctx.ob('flush', w, state_of(I, o.st, ref, j) == (s2, v2), 'the map is written before it counts the padding')
            balance(ctx, 'flush', w, I, o.st, pre, len(cs), 'a flush')


def starting(ctx):
    """A new cluster counts what its map says."""
    P = ctx.P
    w = 'cluster::Cluster::new'
    for cs in combos(2):
        I = small(ctx)
        st = St()
        m = fsm_of(I, st, cs, len(cs) + 1)
        want = 0
        ref = I.alloc(st, m)
        for j in range(len(cs)):
            want = add(want, allocated(*state_of(I, st, ref, j)))
        outs = I.run(P.fn(w), [('agg', 'tuple', '', (('0', m), ('1', ('in', 'vdev'))))], st)
        ctx.used(I, outs)
        for o in outs:
            v = I.deep(o.st, o.val) if o.kind == 'ret' else None
            a = proj(v, 'allocated_space') if v is not None else None
            ctx.ob('start', w, a is not None and any(same(I, o.st, x, want) for x in (a, proj(a, 'v') if isagg(a) else a, a[3][0][1] if isagg(a) and a[3] else a)), f'a cluster of zones {cs} starts with {pp(a)[:80] if a is not None else "a panic"} blocks allocated, not {pp(want)[:80]}')
            ctx.ob('start', w, v is not None and m in set(subterms(v)) or v is not None and I.deep(o.st, m) in set(subterms(v)), 'a cluster does not keep its map')
    w = f'{T}::new'
    I = small(ctx)
    N = ('in', 'zones')
    B = 'fixedbitset::FixedBitSet::'
    I.hooks[B + 'with_capacity'] = lambda I, st, c: R(st, ('bits', c.args[0], 'none'))

    def fill(I, st, c):
        v, r = I.load(st, c.args[0]), c.args[1]
        if not (isinstance(v, tuple) and v[0] == 'bits') or len(c.args) > 2 and c.args[2] != 1:
            return None
        whole = isagg(r) and (r[1].endswith('RangeFull') or r[1].endswith('RangeFrom') and proj(r, 'start') == 0 or r[1].endswith('Range') and proj(r, 'start') == 0 and proj(r, 'end') == v[1])
        I.store(st, c.args[0], ('bits', v[1], 'all' if whole else 'some'))
        return R(st, UNIT)
    I.hooks[B + 'insert_range'] = I.hooks[B + 'set_range'] = I.hooks[B + 'toggle_range'] = fill
    I.ty[N] = 'u32'
    outs = I.run(P.fn(w), [N], St())
    ctx.used(I, outs)
    for o in outs:
        v = I.deep(o.st, o.val) if o.kind == 'ret' else None
        ctx.ob('start', w, v is not None and proj(v, 'total_zones') == N and I.length(proj(v, 'zones')) == 0 and keys_of(proj(v, 'empty_zones'), bool) == [] and keys_of(proj(v, 'open_zones'), bool) == [],
               'a new map does not consist of empty zones')
        d = proj(v, 'dirty') if v is not None else None
        ctx.ob('start', w, d == ('bits', div(add(N, 254), 255), 'all'), f'of the blocks of a new map, those marked for writing are {pp(d)[:80] if d is not None else None}')
