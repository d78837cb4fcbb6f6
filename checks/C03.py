"""The cache's size is the sum of what it holds and never passes its capacity."""
from engine.terms import *
from checks.lru_model import *

META = {
    'level': 'other',
    'explanation': 'Shape analysis by abstract interpretation of MIR: every public method of the cache is interpreted over value '
                   'numbers on every list of up to maxlen entries with every position of the key (and the key absent), block sizes and '
                   'capacity being unknowns. On every path that returns, the recorded size must be the polynomial sum of the sizes of the '
                   'entries then stored, must be known not to exceed the capacity from the conditions of the path, and only entries '
                   'whose eviction the path shows to have been necessary may be gone.',
    'assumptions': ['lists longer than the bound behave like those within it: a method follows at most one link from the key and from each end',
                    'HashMap implements a map; cache_space() of a stored block does not change while it is stored', 'sizes do not overflow usize'],
}


def run(ctx):
    n = 0
    cap = CAP
    for m, l, k, I, o, d in every(ctx, maxlen(ctx)):
        where = OUTER + '::' + m
        case = f'list [{" ".join(l)}] key {k}'
        if o.kind != 'ret':
            continue
        n += 1
        if isinstance(d, Bad):
            ctx.ob('decodable', where, False, f'{case}: {d}')
            continue
        total = 0
        for _, b in d[0]:
            total = add(total, space(b))
            I.ty.setdefault(space(b), 'len')
        ctx.ob('size-is-sum', where, d[1] == total, f'{case}: the recorded size is {pp(d[1])}, the entries sum to {pp(total)}')
        ctx.ob('capacity-constant', where, d[2] == CAP, f'{case}: the capacity became {pp(d[2])}')
        ctx.ob('bounded', where, not l and m != 'insert' or I.known(o.st, lt(cap, d[1])) == 0,
               f'{case}: nothing on the path shows size {pp(d[1])} to be within the capacity')
        if m == 'insert':
            rs = insert_split(I, o, d, l, k)
            ctx.ob('evicts-only-lru', where, bool(rs), f'{case}: the list after inserting is {[name_of(x) for x, _ in d[0]]}')
            if rs:
                ctx.ob('evicts-only-if-needed', where, any(all(needed(I, o, l[i:]) for i in range(r[0])) for r in rs),
                       f'{case}: evicted a block although the new one may have fitted')
        elif m == 'size':
            ctx.ob('reported', where, o.val == d[1], f'{case}: size() returns {pp(o.val)}')
        elif m == 'capacity':
            ctx.ob('reported', where, o.val == CAP, f'{case}: capacity() returns {pp(o.val)}')
    ctx.floor('size-is-sum', 'returning paths', n, 80)
    with ctx.rule('constructor', OUTER + '::with_capacity'):
        I = interp(ctx)
        outs = I.run(ctx.P.fn(OUTER + '::with_capacity'), [CAP])
        ctx.used(I, outs)
        for o in outs:
            c = proj(o.val, inner(ctx.P)) if o.kind == 'ret' else None
            ctx.ob('constructor', OUTER + '::with_capacity', c is not None and proj(c, 'size') == 0 and proj(c, 'capacity') == CAP and
                   proj(c, 'store') == ('empty', 'map') and I.variant_of(o.st, proj(c, 'lru')) == 'None' and
                   I.variant_of(o.st, proj(c, 'mru')) == 'None', 'a new cache is not empty')
    with ctx.rule('block-size', 'DivBufShared::cache_space'):
        b = ctx.P.method(r'divbuf::DivBufShared', 'cache_space', r'Cacheable$')
        I = ctx.interp()
        outs = I.run(b, [('in', 'blk')])
        ctx.used(I, outs)
        for o in outs:
            v = I.deep(o.st, o.val)
            ctx.ob('block-size', b['path'], o.kind == 'ret' and isinstance(v, tuple) and v[0] in ('ret', 'len') and 'len' in str(v[1] if v[0] == 'ret' else 'len')
                   and mentions(v, ('in', 'blk')), f'the space a block takes is {pp(v)}, not its length')


def needed(I, o, held):
    """The path shows that with these blocks held the new one does not fit."""
    left = space(buf('N'))
    for x in held:
        left = add(left, space(buf(x)))
    return I.known(o.st, lt(CAP, left)) == 1
