"""The cache keeps its blocks in recency order on an intact list and evicts from the old end."""
from engine.terms import *
from checks.lru_model import *

META = {
    'level': 'other',
    'explanation': 'Shape analysis by abstract interpretation of MIR: every public method of the cache on every list of up to maxlen '
                   'entries with every position of the key. The store and the two end pointers left by each returning path are walked '
                   'as a doubly linked list, which must be well formed in both directions, reach every stored entry and be in the order '
                   'the specification of the method gives. A panic is allowed only where the specification has one.',
    'assumptions': ['lists longer than the bound behave like those within it: a method follows at most one link from the key and from each end',
                    'HashMap implements a map'],
}


def run(ctx):
    n = 0
    for m, l, k, I, o, d in every(ctx, maxlen(ctx)):
        where = OUTER + '::' + m
        case = f'list [{" ".join(l)}] key {k}'
        n += 1
        if o.kind == 'panic':
            ok_ = m == 'insert' and (I.known(o.st, lt(CAP, space(buf('N')))) == 1 or
                                     any(c[0] == 'bufeq' and v == 0 for c, v in o.st.facts.items()))
            ctx.ob('no-panic', where, ok_, f'{case}: can panic: {pp(o.val)[:160]}')
            continue
        if isinstance(d, Bad):
            ctx.ob('list-intact', where, False, f'{case}: {d}')
            continue
        ctx.ob('list-intact', where, True)
        got = [name_of(x) for x, _ in d[0]]
        if m == 'insert':
            r = insert_split(I, o, d, l, k)
            ctx.ob('recency-order', where, bool(r), f'{case}: the list became {got}')
        else:
            want = expected(m, l, k)
            ctx.ob('recency-order', where, got == list(want), f'{case}: the list became {got}, should be {list(want)}')
    ctx.floor('list-intact', 'paths', n, 90)
