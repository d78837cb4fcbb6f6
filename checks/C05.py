"""A cache lookup returns the block stored under that key, and conflicting contents are never stored."""
from engine.models import R
from engine.terms import *
from checks.lru_model import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR on every list of up to maxlen entries: each entry must keep the block that was stored under its key, '
                   'get, get_ref and remove must return the block of the key asked for exactly when it is present, and an insert under a key already '
                   'present must return only on paths where the two blocks compared equal. Key equality and block comparison are analysed on '
                   'all variants.',
    'assumptions': ['HashMap implements a map', 'the downcast crate returns the value it was given'],
}


def run(ctx):
    n = 0
    for m, l, k, I, o, d in every(ctx, maxlen(ctx)):
        where = OUTER + '::' + m
        case = f'list [{" ".join(l)}] key {k}'
        if o.kind != 'ret' or isinstance(d, Bad):
            continue
        n += 1
        own = {key(x): buf(x) for x in l}
        fresh = False
        if m == 'insert':
            rs = insert_split(I, o, d, l, k)
            fresh = any(r[2] for r in rs)
            held = [b for kk, b in d[0] if kk == key(k)]
            ctx.ob('insert-stores', where, bool(held), f'{case}: the key is not in the cache after inserting it')
            if fresh:
                own[key(k)] = buf('N')
            if k in l and any(not r[2] for r in rs):
                eqs = [c for c, v in o.st.facts.items() if c[0] == 'bufeq' and v == 1]
                same = any(set(c[1:]) == {buf(k), buf('N')} for c in eqs)
                if not fresh or held == [buf(k)]:
                    own[key(k)] = buf(k)
                    ctx.ob('conflict-detected', where, same, f'{case}: a block was inserted under a present key without the two comparing equal')
                    if same and held == [buf('N')]:
                        own[key(k)] = buf('N')
        for kk, b in d[0]:
            ctx.ob('block-of-key', where, own.get(kk) == b, f'{case}: key {name_of(kk)} holds {pp(b)}, should hold {pp(own.get(kk, ()))}')
        if m in ('get', 'get_ref', 'remove'):
            v = I.variant_of(o.st, o.val)
            if k not in l:
                ctx.ob('returns', where, v == 'None', f'{case}: returns {pp(o.val)[:120]} for an absent key')
            else:
                x = I.deep(o.st, I.variant_field(o.st, o.val, 'Some')) if v == 'Some' else None
                while isinstance(x, tuple) and x[0] == '&':
                    x = x[1]
                want = buf(k) if m == 'remove' else ('makeref', buf(k))
                ctx.ob('returns', where, x == want, f'{case}: returns {pp(x if x else ())[:120]}, should return the block of {k}')
    ctx.floor('block-of-key', 'returning paths', n, 80)
    key_equality(ctx)
    block_equality(ctx)


def key_equality(ctx):
    with ctx.rule('key-equality', 'cache::Key'):
        b = ctx.P.method('cache::Key', 'eq', r'PartialEq')
        vs = ctx.P.adt('cache::Key')['variants']
        ctx.floor('key-equality', 'key variants', len(vs), 2)
        for x in vs:
            for y in vs:
                I = ctx.interp()
                I.hooks_off = True
                st = St()
                mk_ = lambda v, t: ('agg', 'cache::Key', v['n'], tuple((f[0], ('in', t + f[0])) for f in v['f']))
                st.mem[('C', 'x')], st.mem[('C', 'y')] = mk_(x, 'x'), mk_(y, 'y')
                outs = I.run(b, [('ref', ('C', 'x'), ()), ('ref', ('C', 'y'), ())], st)
                ctx.used(I, outs)
                where = f'cache::Key::eq {x["n"]}/{y["n"]}'
                for o in outs:
                    for s, v in I.decide(o.st, o.val) if not isinstance(o.val, int) else [(o.st, o.val)]:
                        if x['n'] != y['n']:
                            ctx.ob('key-equality', where, v == 0, 'keys of different kinds compare equal')
                        else:
                            same = all(e == 1 for f in x['f'] for _, e in I.equal(s.copy(), ('in', 'x' + f[0]), ('in', 'y' + f[0])))
                            diff = any(all(e == 0 for _, e in I.equal(s.copy(), ('in', 'x' + f[0]), ('in', 'y' + f[0]))) for f in x['f'])
                            ctx.ob('key-equality', where, same if v else diff, 'keys compare equal without being the same, or the reverse')


def block_equality(ctx):
    with ctx.rule('block-equality', 'DivBufShared::eq'):
        b = ctx.P.method(r'divbuf::DivBufShared', 'eq', r'Cacheable$')
        I = ctx.interp()
        I.hooks['divbuf::DivBuf::len'] = lambda I, st, c: R(st, I.length(I.load(st, c.args[0])))
        outs = I.run(b, [('in', 'blk'), ('in', 'other')])
        ctx.used(I, outs)
        ctx.floor('block-equality', 'paths', len([o for o in outs if o.kind == 'ret']), 2)
        yes = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            v = o.val
            if v == 0:
                # only a different concrete type compares unequal outright
                okk = any(k[0] == 'discr' and 'downcast' in str(k) and x == 'Err' for k, x in o.st.facts.items())
                okk = okk or any(k[0] in ('eq', 'eq0', 'pos') and mentions(k, ('in', 'blk')) and mentions(k, ('in', 'other')) for k in o.st.facts)
                ctx.ob('block-equality', b['path'], okk, 'blocks are unequal without their contents being compared')
            elif v == 1:
                okk = any(k[0] == 'eq' and x == 1 and whole(k) for k, x in o.st.facts.items())
                ctx.ob('block-equality', b['path'], okk, 'blocks are equal without their whole contents being compared')
                yes += okk
            else:
                okk = isinstance(v, tuple) and v[0] == 'eq' and whole(v)
                ctx.ob('block-equality', b['path'], okk, f'the result is {pp(v)[:160]}, not the equality of the whole contents')
                yes += okk
        ctx.floor('block-equality', 'paths comparing contents', yes, 1)


def whole(c):
    """The two sides of a comparison are the full contents of the two blocks."""
    a, b = c[1], c[2]
    blk, oth = ('in', 'blk'), ('in', 'other')
    if mentions(a, oth):
        a, b = b, a
    # anything but access to the contents yields less than the contents
    access = ('try_const', 'try_mut', 'downcast_ref', 'downcast', 'deref', 'as_ref', 'borrow', 'clone', 'make_ref', 'to_vec', 'index', 'as_slice')
    part = lambda t: any(isinstance(x, tuple) and x and (x[0] in ('sub', '[]', 'len', 'mod', 'div', '+', 'count', 'hash') or
                                                         x[0] == 'ret' and str(x[1]).split('::')[-1] not in access) for x in subterms(t))
    return mentions(a, blk) and not mentions(a, oth) and mentions(b, oth) and not part(a) and not part(b)
