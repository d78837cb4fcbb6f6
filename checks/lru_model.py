"""Shape analysis of the LRU cache: every method on every list shape, against the specified list."""
from engine.terms import *
from engine.interp import St, Out
from engine.mir import strip_generics, Missing

CACHE = 'cache::lru::LruCache'
ENTRY = 'cache::lru::LruEntry'
NAMES = 'ABCDE'
CAP = ('in', 'capacity')


def key(n):
    return ('in', 'key' + n)


def buf(n):
    return ('in', 'buf' + n)


def space(b):
    return ('space', b)


def entry(n, prev, nxt):
    o = lambda x: some(key(x)) if x else NONE
    return agg(ENTRY, buf=buf(n), lru=o(prev), mru=o(nxt))


def cache(lst):
    """The cache holding lst, least recently used first."""
    m = ('empty', 'map')
    for i, n in enumerate(lst):
        m = upd(m, (('[]', key(n)),), some(entry(n, lst[i - 1] if i else None, lst[i + 1] if i + 1 < len(lst) else None)))
    size = 0
    for n in lst:
        size = add(size, space(buf(n)))
    return agg(CACHE, capacity=CAP, lru=some(key(lst[0])) if lst else NONE, mru=some(key(lst[-1])) if lst else NONE, size=size, store=m)


SELF = ('P', ('in', 'self'))
OUTER = 'cache::Cache'


def inner(P):
    """The field of the cache that is the LRU list."""
    fs = [f[0] for f in P.adt(OUTER)['variants'][0]['f'] if strip_generics(f[1]) == CACHE]
    if len(fs) != 1:
        raise Missing('the LRU list of the cache')
    return fs[0]


def setup(P, lst, others=()):
    st = St()
    fs = {f[0]: ('in', f[0]) for f in P.adt(OUTER)['variants'][0]['f']}
    fs[inner(P)] = cache(lst)
    st.mem[SELF] = agg(OUTER, **fs)
    size = 0
    for n in lst:
        size = add(size, space(buf(n)))
    # The bound the methods maintain holds of the cache they are given.
    if lst:
        st.ineq = (add(sub(CAP, size), 1),)
    names = list(lst) + list(others)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            st.facts[eq(key(a), key(b))] = 0
    return st


def the_buf(I, st, v):
    v = I.deep(st, v)
    while isinstance(v, tuple) and v[0] in ('&',):
        v = v[1]
    if isinstance(v, tuple) and v[0] == 'ref':
        v = I.read(st, v[1], v[2])
    if isinstance(v, tuple) and v[0] == '*':
        v = v[1]
    return v


def interp(ctx):
    I = ctx.interp(max_paths=4000)
    I.unroll = 12
    for n in NAMES + 'KN':
        I.ty[space(buf(n))] = 'len'
    I.ty[CAP] = 'usize'

    def cache_space(I, st, c):
        v = ('space', the_buf(I, st, c.args[0]))
        I.ty[v] = 'len'
        return [Out('ret', st, v)]

    def make_ref(I, st, c):
        return [Out('ret', st, ('makeref', the_buf(I, st, c.args[0])))]

    def downcast(I, st, c):
        return [Out('ret', st, ok(c.args[0]))]

    def eqbuf(I, st, c):
        a, b = (the_buf(I, st, x) for x in c.args[:2])
        return [Out('ret', st, ('bufeq',) + tuple(sorted((a, b), key=skey)))]
    I.hooks['cache::Cacheable::cache_space'] = cache_space
    I.hooks['cache::Cacheable::make_ref'] = make_ref
    I.hooks['cache::Cacheable::eq'] = eqbuf
    I.hooks['downcast::Downcast::downcast'] = downcast
    return I


class Bad(Exception):
    pass


def decode(I, st, P):
    """(list of (key, buf), size, facts about links) of the cache after a method; Bad if it is no well-formed list."""
    c = proj(st.mem[SELF], inner(P))
    f = lambda n: proj(c, n)
    store = f('store')
    ents = {}
    w = store
    while isinstance(w, tuple) and w[0] == 'with':
        for k, v in w[2]:
            if k[0] == '[]' and k[1] not in ents:
                ents[k[1]] = v
        w = w[1]
    if w != ('empty', 'map'):
        raise Bad('the store is not the one it was: ' + pp(w)[:200])
    ents = {k: v for k, v in ents.items() if v != NONE}
    opt = {}
    for k, v in ents.items():
        if not (isagg(v) and v[2] == 'Some'):
            raise Bad('entry of ' + pp(k) + ' is ' + pp(v)[:200])
        e = proj(v, '0')
        opt[k] = (link(I, st, proj(e, 'lru')), link(I, st, proj(e, 'mru')), the_buf(I, st, proj(e, 'buf')))
    order = []
    k = link(I, st, f('lru'))
    prev = None
    while k is not None:
        if k not in opt:
            raise Bad(f'the list reaches {pp(k)}, which is not stored')
        if k in order:
            raise Bad(f'the list has a cycle at {pp(k)}')
        lo, hi, b = opt[k]
        if lo != prev:
            raise Bad(f'{pp(k)} has the less recently used neighbour {pp(lo) if lo else None}, should be {pp(prev) if prev else None}')
        order.append(k)
        prev, k = k, hi
    if link(I, st, f('mru')) != prev:
        raise Bad(f'the most recently used end is {pp(link(I, st, f("mru")) or ())}, should be {pp(prev or ())}')
    if len(order) != len(opt):
        raise Bad('stored entries are not on the list: ' + ', '.join(pp(k) for k in opt if k not in order))
    return [(k, opt[k][2]) for k in order], f('size'), f('capacity')


def link(I, st, v):
    n = I.variant_of(st, v)
    if n == 'None':
        return None
    if n == 'Some':
        return I.deep(st, I.variant_field(st, v, 'Some'))
    raise Bad('link ' + pp(v)[:200])


def lists(maxlen):
    return [NAMES[:n] for n in range(maxlen + 1)]


def cases(maxlen):
    """(list, K) with K one of the list's keys or absent."""
    for l in lists(maxlen):
        yield l, 'K'
        for k in l:
            yield l, k


def name_of(t):
    return t[1][3:] if isinstance(t, tuple) and t[0] == 'in' else pp(t)


def run_method(ctx, meth, lst, k):
    """Outcomes of a method of the cache holding lst, with key k."""
    P = ctx.P
    I = interp(ctx)
    st = setup(P, lst, '' if k in lst else k)
    b = P.fn(OUTER + '::' + meth)
    args = [('in', 'self')]
    if meth == 'insert':
        args += [key(k), ('in', 'bufN')]
    elif b['argc'] == 2:
        st.mem[('C', 'k')] = key(k)
        args += [('ref', ('C', 'k'), ())]
    outs = I.run(b, args[:b['argc']], st)
    ctx.used(I, outs)
    return I, outs


def expected(meth, lst, k):
    """The names the list should hold after the method (insert excepted)."""
    if meth == 'get' and k in lst:
        return lst.replace(k, '') + k
    if meth == 'remove':
        return lst.replace(k, '')
    if meth == 'drop_cache':
        return ''
    return lst


METHODS = ('get', 'get_ref', 'insert', 'remove', 'drop_cache', 'size', 'capacity')


def every(ctx, maxlen):
    """(method, list, key, interp, outcome, decoded state or Bad) over all methods and shapes."""
    for m in METHODS:
        for l, k in cases(maxlen):
            if m in ('drop_cache', 'size', 'capacity') and k != 'K':
                continue
            I, outs = run_method(ctx, m, l, k)
            for o in outs:
                d = None
                if o.kind == 'ret':
                    try:
                        d = decode(I, o.st, ctx.P)
                    except Bad as e:
                        d = e
                yield m, l, k, I, o, d


def insert_split(I, o, d, lst, k):
    """How an insert ended: every (evicted, kept, fresh) such that the list is lst less its first `evicted` names, plus k if fresh."""
    got = [name_of(x) for x, _ in d[0]]
    out = []
    for e in range(len(lst) + 1):
        rest = list(lst[e:])
        if k in rest:
            if got == rest:
                out.append((e, rest, False))
        elif got == rest + [k]:
            out.append((e, rest, True))
    return out


def maxlen(ctx):
    return 5 if ctx.tier == 'thorough' else 4
