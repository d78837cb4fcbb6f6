"""The B+-tree: nodes are split, merged and evened out without losing an item; every descent takes the child whose range covers the key, hand over hand; what is changed is a copy, and children are
written before their parents."""
from engine.interp import St
from engine.mir import strip_generics
from engine.models import R, ok, err, some, NONE, UNIT, proj
from engine.terms import *
from checks.proto import op, events, strip, show, cause, place, Each

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR, generic in keys and values. The items of a leaf and the children of an inner node are terms of a sequence algebra (parts, joins, insertions and '
                   'removals at a place), so what a split, a merge or a theft leaves on each side is compared with what the nodes held. Of the asynchronous code every path is followed as the sequence '
                   'of locks taken and released, nodes read, copied, written, and credit repaid.',
    'assumptions': ['BTreeMap and Vec are what they say', 'futures_locks excludes as documented', 'the DML below keeps C22 and C23'],
}
N = 'tree::node::'
T = 'tree::tree::Tree::'
W = N + 'TreeWriteGuard::'
TXG = ('in', 'txg')
KVS = ('in', 'kvs')


def run(ctx):
    for r, w, f in (('leaf', N + 'LeafData', leaf), ('child', N + 'IntData::position', child), ('split', N + 'NodeData::split', splitting), ('join', N + 'NodeData', joining),
                    ('limits', N + 'NodeData', limits), ('copy', W + 'xlock', copying),
                    ('read', T + 'get', reading), ('insert', T + 'insert', inserting), ('remove', T + 'remove', removing), ('flush', T + 'flush', flushing), ('write', T + 'write_leaf', leafwriting), ('clean', T + 'clean_zone', cleaning), ('range', T + 'range_delete', deleting), ('range', T + 'range_delete_purge', purging)):
        with ctx.rule(r, w):
            f(ctx)


def fn(ctx, name):
    r = [b for b in ctx.P.bodies.values() if b.get('argc') and strip_generics(b['path']) == name]
    return r[0] if len(r) == 1 else ctx.P.fn(name)


# ---- sequences

def seqlen(I, v):
    """The number of elements of a sequence term."""
    if isinstance(v, tuple) and v:
        if v[0] == 'part':
            return sub(v[3], v[2])
        if v[0] == 'join':
            return add(seqlen(I, v[1]), seqlen(I, v[2]))
        if v[0] == 'less':
            return sub(seqlen(I, v[1]), 1)
        if v[0] == 'more':
            return add(seqlen(I, v[1]), 1)
        if v[0] == 'empty':
            return 0
        if isagg(v) and v[1] in ('vec', 'array'):
            return len(v[3])
    return ('n', strip(v))


def part(I, v, a, b):
    n = seqlen(I, v)
    if a == 0 and b == n:
        return v
    if a == b:
        return ('empty', 'vec')
    if isinstance(v, tuple) and v[0] == 'part':
        return part(I, v[1], add(v[2], a), add(v[2], b)) if True else None
    return ('part', v, a, b)


def join(I, a, b):
    if a == ('empty', 'vec') or a == ('empty', 'map'):
        return b
    if b == ('empty', 'vec') or b == ('empty', 'map'):
        return a
    if a[0] == 'part' and b[0] == 'part' and a[1] == b[1] and a[3] == b[2]:
        return part(I, a[1], a[2], b[3])
    return ('join', a, b)


def world(ctx, writes=True):
    I = ctx.interp()
    h = I.hooks

    def get(I, st, ref):
        return I.deep(st, I.load(st, ref))

    def put(I, st, ref, v):
        I.store(st, ref, v)

    V = 'std::vec::Vec::'
    B = 'std::collections::BTreeMap::'

    def concrete(v):
        return isagg(v) or (isinstance(v, tuple) and v and v[0] in ('push', 'put'))

    def vlen(I, st, c):
        v = get(I, st, c.args[0])
        return None if concrete(v) else R(st, seqlen(I, v))
    for n in ('std::vec::Vec::len', 'core::slice::len', B + 'len'):
        h[n] = vlen
    h[V + 'is_empty'] = h['core::slice::is_empty'] = h[B + 'is_empty'] = lambda I, st, c: None if concrete(get(I, st, c.args[0])) else R(st, eq(seqlen(I, get(I, st, c.args[0])), 0))

    def split_off(I, st, c):
        v = get(I, st, c.args[0])
        n = seqlen(I, v)
        k = c.args[1]
        if c.name.startswith(B):
            k = get(I, st, k)
            k = keyat(k, v)
        put(I, st, c.args[0], part(I, v, 0, k))
        return R(st, part(I, v, k, n))
    h[V + 'split_off'] = h[B + 'split_off'] = split_off

    def append(I, st, c):
        a, b = get(I, st, c.args[0]), get(I, st, c.args[1])
        put(I, st, c.args[0], join(I, a, b) if not c.name.startswith(B) else union(I, a, b))
        put(I, st, c.args[1], ('empty', 'map' if c.name.startswith(B) else 'vec'))
        return R(st, UNIT)
    h[V + 'append'] = h[B + 'append'] = append

    def union(I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'empty':
                return y
        return ('union', frozenset((a, b)))

    def bounds(I, st, v, r, n):
        f = dict(r[3]) if isagg(r) else {}
        t = r[1].split('::')[-1] if isagg(r) else ''
        a = f.get('start', 0)
        b = n if t in ('RangeFull', 'RangeFrom') else f.get('end')
        if t.endswith('Inclusive'):
            b = add(b, 1)
        return a, b

    def drain(I, st, c):
        v = get(I, st, c.args[0])
        n = seqlen(I, v)
        a, b = bounds(I, st, v, I.deep(st, c.args[1]), n)
        put(I, st, c.args[0], join(I, part(I, v, 0, a), part(I, v, b, n)))
        return R(st, ('agg', 'it:seq', '', (('0', part(I, v, a, b)),)))
    h[V + 'drain'] = drain

    def items_of(I, st, x):
        x = I.deep(st, x)
        while isagg(x) and x[1] in ('it:seq',):
            x = x[3][0][1]
        return x

    def splice(I, st, c):
        v = get(I, st, c.args[0])
        n = seqlen(I, v)
        a, b = bounds(I, st, v, I.deep(st, c.args[1]), n)
        put(I, st, c.args[0], join(I, join(I, part(I, v, 0, a), items_of(I, st, c.args[2])), part(I, v, b, n)))
        return R(st, ('agg', 'it:seq', '', (('0', part(I, v, a, b)),)))
    h[V + 'splice'] = splice

    def extend(I, st, c):
        v = get(I, st, c.args[0])
        x = items_of(I, st, c.args[1])
        if concrete(v) or not (isinstance(x, tuple) and x and x[0] in ('part', 'join', 'in')):
            return None
        if 'BTreeMap' in c.argtys[0]:
            put(I, st, c.args[0], union(I, v, x))
        else:
            put(I, st, c.args[0], join(I, v, x))
        return R(st, UNIT)
    h['std::iter::Extend::extend'] = extend

    def remove(I, st, c):
        v = get(I, st, c.args[0])
        if concrete(v):
            return None
        st.log('did', 'remove', strip(place(c.args[0])), v, I.deep(st, c.args[1]))
        put(I, st, c.args[0], ('less', v, c.args[1]))
        return R(st, ('.', v, ('[]', c.args[1])))
    h[V + 'remove'] = remove

    def insert(I, st, c):
        v = get(I, st, c.args[0])
        x = I.deep(st, c.args[2])
        st.log('did', 'insert', strip(place(c.args[0])), v, I.deep(st, c.args[1]), x)
        if isagg(v) and c.args[1] == 0:
            put(I, st, c.args[0], ('agg', v[1], v[2], (('0', x),) + tuple((str(i + 1), y) for i, (_, y) in enumerate(v[3]))))
        else:
            put(I, st, c.args[0], ('more', v, c.args[1], x))
        return R(st, UNIT)
    h[V + 'insert'] = insert

    # the keys of a map, in order
    h[B + 'keys'] = lambda I, st, c: R(st, ('agg', 'it:keys', '', (('0', get(I, st, c.args[0])),)))

    def extract(I, st, c):
        v = get(I, st, c.args[0])
        r = I.deep(st, c.args[1])
        put(I, st, c.args[0], ('outside', v, r))
        st.log('did', 'extract', v, r, [o.val for o in I.apply(st.copy(), c.args[2], [('in', 'k'), ('ref', ('P', ('in', 'v')), ())])] if len(c.args) > 2 else None)
        return R(st, ('inside', v, r))
    h[B + 'extract_if'] = extract
    h[B + 'range'] = lambda I, st, c: R(st, ('inside', get(I, st, c.args[0]), I.deep(st, c.args[1])))
    h[B + 'values'] = h[B + 'into_values'] = lambda I, st, c: R(st, ('values', load_(I, st, c.args[0]) if c.name.endswith('into_values') else get(I, st, c.args[0])))

    def following(I, st, c):
        v = load_(I, st, c.args[0])
        if isinstance(v, tuple) and v and v[0] in ('inside', 'values'):
            return [x for s, p in more(I, st, v) for x in R(s, some(p) if p else NONE)]
        return at(I, st, c, lambda n: 0)

    def more(I, st, v):
        n = st.fresh(('iter', v))
        a, b = st.copy(), st.copy()
        x = ('item', v, n) + ((st.ctx,) if st.ctx else ())
        c = ('more', v, n) + ((st.ctx,) if st.ctx else ())
        a.facts[c], b.facts[c] = 1, 0
        if v[0] == 'inside':
            x = ('agg', 'tuple', '', (('0', ('.', x, '0')), ('1', ('.', x, '1'))))
        return [(a, x), (b, None)]

    def at(I, st, c, i):
        it = I.load(st, c.args[0]) if isinstance(c.args[0], tuple) and c.args[0][0] == 'ref' else c.args[0]
        if not (isagg(it) and it[1] == 'it:keys'):
            return None
        v = it[3][0][1]
        n = seqlen(I, v)
        last = i is None
        i = sub(n, 1) if last else i(n)
        return [x for s, p in I.decide(st, lt(0, n) if last else lt(i, n)) for x in
                R(s, some(('ref', ('P', key_of(v, i)), ())) if p else NONE)]
    h['std::iter::Iterator::nth'] = lambda I, st, c: at(I, st, c, lambda n: c.args[1])
    h['std::iter::Iterator::next'] = following
    h['std::iter::DoubleEndedIterator::next_back'] = lambda I, st, c: at(I, st, c, None)
    h['std::iter::Iterator::last'] = h['std::iter::DoubleEndedIterator::next_back']

    # credit
    C = 'writeback::Credit::'
    for w in ('writeback::', 'writeback::writeback::'):
        C = w + 'Credit::'
        h[C + 'null'] = lambda I, st, c: R(st, cr(0))

        def take(I, st, c):
            a = amount(I.load(st, c.args[0]))
            I.store(st, c.args[0], cr(0))
            return R(st, cr(a))
        h[C + 'take'] = take

        def split(I, st, c):
            a = amount(I.load(st, c.args[0]))
            I.store(st, c.args[0], cr(sub(a, c.args[1])))
            return R(st, cr(c.args[1]))
        h[C + 'split'] = h[C + 'isplit'] = split

        def ext(I, st, c):
            a = amount(I.load(st, c.args[0]))
            I.store(st, c.args[0], cr(add(a, amount(c.args[1]))))
            return R(st, UNIT)
        h[C + 'extend'] = ext
        h[C + 'is_null'] = lambda I, st, c: R(st, eq(amount(I.load(st, c.args[0])), 0))

        def halve(I, st, c):
            v = I.load(st, c.args[0])
            x = ('half', amount(v))
            I.store(st, c.args[0], cr(sub(amount(v), x)))
            return R(st, cr(x))
        h[C + 'halve'] = halve
        for tr, f in (('Add<usize>', add), ('Sub<usize>', sub)):
            h[f'<&mut {w}Credit as std::ops::{tr}>::' + tr[:3].lower()] = lambda I, st, c, f=f: R(st, f(amount(I.load(st, c.args[0])), c.args[1]))

    def arith(f):
        def g(I, st, c):
            if 'Credit' not in c.argtys[0]:
                return None
            a = c.args[0]
            while isinstance(a, tuple) and a[0] == 'ref':
                a = I.load(st, a)
            return R(st, f(amount(a), c.args[1]))
        return g
    h['std::ops::Add::add'] = arith(add)
    h['std::ops::Sub::sub'] = arith(sub)

    def cmp_(f):
        def g(I, st, c):
            if 'Credit' not in c.argtys[0]:
                return None
            a, b = c.args
            for _ in range(3):
                a = I.load(st, a) if isinstance(a, tuple) and a[0] == 'ref' else a
                b = I.load(st, b) if isinstance(b, tuple) and b[0] == 'ref' else b
            return R(st, f(amount(a), b))
        return g
    h['std::cmp::PartialEq::eq'] = cmp_(eq)
    h['std::cmp::PartialEq::ne'] = cmp_(lambda a, b: not_(eq(a, b)))
    h['std::cmp::PartialOrd::lt'] = cmp_(lt)
    h['std::cmp::PartialOrd::ge'] = cmp_(lambda a, b: not_(lt(a, b)))
    h['std::cmp::PartialOrd::le'] = cmp_(lambda a, b: not_(lt(b, a)))
    h['std::cmp::PartialOrd::gt'] = cmp_(lambda a, b: lt(b, a))

    def acredit(I, st, c):
        need = ('need', strip(place(c.args[0])))
        st.log('did', 'acredit', strip(place(c.args[0])))
        a = amount(I.load(st, c.args[1]))
        I.store(st, c.args[1], cr(sub(a, need)))
        return R(st, UNIT)
    h[N + 'LeafData::acredit'] = acredit
    h[N + 'Value::allocated_space'] = lambda I, st, c: R(st, ('alloc', strip(I.deep(st, I.load(st, c.args[0]) if c.args[0][0] == 'ref' else c.args[0]))))
    h[N + 'LeafData::wb_space'] = lambda I, st, c: R(st, space(I, get(I, st, field(c.args[0], 'items'))))
    h['std::mem::size_of'] = lambda I, st, c: R(st, KVS)

    for n in ('get', 'pop', 'put', 'delete', 'evict'):
        h['dml::DML::' + n] = op(n)

    h['std::sync::Arc::try_unwrap'] = unwrap_arc

    def repay(I, st, c):
        st.log('did', 'repay', I.deep(st, c.args[1]))
        return R(st, UNIT)
    h['dml::DML::repay'] = repay
    return I


def unwrap_arc(I, st, c):
    # what is popped belongs to whoever popped it
    return R(st, ok(('*', I.deep(st, c.args[0]))))


def canon(v):
    """A term without references, a guard being the place it guards."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'ref':
        return canon(place(v))
    if v[0] in ('*', '&') and len(v) == 2:
        return canon(v[1])
    if v[0] == 'out' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'ret' and v[1][1] in ('futures_locks::RwLock::write', 'futures_locks::RwLock::read'):
        return canon(v[1][2][0])
    if v[0] == '.' and v[2] == '0' and isinstance(v[1], tuple) and v[1][0] == '.' and v[1][2] == 'v:Ok':
        w = v[1][1]
        if isinstance(w, tuple) and w and w[0] == 'ret' and w[1] in ('futures_locks::RwLock::try_write', 'futures_locks::RwLock::try_read'):
            return canon(w[2][0])
    if v[0] == '+':
        r = 0
        for mono, k in v[1]:
            for a in mono:
                k = mul(k, canon(a))
            r = add(r, k)
        return r
    return tuple(canon(x) for x in v)


def kinds(o):
    """{place of a node's data: its kind}, or None where the path takes one for both."""
    r = {}
    for k, v in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'discr' and v in ('Leaf', 'Int'):
            if r.setdefault(canon(k[1]), v) != v:
                return None
    return r


def load_(I, st, v):
    return I.load(st, v) if isinstance(v, tuple) and v[0] == 'ref' else v


def field(ref, n):
    return ('ref', ref[1], ref[2] + (n,))


def key_of(v, i):
    """The i-th key of a map: of the part of a whole, the key of the whole."""
    while isinstance(v, tuple) and v[0] == 'part':
        v, i = v[1], add(v[2], i)
    return ('key', v, i)


def keyat(k, v):
    """The index in v of a key of v."""
    k = strip(k)
    off = 0
    while isinstance(v, tuple) and v[0] == 'part':
        off, v = add(off, v[2]), v[1]
    if isinstance(k, tuple) and k[0] == 'key' and k[1] == strip(v):
        return sub(k[2], off)
    return ('below', k)


def cr(a):
    return ('agg', 'credit', '', (('0', a),))


def amount(v):
    if isagg(v) and v[1] == 'credit':
        return v[3][0][1]
    return ('amount', strip(v))


def space(I, s):
    """The credit the items need."""
    return ('space', strip(s))


# ---- rules

class Bad(Exception):
    pass


def drive(ctx, I, name, args, st=None, future=False):
    """Every way the function returns (of an asynchronous one: completes)."""
    outs = []
    for o in I.run(fn(ctx, name), args, st or St()):
        outs += I.run_future(o.st, o.val) if future and o.kind == 'ret' else [o]
    ctx.used(I, outs)
    for o in outs:
        # Only a pointer that points nowhere may be refused
        if o.kind == 'panic' and 'Not a TreePtr::A' in str(o.val):
            ctx.ob('panic', name, any(k[0] == 'discr' and x == 'None' for k, x in o.st.facts.items()), f'a node in memory is not taken for one on disk: {str(o.val)[:100]}')
    return [o for o in outs if o.kind == 'ret']


def ref(n):
    return ('ref', ('P', ('in', n)), ())


def a_leaf(n):
    return ('agg', N + 'LeafData', '', (('credit', cr(('in', n + '.credit'))), ('items', ('in', n + '.items'))))


def an_int(n):
    return ('agg', N + 'IntData', '', (('children', ('in', n + '.children')),))


def node(kind, n):
    return ('agg', N + 'NodeData', kind, (('0', (a_leaf if kind == 'Leaf' else an_int)(n)),))


def get(I, st, v, *path):
    v = I.deep(st, I.load(st, v)) if isinstance(v, tuple) and v[0] == 'ref' else v
    for f in path:
        v = proj(v, f)
    return v


def fact(o, pred):
    r = {v for k, v in o.st.facts.items() if pred(k)}
    return r.pop() if len(r) == 1 else None


def flag(o, name):
    """What the path takes the associated constant to be: 1, 0, or None."""
    return fact(o, lambda k: isinstance(k, tuple) and k[0] == 'const' and k[1].endswith('::' + name))


def sources(t, kind):
    return [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == kind]


def summed(I, o, t):
    """t with the sums made by loops over items replaced by ('allocs', items) and their counts by the number of items, and the space of items by its definition."""
    m = {}
    for L in (e[1] for e in o.st.effects() if e[0] == 'loop'):
        src = {k[1] for _, f, _, _ in L.iters for k, v in f.items() if k[0] == 'more' and v}
        if len(src) != 1 or not L.iters:
            continue
        s, = src
        if fact(o, lambda k: k[0] == 'more' and k[1] == s) != 0:
            continue
        for l, y in L.carried.items():
            ds = {sub(it[3].get(l, y), y) for it in L.iters} if L.entry[l] == 0 else ()
            if len(ds) != 1:
                continue
            d, = ds
            if d == 1:
                m[y] = seqlen(I, s[1] if s[0] == 'values' else s)
            elif isinstance(d, tuple) and d[0] == 'alloc':
                it = d[1]
                if s[0] == 'inside' and it[0] == '.' and it[2] == '1':
                    it = it[1]
                if it[0] == 'item' and it[1] == s:
                    m[y] = ('allocs', s[1] if s[0] == 'values' else s)
    t = subst(t, lambda x: m.get(x))
    return subst(t, lambda x: add(('allocs', x[1]), mul(KVS, seqlen(I, x[1]))) if isinstance(x, tuple) and x and x[0] == 'space' else None)


def space_of(I, s):
    return add(('allocs', s), mul(KVS, seqlen(I, s)))


def value(t, env):
    """The value of an arithmetic term."""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    if t[0] == '+':
        r = 0
        for mono, k in t[1]:
            for a in mono:
                k *= value(a, env)
            r += k
        return r
    if t[0] == 'max0':
        return max(0, value(t[1], env))
    if t[0] in ('tdiv', 'div'):
        return value(t[1], env) // t[2]
    if t[0] == 'mod':
        return value(t[1], env) % t[2]
    raise Bad(f'{pp(t)} is not arithmetic')


def one_more():
    return ('agg', 'types::TxgT', '', (('0', add(('.', TXG, '0'), 1)),))


def is_next(v, txg=TXG):
    """v is the transaction after txg."""
    return isagg(v) and len(v[3]) == 1 and v[3][0][1] == add(('.', txg, '0'), 1)


def leaf(ctx):
    P = ctx.P
    # space
    I = world(ctx)
    st = St()
    r = I.alloc(st, a_leaf('L'))
    del I.hooks[N + 'LeafData::wb_space']
    outs = drive(ctx, I, N + 'LeafData::wb_space', [r], st)
    for o in outs:
        t = summed(I, o, o.val)
        ctx.ob('leaf', N + 'LeafData::wb_space', t == space_of(I, ('in', 'L.items')), f'the credit a leaf needs is {pp(t)}; of every item the space it allocates and its own size')
    ctx.floor('leaf', 'ways to measure a leaf', len(outs), 1)

    # insert, remove
    for name, k, v in (('insert', ('in', 'k'), ('in', 'v')), ('remove', ('*', ('in', 'k')), None)):
        where = N + 'LeafData::' + name
        I = world(ctx)
        st = St()
        r = I.alloc(st, a_leaf('L'))
        args = [r, ('in', 'k'), ('in', 'v'), TXG, ref('dml'), cr(('in', 'given'))] if v else [r, ref('dml'), TXG, ref('k')]
        outs = drive(ctx, I, where, args, st, True)
        seen = set()
        for o in outs:
            val = I.deep(o.st, o.val)
            slot = ('.', ('in', 'L.items'), ('[]', ('in', 'k')))
            items = get(I, o.st, r, 'items')
            had = fact(o, lambda x: x[0] == 'discr' and strip(x[1]) == slot or x[0] == 'discr' and x[1] == ('.', ('in', 'L.items'), ('[]', k)))
            uses, flush = flag(o, 'USES_CREDIT'), flag(o, 'NEEDS_FLUSH')
            good = isinstance(items, tuple) and items[0] == 'with' and items[1] == ('in', 'L.items') and len(items[2]) == 1 and strip(items[2][0][0]) == ('[]', ('in', 'k'))
            x = items[2][0][1] if good else None
            good = good and (isagg(x) and x[2] == 'Some' and x[3][0][1] == v if v else isagg(x) and x[2] == 'None')
            ctx.ob('leaf', where, good, f'{name} leaves the items as {pp(items)}; the key, and nothing else, ' + ('has the value now' if v else 'is gone'))
            failed = isagg(val) and val[2] == 'Err'
            if v:
                res, left = proj(val, '0'), proj(val, '1')
            elif failed:
                res, left = val, None
            else:
                res, left = proj(proj(val, '0'), '0'), proj(proj(val, '0'), '1')
                res = ok(res)
            if v:
                failed = isagg(res) and res[2] == 'Err'
            old = strip(slot)
            oldv = ('.', ('.', old, 'v:Some'), '0')
            sp = add(('alloc', oldv), KVS) if had == 'Some' else 0
            delta = sub(amount(get(I, o.st, r, 'credit')), ('in', 'L.credit'))
            if uses:
                want = sub(add(('alloc', ('in', 'v')), KVS), sp) if v else neg(sp)
                ctx.ob('leaf', where, strip(delta) == want, f'the leaf\'s credit changes by {pp(delta)}; the space of its items changes by {pp(want)}')
                if left is not None:
                    got = amount(left)
                    ctx.ob('leaf', where, add(got, delta) == (('in', 'given') if v else 0) or strip(add(got, delta)) == (('in', 'given') if v else 0),
                           f'credit {pp(got)} comes back, and {pp(delta)} went into the leaf; together they are what was given')
            pops = [e for e in events(I, o.st) if e[0] == 'await' and e[1][0] == 'ret' and e[1][1].endswith('Value::dpop')]
            if flush and had == 'Some':
                good = len(pops) == 1 and strip(pops[0][1][2][0]) == oldv and strip(pops[0][1][2][1]) == ('in', 'dml') and pops[0][1][2][2] == TXG
                ctx.ob('leaf', where, good, f'the old value is kept elsewhere and {len(pops)} values are popped: exactly it is, in this transaction')
                if good:
                    out = ('out', pops[0][1])
                    x = res[3][0][1] if isagg(res) and res[3] else None
                    if not failed:
                        x = x[3][0][1] if isagg(x) and x[2] == 'Some' else None
                    ctx.ob('leaf', where, x == ('.', ('.', out, 'v:Err' if failed else 'v:Ok'), '0'), f'what popping it gives is the result, but {pp(res)} is')
            else:
                ctx.ob('leaf', where, not pops and not failed, f'there is nothing to pop, but {show(pops)[:200]} is')
                x = res[3][0][1] if isagg(res) and res[3] else None
                ctx.ob('leaf', where, strip(x) == old or had == 'None' and isagg(x) and x[2] == 'None' or had == 'Some' and isagg(x) and strip(x[3][0][1]) == oldv, f'the result is the old value, but {pp(res)} is')
            seen.add((uses, flush, had))
        for had in ('Some', 'None'):
            ctx.ob('leaf', where, any(u and h == had for u, f, h in seen), f'{name} with credit is followed where the key is ' + ('there' if had == 'Some' else 'not there'))
        ctx.floor('leaf', f'ways through {name}', len(outs), 6)

    # get, last_key
    I = world(ctx)
    st = St()
    r = I.alloc(st, a_leaf('L'))
    outs = drive(ctx, I, N + 'LeafData::get', [r, ref('k')], st)
    slot = ('.', ('in', 'L.items'), ('[]', ('in', 'k')))
    for o in outs:
        v = I.deep(o.st, o.val)
        had = fact(o, lambda x: x[0] == 'discr')
        ctx.ob('leaf', N + 'LeafData::get', strip(v) == slot or isagg(v) and v[2] == had and (v[2] == 'None' or strip(v[3][0][1]) == ('.', ('.', slot, 'v:Some'), '0')),
               f'get returns {pp(v)} where the key\'s slot is {had}')
    ctx.floor('leaf', 'ways through get', len(outs), 1)
    last = ('key', ('in', 'L.items'), sub(('n', ('in', 'L.items')), 1))
    I = world(ctx)
    st = St()
    r = I.alloc(st, a_leaf('L'))
    outs = drive(ctx, I, N + 'LeafData::last_key', [r], st)
    for o in outs:
        v = I.deep(o.st, o.val)
        empty = has_items(o) == 0
        ctx.ob('leaf', N + 'LeafData::last_key', isagg(v) and (v[2] == 'None' if empty else v[2] == 'Some' and strip(v[3][0][1]) == last), f'last_key returns {pp(v)} of {"an empty" if empty else "a"} leaf')
    ctx.floor('leaf', 'ways through last_key', len(outs), 2)

    # range
    where = N + 'LeafData::range'
    I = world(ctx)
    st = St()
    r = I.alloc(st, a_leaf('L'))
    outs = drive(ctx, I, where, [r, ('in', 'range')], st)
    for o in outs:
        v = I.deep(o.st, o.val)
        items, more = proj(v, '0'), proj(v, '1')
        if has_items(o) == 0:
            ctx.ob('leaf', where, items and (items[0] == 'empty' or isagg(items) and not items[3]), f'an empty leaf yields {pp(items)}')
            continue
        b = [(k, x) for k, x in o.st.facts.items() if k[0] == 'discr' and k[1][0] == 'ret' and k[1][1].endswith('end_bound')]
        kind = b[0][1] if b else None
        if kind in ('Included', 'Excluded'):
            e = ('.', ('.', b[0][0][1], 'v:' + kind), '0')
            beyond = I.known(o.st, lt(strip(last), strip(e)))
            if beyond is None:
                beyond = fact_lt(o, last, e)
            incl = fact_lt(o, e, last)
            # the range ends within the leaf iff its end is not above the last key
            ends = beyond is False or incl is True
            ctx.ob('leaf', where, more == 1 if not ends else more in (0, 1), f'a range that ends above the last key of a leaf may have more, and range says {more}')
            ctx.ob('leaf', where, more in (0, 1) and (beyond is not None or incl is not None), f'whether there may be more is decided by the end and the last key')
        else:
            ctx.ob('leaf', where, more == 1, f'an endless range may have more, and range says {more}')
        got = collected(o, items)
        ctx.ob('leaf', where, got is not None and got[0] == ('inside', ('in', 'L.items'), ('in', 'range')) and got[1], f'range yields {pp(items)}: every item of the leaf inside the range, in order, with its key')
    ctx.floor('leaf', 'ways through range', len(outs), 5)

    # range_delete
    for name in ('range_delete', 'range_delete_unaccredited'):
        where = N + 'LeafData::' + name
        I = world(ctx)
        st = St()
        r = I.alloc(st, a_leaf('L'))
        outs = drive(ctx, I, where, [r, ref('dml'), TXG, ('in', 'range')], st, True)
        for o in outs:
            v = I.deep(o.st, o.val)
            gone = ('inside', ('in', 'L.items'), ('in', 'range'))
            items = get(I, o.st, r, 'items')
            ex = [e for e in events(I, o.st) if e[0] == 'did' and e[1] == 'extract']
            pred = [e[-1] for e in ex]
            ctx.ob('leaf', where, strip(items) == ('outside', ('in', 'L.items'), ('in', 'range')) and all(p == [1] for p in pred), f'the items outside the range stay, every one inside goes; left are {pp(items)}')
            c = summed(I, o, sub(('in', 'L.credit'), amount(get(I, o.st, r, 'credit'))))
            ctx.ob('leaf', where, c == space_of(I, gone), f'credit {pp(c)} leaves the leaf, with the items inside the range')
            if isagg(v) and v[2] == 'Ok':
                c = summed(I, o, amount(proj(v, '0')))
                ctx.ob('leaf', where, c == space_of(I, gone), f'credit {pp(c)} is returned, that of the items inside the range')
            for L in (e[1] for e in o.st.effects() if e[0] == 'loop'):
                for _, f, eff, mem in L.iters:
                    if not any(k[0] == 'more' and k[1] == gone and x for k, x in f.items()):
                        continue
                    fl = [x for k, x in f.items() if k[0] == 'const' and k[1].endswith('NEEDS_FLUSH')]
                    dr = [e for e in eff if e[0] == 'call' and e[1].endswith('Value::ddrop')]
                    kept = [e for e in eff if e[0] == 'item' and dr and e[1] == dr[0][3]]
                    n = 1 if fl == [1] or not fl else 0
                    it = [k for k in f if k[0] == 'more'][0]
                    ctx.ob('leaf', where, len(dr) == len(kept) == n and all(strip(d[2][0]) == ('.', ('item',) + it[1:], '1') and d[2][2] == TXG for d in dr) or not fl,
                           f'{len(dr)} values are dropped of an item whose value {"is" if n else "is not"} kept elsewhere, and {len(kept)} of the futures gathered')
        ctx.floor('leaf', f'ways through {name}', len(outs), 2)


def has_items(o):
    """0 where the path has found the leaf empty, 1 where it has found an item."""
    e = ('n', ('in', 'L.items'))
    for k, v in o.st.facts.items():
        if k == ('pos', e):
            return v
        if k == ('pos', sub(1, e)):
            return 1 - v
        if k[0] in ('eq0',) and k[1] in (e, neg(e)):
            return 1 - v
    return None


def fact_lt(o, a, b):
    """Whether a < b, where the path has found out; else None. The facts are about order, and its atoms are compared without their references."""
    for k, v in o.st.facts.items():
        if k[0] == 'pos':
            t = subst(k[1], lambda x: strip(x) if isinstance(x, tuple) and strip(x) != x else None)
            d = sub(strip(b), strip(a))
            if t == d:
                return bool(v)
            if add(t, d) == 1:
                return not v
    return None


def collected(o, v):
    """(the source, whether each turn adds (key, value) of its item) of what a loop has gathered in v."""
    for L in (e[1] for e in o.st.effects() if e[0] == 'loop'):
        for l, y in L.carried.items():
            if y != v:
                continue
            srcs = {k[1] for _, f, _, _ in L.iters for k, x in f.items() if k[0] == 'more' and x}
            if len(srcs) != 1 or fact(o, lambda k: k[0] == 'more' and k[1] in srcs) != 0:
                return None
            good = True
            for _, f, eff, mem in L.iters:
                it = [k for k in f if k[0] == 'more'][0]
                x = mem.get(l)
                good = good and isinstance(x, tuple) and x[0] == 'push' and x[1] == y and strip(x[2]) == ('agg', 'tuple', '', (('0', ('.', ('item',) + it[1:], '0')), ('1', ('.', ('item',) + it[1:], '1'))))
            return srcs.pop(), good
    return None


def child(ctx):
    """position: the rightmost child whose key is at most k, or the first where there is none."""
    where = N + 'IntData::position'
    I = world(ctx)
    st = St()
    r = I.alloc(st, an_int('I'))
    le = ('in', 'le')
    probe = {}

    def compares(I, st, c, what):
        for o in I.apply(st.copy(), c.args[1], [ref('elem')]):
            probe.setdefault(what, []).append((strip(I.deep(o.st, o.val)), dict(o.st.facts)))
        return strip(I.deep(st, I.load(st, c.args[0]) if c.args[0][0] == 'ref' else c.args[0]))

    def search(I, st, c):
        compares(I, st, c, 'cmp')
        a, b = st.copy(), st.copy()
        a.facts[('pos', le)] = 1                   # found: some child has the key itself, the last of those at most k
        return R(a, ok(sub(le, 1))) + R(b, err(le))

    def point(I, st, c):
        compares(I, st, c, 'le')
        return R(st, le)
    I.hooks['core::slice::binary_search_by'] = search
    I.hooks['core::slice::partition_point'] = point
    I.ty[le] = (0, None)
    outs = drive(ctx, I, where, [r, ref('k')], st)
    key, k = ('.', ('in', 'elem'), 'key'), ('in', 'k')
    for what, rs in probe.items():
        for v, f in rs:
            if what == 'cmp':
                good = v == ('cmp', key, k)
            else:
                d = [x for y, x in f.items() if y == ('pos', sub(key, k))]
                good = v == not_(lt(k, key)) or d and v == 1 - d[0]
            ctx.ob('child', where, good, f'children are looked for by {pp(v)}: those whose key is at most the one asked for come first')
    ctx.ob('child', where, bool(probe), 'the children are searched by their keys')
    for o in outs:
        for n in (0, 1, 2, 7):
            f = {x: y for x, y in o.st.facts.items() if le in atoms_of(x)}
            if any(truth(x, y, {le: n}) is False for x, y in f.items()):
                continue
            try:
                got = value(o.val, {le: n})
            except Bad as e:
                got = str(e)
            ctx.ob('child', where, got == max(n, 1) - 1, f'where {n} children have a key at most k, position is {got}')
    ctx.floor('child', 'ways through position', len(outs), 2)


def atoms_of(t):
    return set(x for x in subterms(t) if isinstance(x, tuple))


def truth(k, v, env):
    try:
        if k[0] == 'pos':
            return (value(k[1], env) > 0) == bool(v)
        if k[0] == 'eq0':
            return (value(k[1], env) == 0) == bool(v)
        if k[0] == 'eq':
            return (value(k[1], env) == value(k[2], env)) == bool(v)
    except (Bad, TypeError, KeyError, IndexError):
        return None
    return None


def oldest(ctx, I):
    """IntData::start_txg is the least start of the children's ranges, and is taken for it."""
    J = world(ctx)
    st = St()
    r = J.alloc(st, an_int('I'))
    where = N + 'IntData::start_txg'
    n = 0
    for o in drive(ctx, J, where, [r], st):
        v = J.deep(o.st, o.val)
        n += 1
        good = False
        for L in (e[1] for e in o.st.effects() if e[0] == 'loop'):
            for l, y in L.carried.items():
                if v != ('.', ('.', y, 'v:Some'), '0'):
                    continue
                c = [(a, b) for a, b in L.carried.items() if L.iters and all(sub(it[3].get(a, b), b) == 1 for it in L.iters) and L.entry[a] == 0]
                good = len(c) == 1 and all(it[3].get(l) == some(('extreme', 0, ('.', ('.', ('.', ('in', 'I.children'), ('[]', c[0][1])), 'txgs'), 'start'))) for it in L.iters)
                good = good and o.st.facts.get(('pinned', c[0][1])) in (('len', ('in', 'I.children')), ('n', ('in', 'I.children')))
        ctx.ob('split', where, good, f'the oldest transaction of an inner node is {pp(v)}: the least start of its children\'s')
    ctx.floor('split', 'ways to find the oldest transaction', n, 1)
    I.hooks[where] = lambda I, st, c: R(st, ('oldest', get(I, st, c.args[0], 'children')))


def splitting(ctx):
    fst = lambda s: ('.', ('.', s, ('[]', 0)), 'key')
    # a leaf
    where = N + 'LeafData::split'
    for kind in ('Leaf', 'Int'):
        where = N + kind + 'Data::split'
        I = world(ctx)
        if kind == 'Int':
            oldest(ctx, I)
        st = St()
        r = I.alloc(st, a_leaf('L') if kind == 'Leaf' else an_int('L'))
        n = ('in', 'n')
        f = 'items' if kind == 'Leaf' else 'children'
        whole = ('in', 'L.' + f)
        lo, hi = part(I, whole, 0, n), part(I, whole, n, seqlen(I, whole))
        outs = drive(ctx, I, where, [r, n, TXG], st)
        for o in outs:
            v = I.deep(o.st, o.val)
            mine, el = proj(v, '0'), proj(v, '1')
            left = get(I, o.st, r, f)
            data = inside(I, o.st, el)
            right = proj(data, f) if data is not None else None
            ctx.ob('split', where, left == lo and right == hi, f'a node of {pp(whole)} is split into {pp(left)} and {pp(right)}: the first n and the others')
            want = ('*', ('key', whole, n)) if kind == 'Leaf' else fst(hi)
            ctx.ob('split', where, strip(proj(el, 'key')) in (strip(want), strip(('.', ('.', whole, ('[]', n)), 'key'))), f'the new node\'s key is {pp(proj(el, "key"))}, the first of its own')
            for x, s, w in ((mine, left, 'old'), (proj(el, 'txgs'), right, 'new')):
                a, b = proj(x, 'start'), proj(x, 'end')
                ctx.ob('split', where, is_next(b) and a == (TXG if kind == 'Leaf' else ('oldest', s)), f'the {w} half was written in {pp(a)} .. {pp(b)}; its children are that old, and it will be written in this transaction')
            if kind == 'Leaf':
                uses = flag(o, 'USES_CREDIT')
                a, b = amount(get(I, o.st, r, 'credit')), amount(proj(data, 'credit'))
                ctx.ob('split', where, strip(add(a, b)) == ('in', 'L.credit'), f'the credit of the halves, {pp(a)} and {pp(b)}, is that of the leaf')
                if uses:
                    b = summed(I, o, b)
                    ctx.ob('split', where, b == space_of(I, hi), f'the new half takes credit {pp(b)}, that of its items')
        ctx.floor('split', f'ways to split a {kind}', len(outs), 1)

    # how many stay
    where = N + 'NodeData::split'
    for kind in ('Leaf', 'Int'):
        I = world(ctx)

        def halves(I, st, c):
            st.log('did', 'split', c.args[1], I.deep(st, c.args[2]))
            return R(st, ('halves', c.args[1]))
        I.hooks[N + kind + 'Data::split'] = halves
        st = St()
        r = I.alloc(st, node(kind, 'L'))
        lim = limits_of(I, st)
        outs = drive(ctx, I, where, [r, lim, ('in', 'seq'), TXG], st)
        n = ('n', ('in', 'L.' + ('items' if kind == 'Leaf' else 'children')))
        for o in outs:
            sp = [e for e in events(I, o.st) if e[0] == 'did' and e[1] == 'split']
            ctx.ob('split', where, len(sp) == 1, f'a node is split {len(sp)} times')
            for e in sp:
                ctx.ob('split', where, I.deep(o.st, o.val) == ('halves', e[2]) and e[3] == TXG, 'what splitting it gives is returned')
                good = True
                lo = ('in', f'min_{kind.lower()}_fanout')
                for m, a in ((2, 5), (2, 6), (4, 9), (4, 12), (1, 3), (91, 364)):
                    try:
                        k = value(e[2], {n: a, lo: m})
                    except Bad:
                        good = False
                        break
                    # both halves are full enough, and nothing is lost
                    good = good and m <= k <= a - m
                ctx.ob('split', where, good, f'{pp(e[2])} of the {kind}\'s {pp(n)} stay; at least min_fanout stay and at least min_fanout go, where there are twice as many')
        ctx.floor('split', f'ways to split a {kind} node', len(outs), 2)


def limits_of(I, st):
    r = I.alloc(st, ('agg', N + 'Limits', '', tuple((f, ('in', f)) for f in ('min_int_fanout', 'max_int_fanout', 'min_leaf_fanout', 'max_leaf_fanout', '_max_size'))))
    for f in ('min_int_fanout', 'max_int_fanout', 'min_leaf_fanout', 'max_leaf_fanout'):
        I.ty[('in', f)] = (0, 65535)
    return r


def inside(I, st, el):
    """The data of the node in memory that an elem points to."""
    p = proj(el, 'ptr') if el is not None else None
    if not (isagg(p) and p[2] == 'Mem'):
        return None
    return data_of(I, st, p[3][0][1])


def data_of(I, st, n):
    n = I.deep(st, n)
    for _ in range(6):
        if isinstance(n, tuple) and n and n[0] in ('&', '*'):
            n = n[1]
        elif isinstance(n, tuple) and n and n[0] == 'ref':
            n = I.deep(st, I.load(st, n))
        elif isagg(n) and n[1].endswith('NodeData'):
            return n[3][0][1]
        elif isagg(n) and len(n[3]) == 1:
            n = n[3][0][1]
        elif isagg(n) and any(f == 'data' for f, _ in n[3]):
            n = dict(n[3])['data']
        else:
            break
    return None


def joining(ctx):
    for kind in ('Leaf', 'Int'):
        f = 'items' if kind == 'Leaf' else 'children'
        A, B = ('in', 'A.' + f), ('in', 'B.' + f)
        na, nb = ('n', A), ('n', B)
        # merge
        where = N + 'NodeData::merge'
        I = world(ctx)
        st = St()
        a, b = I.alloc(st, node(kind, 'A')), I.alloc(st, node(kind, 'B'))
        g = ('agg', N + 'TreeWriteGuard', '', (('0', b),))
        outs = drive(ctx, I, where, [a, g], st)
        for o in outs:
            x, y = get(I, o.st, a, '0'), get(I, o.st, b, '0')
            s, t = proj(x, f), proj(y, f)
            ctx.ob('join', where, s in ((('join', A, B),) if kind == 'Int' else (('union', frozenset((A, B))), ('join', A, B))), f'merged, a {kind} holds {pp(s)}: its own, then the other\'s')
            if kind == 'Leaf':
                c, d = amount(proj(x, 'credit')), amount(proj(y, 'credit'))
                ctx.ob('join', where, (c, d) == (add(('in', 'A.credit'), ('in', 'B.credit')), 0), f'merged, a leaf has credit {pp(c)} and the other {pp(d)}')
        ctx.floor('join', f'ways to merge a {kind}', len(outs), 1)
        # theft
        for which in ('high', 'low'):
            where = N + f'NodeData::take_{which}_keys'
            I = world(ctx)
            st = St()
            a, b = I.alloc(st, node(kind, 'A')), I.alloc(st, node(kind, 'B'))
            outs = drive(ctx, I, where, [a, b], st)
            for o in outs:
                x, y = get(I, o.st, a, '0'), get(I, o.st, b, '0')
                s, t = proj(x, f), proj(y, f)
                cut = None
                if isinstance(t, tuple) and t[0] == 'part' and t[1] == B:
                    cut = t[3] if which == 'high' else t[2]
                    good = t[2] == 0 if which == 'high' else t[3] == nb
                ctx.ob('join', where, cut is not None and good, f'the other {kind} keeps {pp(t)}, its {"first" if which == "high" else "last"}')
                if cut is None:
                    continue
                moved = part(I, B, cut, nb) if which == 'high' else part(I, B, 0, cut)
                m = sub(nb, cut) if which == 'high' else cut
                if kind == 'Leaf':
                    good = s == ('union', frozenset((A, moved)))
                else:
                    good = s == (('join', moved, A) if which == 'high' else ('join', A, moved))
                ctx.ob('join', where, good, f'it takes {pp(s)}: all the other does not keep, on that side')
                good = True
                for p, q in [(p, q) for p in range(0, 9) for q in range(p + 1, 20)]:
                    try:
                        k = value(m, {na: p, nb: q})
                    except Bad:
                        good = False
                        break
                    good = good and 1 <= k <= max(1, (q - p + 1) // 2)
                ctx.ob('join', where, good, f'{pp(m)} move: at least one, and no more than even the two out')
                if kind == 'Leaf':
                    c, d = (sub(amount(proj(z, 'credit')), ('in', w + '.credit')) for z, w in ((x, 'A'), (y, 'B')))
                    c, d = summed(I, o, c), summed(I, o, d)
                    ctx.ob('join', where, c == space_of(I, moved) and add(c, d) == 0, f'credit {pp(c)} moves, and {pp(d)} from the other; that of the items')
            ctx.floor('join', f'ways to take {which} keys', len(outs), 1)


def limits(ctx):
    """The tests that keep every node within its limits."""
    def pred(kind, name, args, want, n=2, tweak=None, what=''):
        where = N + 'NodeData::' + name
        I = world(ctx)
        st = St()
        a = I.alloc(st, node(kind, 'A'))
        b = I.alloc(st, node(kind, 'B'))
        lim = limits_of(I, st)
        f = 'items' if kind == 'Leaf' else 'children'
        na, nb = ('n', ('in', 'A.' + f)), ('n', ('in', 'B.' + f))
        I.ty[na] = I.ty[nb] = (0, 1 << 40)
        outs = drive(ctx, I, where, [{'a': a, 'b': b, 'lim': lim, 'k': ref('k')}[x] for x in args], st)
        lo, hi = ('in', f'min_{kind.lower()}_fanout'), ('in', f'max_{kind.lower()}_fanout')
        bad = None
        hit = 0
        for p in range(0, 11):
            for q in (range(0, 11) if 'b' in args else (0,)):
                for mn, mx in ((1, 3), (2, 5), (2, 8), (4, 9)):
                    env = {na: p, nb: q, lo: mn, hi: mx}
                    if p > mx:
                        continue
                    rs = set()
                    for o in outs:
                        if any(truth(x, y, env) is False for x, y in o.st.facts.items()):
                            continue
                        had = fact(o, lambda x: x[0] == 'discr') == 'Some'
                        try:
                            rs.add((bool(evaluate(o.val, env)), had))
                            hit += 1
                        except (Bad, TypeError):
                            rs.add(('?', had))
                    for v, had in rs:
                        if v != want(p, q, mn, mx, had):
                            bad = (p, q, mn, mx, v, had)
        ctx.ob('limits', where, bad is None and hit, f'{name} of a {kind} of {bad and bad[0]} (limits {bad and bad[2:4]}) is {bad and bad[4]}; {what}')
        ctx.floor('limits', f'ways through {name} of a {kind}', len(outs), 1)
    for kind in ('Leaf', 'Int'):
        pred(kind, 'can_merge', ('a', 'b', 'lim'), lambda p, q, mn, mx, h: p + q <= mx, what='two nodes can be merged where the result is not too large')
        pred(kind, 'in_danger', ('a', 'lim'), lambda p, q, mn, mx, h: p <= mn, what='a node is in danger where losing one child makes it too small')
        pred(kind, 'in_extra_danger', ('a', 'lim'), lambda p, q, mn, mx, h: p <= mn + 1, what='... where losing two does')
        pred(kind, 'underflow', ('a', 'lim'), lambda p, q, mn, mx, h: p < mn, what='a node underflows below the minimum')
        pred(kind, 'should_split', ('a', 'k', 'lim'), lambda p, q, mn, mx, h: p >= mx and not (kind == 'Leaf' and h), what='a full node is split, but for a leaf that has the key')


def evaluate(t, env):
    """The value of a term that may be a condition."""
    if isinstance(t, tuple) and t:
        if t[0] == 'pos':
            return value(t[1], env) > 0
        if t[0] == 'eq0':
            return value(t[1], env) == 0
        if t[0] == 'not':
            return not evaluate(t[1], env)
    return value(t, env)


def copying(ctx):
    """A node is changed only in memory: one on disk is popped (so that its block is free and nobody else has it) and takes the place of its address."""
    kids, idx = ('in', 'kids'), ('in', 'idx')
    slot = ('.', kids, ('[]', idx))
    ptr = ('.', slot, 'ptr')
    addr, mem = ('.', ('.', ptr, 'v:Addr'), '0'), ('.', ('.', ('.', ptr, 'v:Mem'), '0'), '0')

    def parent(I, st):
        return I.alloc(st, ('agg', N + 'NodeData', 'Int', (('0', ('agg', N + 'IntData', '', (('children', kids),))),)))

    for name in ('xlock', 'xlock_nc'):
        where = W + name
        I = world(ctx)
        oldest(ctx, I)
        st = St()
        c = parent(I, st)
        g = ('agg', N + 'TreeWriteGuard', '', (('0', c),))
        if name == 'xlock':
            args = [g, ref('dml'), idx, TXG, cr(('in', 'given'))]
        else:
            args = [I.alloc(st, g), ref('dml'), idx, ('in', 'height'), TXG, cr(('in', 'given'))]
        seen = set()
        for o in drive(ctx, I, where, args, st, True):
            ks = kinds(o)
            if ks is None:
                continue
            v = I.deep(o.st, o.val)
            evs = events(I, o.st)
            ops = [e for e in evs if e[0] == 'op']
            now = proj(get(I, o.st, c, '0'), 'children')
            now = dict(now[2]).get(('[]', idx)) if isinstance(now, tuple) and now[0] == 'with' and now[1] == kids and len(now[2]) == 1 else None
            ctx.ob('copy', where, now is not None, 'the child, and no other, is marked as changed in this transaction')
            if now is None:
                continue
            nptr, ntx = proj(now, 'ptr'), proj(now, 'txgs')
            is_mem = fact(o, lambda k: k == ('discr', ptr))
            ctx.ob('copy', where, is_next(proj(ntx, 'end')), f'the child\'s range ends with {pp(proj(ntx, "end"))}: after this transaction')
            ctx.ob('copy', where, proj(now, 'key') == ('.', slot, 'key'), f'the child\'s key becomes {pp(proj(now, "key"))}')
            failed = isagg(v) and v[2] == 'Err'
            start = proj(ntx, 'start')
            if is_mem == 'Mem':
                locks = [e[1:3] for e in evs if e[0] == 'lock']
                ctx.ob('copy', where, not ops and locks == [('write', mem)] and not failed, f'a child in memory is locked for writing: {show(evs)[:300]}')
                gd, left = (proj(proj(v, '0'), '1'), proj(proj(v, '0'), '2'))
                ctx.ob('copy', where, canon(proj(gd, '0')) == mem and nptr == ptr, f'the guard of a child in memory is of {pp(canon(proj(gd, "0")))}')
                ctx.ob('copy', where, amount(left) == ('in', 'given'), f'locking a child in memory leaves credit {pp(left)}')
                ctx.ob('copy', where, start in (('.', ('.', slot, 'txgs'), 'start'), TXG), f'its range starts with {pp(start)}')
                if start == TXG:
                    ctx.ob('copy', where, name == 'xlock_nc' and I.known(o.st, eq(('in', 'height'), 1)), 'the range of a leaf starts with this transaction; that of an inner node with its oldest')
                if name == 'xlock_nc':
                    ctx.ob('copy', where, proj(proj(v, '0'), '0')[2] == 'None', 'a child in memory stays where it is')
            elif is_mem == 'Addr':
                good = len(ops) == 1 and ops[0][1] == 'pop' and tuple(strip(x) for x in ops[0][2:]) == (('in', 'dml'), addr, TXG)
                ctx.ob('copy', where, good, f'a child on disk is popped once, in this transaction: {show(evs)[:300]}')
                if not good:
                    continue
                x = canon(('.', ('.', ('out', ops[0]), 'v:Ok'), '0'))
                data = ('.', x, '0')
                if failed:
                    ctx.ob('copy', where, nptr == ptr, f'where popping the child fails it is {pp(nptr)} still')
                    seen.add('Err')
                    continue
                r = proj(v, '0')
                gd, left = canon(proj(proj(r, '1'), '0')), proj(r, '2')
                if name == 'xlock_nc':
                    el = proj(r, '0')
                    el = el[3][0][1] if isagg(el) and el[2] == 'Some' else None
                    ctx.ob('copy', where, el is not None, 'the copy of a child comes back in a new elem')
                    if el is None:
                        continue
                    nptr, ntx = proj(el, 'ptr'), proj(el, 'txgs')
                    start = proj(ntx, 'start')
                    k = canon(proj(el, 'key'))
                    ctx.ob('copy', where, k in (('key', ('.', ('.', ('.', data, 'v:Leaf'), '0'), 'items'), 0), ('.', ('.', ('.', ('.', ('.', data, 'v:Int'), '0'), 'children'), ('[]', 0)), 'key')),
                           f'its key is {pp(k)}: its first')
                    ctx.ob('copy', where, is_next(proj(ntx, 'end')), f'its range ends with {pp(proj(ntx, "end"))}: after this transaction')
                ctx.ob('copy', where, isagg(nptr) and nptr[2] == 'Mem' and canon(unref(I, o.st, nptr[3][0][1])) == x and gd == data, f'the child is now {pp(nptr)}, and the guard of {pp(gd)}: what was popped')
                leafy = ks.get(data)
                ac = [e[2] for e in evs if e[0] == 'did' and e[1] == 'acredit']
                need = ('.', ('.', data, 'v:Leaf'), '0')
                ctx.ob('copy', where, [canon(a) for a in ac] == ([need] if leafy == 'Leaf' else []), f'a copied {leafy} takes credit: {[pp(a) for a in ac]}')
                ctx.ob('copy', where, canon(amount(left)) == (sub(('in', 'given'), ('need', need)) if leafy == 'Leaf' else ('in', 'given')), f'the credit left is {pp(amount(left))}')
                want = TXG if leafy == 'Leaf' else ('oldest', ('.', ('.', ('.', data, 'v:Int'), '0'), 'children'))
                ctx.ob('copy', where, canon(start) == want, f'the range of a copied {leafy} starts with {pp(start)}')
                seen.add(leafy)
            seen.add(is_mem)
        for k in ('Mem', 'Addr', 'Err', 'Leaf', 'Int'):
            ctx.ob('copy', where, k in seen, f'{name} of a child is followed: {k}')

    # the root
    where = T + 'xlock_root'
    I = world(ctx)
    st = St()
    ptr = ('in', 'ptr')
    addr, mem = ('.', ('.', ptr, 'v:Addr'), '0'), ('.', ('.', ('.', ptr, 'v:Mem'), '0'), '0')
    g = I.alloc(st, a_root(ptr))
    seen = set()
    for o in drive(ctx, I, where, [ref('dml'), g, TXG, cr(('in', 'given'))], st, True):
        ks = kinds(o)
        if ks is None:
            continue
        v = I.deep(o.st, o.val)
        evs = events(I, o.st)
        ops = [e for e in evs if e[0] == 'op']
        now = get(I, o.st, g, 'elem')
        nptr, ntx = proj(now, 'ptr'), proj(now, 'txgs')
        ctx.ob('copy', where, is_next(proj(ntx, 'end')) and proj(ntx, 'start') in (('in', 'start'), TXG) and proj(now, 'key') == ('in', 'key') and get(I, o.st, g, 'height') == ('in', 'height'),
               f'the root becomes {pp(now)[:300]}: its range ends after this transaction')
        is_mem = fact(o, lambda k: k == ('discr', ptr))
        failed = isagg(v) and v[2] == 'Err'
        seen.add(is_mem)
        if failed:
            ctx.ob('copy', where, nptr == ptr and is_mem == 'Addr', 'where popping the root fails it stays')
            seen.add('Err')
            continue
        r = proj(v, '0')
        gd, left = canon(proj(proj(r, '1'), '0')), proj(r, '2')
        ctx.ob('copy', where, canon(I.deep(o.st, proj(r, '0'))) == canon(get(I, o.st, g)), f'the tree stays locked')
        if is_mem == 'Mem':
            ctx.ob('copy', where, not ops and [e[1:3] for e in evs if e[0] == 'lock'] == [('write', mem)] and gd == mem and nptr == ptr and amount(left) == ('in', 'given'), f'a root in memory is locked: {show(evs)[:300]}')
            continue
        good = len(ops) == 1 and ops[0][1] == 'pop' and tuple(strip(x) for x in ops[0][2:]) == (('in', 'dml'), addr, TXG)
        ctx.ob('copy', where, good, f'a root on disk is popped once, in this transaction: {show(evs)[:300]}')
        if not good:
            continue
        x = canon(('.', ('.', ('out', ops[0]), 'v:Ok'), '0'))
        data = ('.', x, '0')
        leafy = ks.get(data)
        need = ('.', ('.', data, 'v:Leaf'), '0')
        ac = [canon(e[2]) for e in evs if e[0] == 'did' and e[1] == 'acredit']
        ctx.ob('copy', where, isagg(nptr) and nptr[2] == 'Mem' and canon(unref(I, o.st, nptr[3][0][1])) == x and gd == data, f'the root is now {pp(nptr)}, and the guard of {pp(gd)}: what was popped')
        ctx.ob('copy', where, ac == ([need] if leafy == 'Leaf' else []) and canon(amount(left)) == (sub(('in', 'given'), ('need', need)) if leafy == 'Leaf' else ('in', 'given')), f'a copied {leafy} takes credit; {pp(amount(left))} is left')
        seen.add(leafy)
    for k in ('Mem', 'Addr', 'Err', 'Leaf', 'Int'):
        ctx.ob('copy', where, k in seen, f'locking the root is followed: {k}')

    # many children at once
    where = W + 'drain_xlock'
    I = world(ctx)
    st = St()
    c = parent(I, st)
    outs = drive(ctx, I, where, [('agg', N + 'TreeWriteGuard', '', (('0', c),)), ref('dml'), ('agg', 'std::ops::Range', '', (('start', ('in', 'a')), ('end', ('in', 'b')))), TXG, ('in', 'f')], st, True)
    mid = part(I, kids, ('in', 'a'), ('in', 'b'))
    for o in outs:
        now = proj(get(I, o.st, c, '0'), 'children')
        ctx.ob('copy', where, now == join(I, part(I, kids, 0, ('in', 'a')), part(I, kids, ('in', 'b'), ('n', kids))), f'the children in the range leave; {pp(now)} stay')
        al = [e for e in events(I, o.st) if e[0] == 'all']
        good = len(al) == 1 and al[0][2] and all(e.src == ('agg', 'it:seq', '', (('0', mid),)) and e.whole for e in al[0][2])
        ctx.ob('copy', where, good, f'every one of them is locked, and all are waited for: {show(al)[:300]}')
    # what is done with each
    n = 0
    for L in (e[1] for o in outs for e in o.st.effects() if e[0] == 'loop'):
        for _, f, eff, mem in L.iters:
            item = [('item',) + k[1:] for k in f if k[0] == 'more'][0]
            futs = [e[1] for e in eff if e[0] == 'item'] or [x[2] for x in mem.values() if isinstance(x, tuple) and x[0] == 'push']
            kind = [v for k, v in f.items() if k == ('discr', ('.', item, 'ptr'))]
            ctx.ob('copy', where, len(futs) == 1 and len(kind) == 1, 'one future is gathered for each child')
            for fu in futs:
                s2 = St()
                s2.facts.update(f)
                s2.mem.update({k: v for k, v in outs[0].st.mem.items()})
                for q in I.run_future(s2, fu):
                    if q.kind != 'ret':
                        continue
                    evs = events(I, q.st)
                    ops = [e for e in evs if e[0] == 'op']
                    ad = ('.', ('.', ('.', item, 'ptr'), 'v:Addr'), '0')
                    calls = [e for e in q.st.effects() if e[0] in ('call', 'apply') and "('in', 'f')" in str(e)]
                    n += 1
                    failed = isagg(I.deep(q.st, q.val)) and I.deep(q.st, q.val)[2] == 'Err'
                    if kind == ['Mem']:
                        ctx.ob('copy', where, not ops and [e[1:3] for e in evs if e[0] == 'lock'] == [('write', ('.', ('.', ('.', ('.', item, 'ptr'), 'v:Mem'), '0'), '0'))], f'a child in memory is locked for writing: {show(evs)[:200]}')
                    else:
                        ctx.ob('copy', where, len(ops) == 1 and ops[0][1] == 'pop' and strip(ops[0][3]) == strip(ad) and ops[0][4] == TXG, f'a child on disk is popped in this transaction: {show(evs)[:200]}')
    ctx.floor('copy', 'ways to lock one of many children', n, 2)

    # reading
    where = N + 'IntElem::rlock'
    I = world(ctx)
    st = St()
    r = I.alloc(st, an_elem(ptr))
    addr = ('.', ('.', ptr, 'v:Addr'), '0')
    mem = ('.', ('.', ('.', ptr, 'v:Mem'), '0'), '0')
    n = 0
    for o in drive(ctx, I, where, [r, ref('dml')], st, True):
        v = I.deep(o.st, o.val)
        evs = events(I, o.st)
        ops = [e for e in evs if e[0] == 'op']
        locks = [e[1:3] for e in evs if e[0] == 'lock']
        n += 1
        if fact(o, lambda k: k == ('discr', ptr)) == 'Mem':
            gd = canon(proj(proj(v, '0'), '0'))
            ctx.ob('copy', where, not ops and locks == [('read', mem)] and gd == mem and proj(v, '0')[2] == 'Mem', f'a node in memory is locked for reading: {show(evs)[:300]}')
            continue
        good = len(ops) == 1 and ops[0][1] == 'get' and tuple(strip(x) for x in ops[0][2:]) == (('in', 'dml'), addr)
        ctx.ob('copy', where, good, f'a node on disk is read: {show(evs)[:300]}')
        if good and v[2] == 'Ok':
            x = canon(('.', ('.', ('out', ops[0]), 'v:Ok'), '0'))
            w = proj(v, '0')
            ctx.ob('copy', where, w[2] == 'Addr' and canon(proj(w, '0')) == ('.', x, '0') and canon(proj(w, '1')) == x and canon(locks) == (('read', ('.', x, '0')),) or canon(tuple(locks)) == (('read', ('.', x, '0')),),
                   f'what was read is locked, and kept while it is: {pp(v)[:300]}')
    ctx.floor('copy', 'ways to lock a node for reading', n, 3)

    # credit for a copy
    where = N + 'LeafData::acredit'
    I = world(ctx)
    del I.hooks[where]
    st = St()
    r = I.alloc(st, a_leaf('L'))
    g = I.alloc(st, cr(('in', 'given')))
    n = 0
    for o in drive(ctx, I, where, [r, g], st):
        a, b = amount(get(I, o.st, r, 'credit')), amount(get(I, o.st, g))
        need = ('space', ('in', 'L.items'))
        n += 1
        if flag(o, 'USES_CREDIT'):
            ctx.ob('copy', where, a == need and b == sub(('in', 'given'), need), f'a copied leaf takes credit {pp(a)} and leaves {pp(b)}')
        else:
            ctx.ob('copy', where, (a, b) == (('in', 'L.credit'), ('in', 'given')), 'where keys use no credit none moves')
    ctx.floor('copy', 'ways to give a copy credit', n, 2)


def an_elem(ptr):
    return ('agg', N + 'IntElem', '', (('key', ('in', 'key')), ('txgs', ('agg', 'std::ops::Range', '', (('start', ('in', 'start')), ('end', ('in', 'end'))))), ('ptr', ptr)))


def a_root(ptr):
    return ('agg', 'tree::tree::TreeRoot', '', (('height', ('in', 'height')), ('elem', an_elem(ptr))))


def unref(I, st, v):
    return I.deep(st, I.load(st, v)) if isinstance(v, tuple) and v[0] == 'ref' else v


RECURSE = ('get_r', 'last_key_r', 'get_range_r', 'insert_int', 'insert_int_no_split', 'insert_leaf_no_split', 'remove_int', 'remove_no_fix', 'fix_int', 'xlock_root', 'xlock_and_merge_root', 'flush_once',
           'flush_r', 'flush_leaves', 'write_leaf', 'range_delete_pass1', 'range_delete_pass2', 'range_delete_pass2_r', 'range_delete_purge', 'rewrite_node_r', 'get_dirty_nodes_r', 'addresses_r', 'check_r',
           'rewrite_node', 'get_dirty_nodes')


def tree(ctx):
    """The world of the asynchronous functions of the tree: each is followed by itself, and calls the others."""
    I = world(ctx)
    for n in RECURSE:
        I.hooks[T + n] = op(n)
    I.hooks[N + 'IntElem::rlock'] = op('rlock')
    for n in ('xlock', 'xlock_nc', 'drain_xlock'):
        I.hooks[W + n] = op(n)
    I.hooks[N + 'IntData::position'] = lambda I, st, c: R(st, ('child', strip(get(I, st, c.args[0], 'children')), strip(I.deep(st, c.args[1]))))
    I.hooks[N + 'IntData::start_txg'] = lambda I, st, c: R(st, ('oldest', get(I, st, c.args[0], 'children')))
    def borrow(I, st, c):
        # a key is its value, whichever variable holds it
        v = I.deep(st, c.args[0])
        return R(st, ('ref', ('P', strip(v)), ())) if isinstance(c.args[0], tuple) and c.args[0][0] == 'ref' and c.args[0][1][0] == 'L' and not c.args[0][2] and not isagg(v) else None
    I.hooks['std::borrow::Borrow::borrow'] = borrow
    for n, e in (('start_bound', 'lo'), ('end_bound', 'hi')):
        I.hooks['std::ops::RangeBounds::' + n] = lambda I, st, c, e=e: R(st, (e, canon(I.deep(st, c.args[0]))))
    return I


def read_guard(n):
    return ('agg', N + 'TreeReadGuard', 'Mem', (('0', ('out', ('ret', 'futures_locks::RwLock::read', (('ref', ('P', ('in', n)), ()),), 0))),))


def write_guard(n):
    return ('agg', N + 'TreeWriteGuard', '', (('0', ('out', ('ret', 'futures_locks::RwLock::write', (('ref', ('P', ('in', n)), ()),), 0))),))


def reading(ctx):
    """How get, last_key and get_range find the leaf, and what they return of it."""
    node_ = ('in', 'node')
    kids = ('.', ('.', ('.', node_, 'v:Int'), '0'), 'children')
    items = ('.', ('.', ('.', node_, 'v:Leaf'), '0'), 'items')
    root = ('.', ('in', 'self'), 'root')
    K, RANGE = ('in', 'k'), ('in', 'range')

    def passed_on(o, v, evs):
        """Whether the path ends with the error of its last attempt to lock."""
        last = [e for e in evs if e[0] == 'op'][-1:]
        return isagg(v) and v[2] == 'Err' and last and canon(v[3][0][1]) == ('.', ('.', ('out', canon(last[0])), 'v:Err'), '0')

    def got(e):
        return ('.', ('.', ('out', canon(e)), 'v:Ok'), '0')

    def ok_order(evs, first, then):
        i = [n for n, e in enumerate(evs) if e[0] == 'op' and e[1] == 'rlock']
        j = [n for n, e in enumerate(evs) if e[0] == 'unlock' and canon(e[2]) == first]
        k = [n for n, e in enumerate(evs) if e[0] == 'op' and e[1] == then]
        return i and j and k and max(i) < min(j) < max(k)

    # from the root
    for name, rest in (('get', (K,)), ('last_key', ()), ('get_range', (NONE, RANGE))):
        where = T + name
        I = tree(ctx)
        args = [ref('self')] + [x for x in rest if not isagg(x)]
        n = 0
        for o in drive(ctx, I, where, args, None, True):
            v, evs = I.deep(o.st, o.val), events(I, o.st)
            ops = [canon(e) for e in evs if e[0] == 'op']
            n += 1
            good = ops and ops[0] == ('op', 'rlock', ('.', root, 'elem'), ('.', ('in', 'self'), 'dml')) and [e[1:2] + (canon(e[2]),) for e in evs if e[0] == 'lock'] == [('read', root)]
            ctx.ob('read', where, good, f'the lookup begins at the root, locked: {show(evs)[:300]}')
            if not good or passed_on(o, v, evs):
                continue
            want = ('op', name + '_r', ('.', ('in', 'self'), 'dml'), got(ops[0])) + rest
            ctx.ob('read', where, ops[1:] == [want] and canon(v) == ('out', want), f'it goes on in the root with the same key: {show(evs)[:400]}')
            ctx.ob('read', where, ok_order(evs, root, name + '_r'), f'the tree\'s root is let go only once its node is locked: {show(evs)[:400]}')
        ctx.floor('read', f'ways through {name}', n, 2)

    # in a node
    for name, rest in (('get_r', (K,)), ('last_key_r', ())):
        where = T + name
        I = tree(ctx)
        I.ty[('n', kids)] = (1, None)
        at = ('child', kids, K) if rest else sub(('n', kids), 1)
        n = 0
        for o in drive(ctx, I, where, [ref('dml'), read_guard('node')] + list(rest), None, True):
            v, evs = I.deep(o.st, o.val), events(I, o.st)
            ops = [canon(e) for e in evs if e[0] == 'op']
            kind = (kinds(o) or {}).get(node_)
            n += 1
            if kind == 'Leaf':
                ctx.ob('read', where, not ops and isagg(v) and v[2] == 'Ok', f'in a leaf the lookup ends: {show(evs)[:200]}')
                x = canon(v[3][0][1])
                if rest:
                    f = fact(o, lambda k: canon(k) == ('discr', ('.', items, ('[]', K))))
                    want = NONE if f == 'None' else some(('.', ('.', ('.', items, ('[]', K)), 'v:Some'), '0')) if f == 'Some' else None
                else:
                    e = [y for k, y in o.st.facts.items() if canon(k) == ('pos', sub(1, ('n', items)))] or [1 - y for k, y in o.st.facts.items() if canon(k) in (('pos', ('n', items)), )]
                    want = NONE if e == [1] else some(('key', items, sub(('n', items), 1))) if e == [0] else None
                ctx.ob('read', where, want is not None and x == want, f'of a leaf {pp(x)} is returned')
                continue
            lk = ('op', 'rlock', ('.', kids, ('[]', at)), ('in', 'dml'))
            ctx.ob('read', where, kind == 'Int' and ops[:1] == [lk], f'the lookup goes down to child {pp(at)}: {show(evs)[:300]}')
            if passed_on(o, v, evs):
                continue
            want = ('op', name, ('in', 'dml'), got(lk)) + rest
            ctx.ob('read', where, ops[1:] == [want] and canon(v) == ('out', want), f'it goes on there with the same key: {show(evs)[:400]}')
            ctx.ob('read', where, ok_order(evs, node_, name), f'a node is let go only once its child is locked: {show(evs)[:400]}')
        ctx.floor('read', f'ways through {name}', n, 4)

    # ranges
    where = T + 'get_range_r'
    n = 0
    for nxt in (None, 'next'):
        I = tree(ctx)
        I.ty[('n', kids)] = (1, None)
        I.hooks[N + 'LeafData::range'] = lambda I, st, c: R(st, ('agg', 'tuple', '', (('0', ('within', strip(get(I, st, c.args[0], 'items')), strip(I.deep(st, c.args[1])))), ('1', ('beyond', RANGE)))))
        I.ty[('beyond', RANGE)] = (0, 1)
        I.hooks['std::collections::VecDeque::is_empty'] = lambda I, st, c: R(st, ('nothing', RANGE))
        I.ty[('nothing', RANGE)] = (0, 1)
        for nm in ('Node', 'NodeData'):
            I.hooks[f'{N}{nm}::key'] = lambda I, st, c: R(st, ('first', guarded(canon(c.args[0]))))
        ng = some(read_guard('next')) if nxt else NONE
        for o in drive(ctx, I, where, [ref('dml'), read_guard('node'), ng, RANGE], None, True):
            v, evs = I.deep(o.st, o.val), events(I, o.st)
            ops = [canon(e) for e in evs if e[0] == 'op']
            kind = (kinds(o) or {}).get(node_)
            hi = fact(o, lambda k: k == ('discr', ('hi', RANGE)))
            lo = fact(o, lambda k: k == ('discr', ('lo', RANGE)))
            n += 1
            if kind == 'Leaf':
                nothing = tri(o, ('nothing', RANGE))
                beyond = tri(o, ('beyond', RANGE))
                there = ('within', canon(items), RANGE)
                for a in (0, 1) if nothing is None else (nothing,):
                    for b in (0, 1) if beyond is None else (beyond,):
                        if a and b and nxt:
                            want = ('op', 'get_range_r', ('in', 'dml'), canon(proj(ng, '0')), NONE, RANGE)
                            good = ops == [want] and canon(v) == ('out', want)
                        else:
                            bound = NONE
                            if b and not a:
                                bound = some(('agg', 'std::ops::Bound', 'Included', (('0', ('first', ('in', 'next'))),))) if nxt else some(('agg', 'std::ops::Bound', 'Excluded', (('0', ('key', items, sub(('n', items), 1))),)))
                            good = not ops and isagg(v) and v[2] == 'Ok' and canon(proj(proj(v, '0'), '0')) == there and canon(proj(proj(v, '0'), '1')) == bound
                        ctx.ob('read', where, good, f'a leaf with {"no" if a else "some"} items in the range, {"with" if b else "without"} more beyond it, {"another node following" if nxt else "none following"}: {show(evs)[:200]} returns {pp(v)[:300]}')
                continue
            i = ('child', kids, ('.', ('.', ('lo', RANGE), 'v:' + str(lo)), '0')) if lo in ('Included', 'Excluded') else 0
            first = ('op', 'rlock', ('.', kids, ('[]', i)), ('in', 'dml'))
            second = ('op', 'rlock', ('.', kids, ('[]', add(i, 1))), ('in', 'dml'))
            last = None
            for k, x in o.st.facts.items():
                k = canon(k)
                if k[0] == 'pos':
                    d = sub(add(i, 1), ('n', kids))
                    if k[1] == neg(d):
                        last = not x
                    elif k[1] == add(d, 1):
                        last = bool(x)
            if passed_on(o, v, evs):
                ctx.ob('read', where, set(ops) <= {first, second}, f'what is locked is the child where the range starts, and the next: {show(evs)[:300]}')
                continue
            rec = ops[-1] if ops else None
            ctx.ob('read', where, kind == 'Int' and rec and rec[:4] == ('op', 'get_range_r', ('in', 'dml'), got(first)) and rec[5] == RANGE and canon(v) == ('out', rec) and set(ops[:-1]) <= {first, second} and first in ops,
                   f'it goes on with the same range in child {pp(i)}: {show(evs)[:400]}')
            ctx.ob('read', where, ok_order(evs, node_, 'get_range_r'), f'a node is let go only once its children are locked: {show(evs)[:400]}')
            follow = rec[4]
            keys = (('.', ('.', kids, ('[]', add(i, 1))), 'key'), ('first', got(second)))
            if last is None:
                ctx.ob('read', where, False, 'whether the child is the last one is not looked at')
            elif last:
                ctx.ob('read', where, follow == canon(ng) and second not in ops, f'after the last child comes what follows this node, not {pp(follow)[:200]}')
            else:
                # None is right where the next child, or what was found in it, begins beyond the range
                outside = False
                if hi in ('Included', 'Excluded'):
                    e = ('.', ('.', ('hi', RANGE), 'v:' + hi), '0')
                    for q in keys:
                        a = rel(o, e, q)          # sign constraints on q - e
                        outside = outside or a is not None and (a > 0 or a == 0 and hi == 'Excluded')
                ctx.ob('read', where, follow == some(got(second)) and not outside or follow == NONE and outside, f'what follows the child is the next one iff it begins within the range: {pp(follow)[:200]}')
    ctx.floor('read', 'ways through a range', n, 20)


def guarded(p):
    """The guard a node is reached through."""
    while p[0] == '.' and p[2] in ('0', '1', 'v:Mem', 'v:Addr'):
        if p[2] == '0' and p[1][0] == '.' and p[1][2] == 'v:Ok':
            break
        p = p[1]
    return p


def tri(o, x):
    """What the path takes the truth value x for."""
    for k, v in o.st.facts.items():
        if k == x or k == ('pos', x):
            return v
        if k in (('eq0', x), ('eq0', neg(x))):
            return 1 - v
        if k == ('pos', sub(1, x)):
            return 1 - v
    return None


def rel(o, a, b):
    """1 where the path has found a < b, 0 where a <= b only, -1 where b <= a is known, None otherwise."""
    r = None
    for k, v in o.st.facts.items():
        k = canon(k)
        if k[0] != 'pos':
            continue
        if k[1] == sub(b, a):
            return 1 if v else -1
        if k[1] == sub(a, b):
            r = 0 if not v else -1
        if k[1] == add(sub(a, b), 1):
            return -1 if v else 1
        if k[1] == add(sub(b, a), 1):
            r = 0 if v else -1
    return r


def written(I, o):
    """{place: its value} of everything the path has written that was there before."""
    r = {}
    for k, v in o.st.mem.items():
        if isinstance(k, tuple) and k and k[0] == 'P':
            x, p = I.deep(o.st, v), canon(k[1])
            if canon(x) != p:
                r[p] = canon(x)
    return r


def changes(v, base, path=()):
    """{path: value} of all that differs in v from base."""
    if v == base:
        return {}
    if isinstance(v, tuple) and v[0] == 'with' and v[1] == base:
        r = {}
        for k, x in v[2]:
            r.update(changes(x, ('.', base, k), path + (k,)))
        return r
    return {path: v}


def field_of(I, o, base, *path):
    """What a field of the node or guard `base` (a canonical place) holds now."""
    for k in o.st.mem:
        if isinstance(k, tuple) and k and k[0] == 'P' and canon(k[1]) == base:
            v = I.load(o.st, ('ref', k, ()))
            for f in path:
                v = I.load(o.st, v) if isinstance(v, tuple) and v[0] == 'ref' else v
                v = proj(v, f)
            return canon(I.deep(o.st, v))
    v = base
    for f in path:
        v = ('.', v, f)
    return v


def apart(a, b):
    """Whether two places are different nodes: neither contains the other."""
    def within(x, y):
        while isinstance(x, tuple) and x[0] == '.':
            if x == y:
                return True
            x = x[1]
        return x == y
    return not within(a, b) and not within(b, a)


def splits(ctx):
    """A world in which whether a node is to be split, and the two halves, are names."""
    I = tree(ctx)

    def split(I, st, c):
        n = canon(place(c.args[0]))
        st.log('did', 'split', n, *[canon(I.deep(st, a)) for a in c.args[1:]])
        return R(st, ('agg', 'tuple', '', (('0', ('age', n)), ('1', ('half', n)))))
    I.hooks[N + 'NodeData::split'] = split
    I.hooks[N + 'NodeData::should_split'] = lambda I, st, c: R(st, ('full', canon(place(c.args[0])), canon(I.deep(st, c.args[1])), canon(I.deep(st, c.args[2]))))
    return I


def wguard(p):
    return ('agg', N + 'TreeWriteGuard', '', (('0', p),))


def inserting(ctx):
    """insert: the way down, splitting every full node on it."""
    K, V, SELF = ('in', 'k'), ('in', 'v'), ('in', 'self')
    GIVEN = cr(('in', 'given'))
    lim, seq, dml = ('.', SELF, 'limits'), ('.', SELF, 'sequentially_optimized'), ('.', SELF, 'dml')
    kids = lambda p: ('.', ('.', ('.', p, 'v:Int'), '0'), 'children')
    out = lambda e, *p: field_path(('.', ('.', ('out', e), 'v:Ok'), '0'), p)

    # a child of an inner node
    where = T + 'insert_int'
    I = splits(ctx)
    parent, child_, idx = ('in', 'parent'), ('in', 'child'), ('in', 'idx')
    n = 0
    for o in drive(ctx, I, where, [ref('self'), write_guard('parent'), idx, write_guard('child'), K, V, TXG, GIVEN], None, True):
        v, evs = canon(I.deep(o.st, o.val)), [canon(e) for e in events(I, o.st)]
        ops = [e for e in evs if e[0] == 'op']
        done = [e for e in evs if e[0] == 'did']
        w = written(I, o)
        full = tri(o, ('full', child_, K, lim))
        kind = fact(o, lambda k: canon(k) == ('discr', child_))
        n += 1
        ctx.ob('insert', where, full is not None, 'whether the child is full is asked with the key to insert and the tree\'s limits')
        if full:
            want = ('op', 'insert_int_no_split', SELF, wguard(parent), K, V, TXG, GIVEN)
            after = ('with', kids(parent), ((('[]', idx), ('with', ('.', kids(parent), ('[]', idx)), (('txgs', ('age', child_)),))),))
            ins = [e for e in done if e[1] == 'insert']
            ctx.ob('insert', where, [e for e in done if e[1] == 'split'] == [('did', 'split', child_, lim, seq, TXG)], f'a full child is split once: {pp(done)[:300]}')
            ctx.ob('insert', where, len(ins) == 1 and ins[0][2] == kids(parent) and same_with(ins[0][3], kids(parent), idx, 'txgs', ('age', child_)) and ins[0][4] == add(idx, 1) and ins[0][5] == ('half', child_),
                   f'its other half is entered right after it, and its own transactions are those of the half that stayed: {pp(ins)[:400]}')
            ctx.ob('insert', where, set(w) <= {parent} and len([e for e in evs if e[0] in ('mapinsert', 'mapremove')]) == 0, f'nothing else is changed: {pp(list(w))[:200]}')
            ctx.ob('insert', where, ops == [want] and v == ('out', want), f'then the insertion starts over in the parent: {pp(ops)[:300]}')
            ctx.ob('insert', where, before(evs, ('unlock', child_), 'insert_int_no_split'), 'the child is let go before it is looked for again')
        elif kind == 'Leaf':
            want = ('op', 'insert_leaf_no_split', ('.', kids(parent), ('[]', idx)), wguard(child_), K, V, TXG, dml, GIVEN)
            ctx.ob('insert', where, ops == [want] and v == ('out', want) and not done and not w, f'a leaf with room takes the item: {pp(ops)[:300]}')
        else:
            want = ('op', 'insert_int_no_split', SELF, wguard(child_), K, V, TXG, GIVEN)
            ctx.ob('insert', where, kind == 'Int' and ops == [want] and v == ('out', want) and not done and not w, f'in an inner node with room the insertion goes on: {pp(ops)[:300]}')
    ctx.floor('insert', 'ways to insert below a node', n, 3)

    # an inner node
    where = T + 'insert_int_no_split'
    I = splits(ctx)
    node_ = ('in', 'node')
    at = ('child', kids(node_), K)
    first = ('.', ('.', kids(node_), ('[]', at)), 'key')
    lk = ('op', 'xlock', wguard(node_), dml, at, TXG, GIVEN)
    n = 0
    for o in drive(ctx, I, where, [ref('self'), write_guard('node'), K, V, TXG, GIVEN], None, True):
        v, evs = canon(I.deep(o.st, o.val)), [canon(e) for e in events(I, o.st)]
        ops = [e for e in evs if e[0] == 'op']
        w = written(I, o)
        n += 1
        less = rel(o, K, first)
        low = less == 1
        want = {} if not low else {node_}
        ctx.ob('insert', where, less is not None and set(w) == set(want) and (not low or field_of(I, o, node_, 'v:Int', '0', 'children') in lowered(kids(node_), at, 'key', K)),
               f'the key of the child {"becomes the one to insert, which is lower" if low else "stays, unless the one to insert is lower"}: {pp(w)[:300]}')
        ctx.ob('insert', where, ops[:1] == [lk], f'the child for the key is locked: {pp(ops)[:300]}')
        if isagg(v) and v[2] == 'Err':
            ctx.ob('insert', where, len(ops) == 1 and v[3][0][1] == ('.', ('.', ('out', lk), 'v:Err'), '0'), 'only what the lock reports is reported')
            continue
        rec = ('op', 'insert_int', SELF, out(lk, '0'), at, out(lk, '1'), K, V, TXG, out(lk, '2'))
        ctx.ob('insert', where, ops[1:] == [rec] and v == ('out', rec), f'and the insertion goes on there with the credit left: {pp(ops)[:500]}')
    ctx.floor('insert', 'ways to insert in an inner node', n, 3)

    # the root
    where = T + 'insert'
    I = splits(ctx)
    root = ('.', SELF, 'root')
    lk = ('op', 'xlock_root', dml, root, TXG, GIVEN)
    rg, cg, left = out(lk, '0'), out(lk, '1', '0'), out(lk, '2')
    n = 0
    for o in drive(ctx, I, where, [ref('self'), K, V, TXG, GIVEN], None, True):
        v, evs = canon(I.deep(o.st, o.val)), [canon(e) for e in events(I, o.st)]
        ops = [e for e in evs if e[0] == 'op']
        done = [e for e in evs if e[0] == 'did']
        w = {p: x for p, x in written(I, o).items()}
        n += 1
        ctx.ob('insert', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', root)] and ops[:1] == [lk], f'the root is locked for writing: {pp(ops)[:200]}')
        if isagg(v) and v[2] == 'Err':
            ctx.ob('insert', where, len(ops) == 1 and v[3][0][1] == ('.', ('.', ('out', lk), 'v:Err'), '0') and not w, 'only what the lock reports is reported')
            continue
        full = tri(o, ('full', cg, K, lim))
        ctx.ob('insert', where, full is not None, 'whether the root is full is asked with the key to insert')
        down = ('op', 'insert_int_no_split', SELF, out(lk, '1'), K, V, TXG, left)
        kind = fact(o, lambda k: canon(k) == ('discr', cg))
        if full:
            old = ('agg', N + 'IntElem', '', (('key', ('ret', 'tree::node::MinValue::min_value', ())), ('txgs', ('age', cg)), ('ptr', ('agg', N + 'TreePtr', 'Mem', (('0', node_of(cg)),)))))
            got = w.get(cg)
            e = seq_of(proj(proj(got, '0'), 'children')) if isagg(got) and got[2] == 'Int' and got[3] else None
            ctx.ob('insert', where, [d for d in done if d[1] == 'split'] == [('did', 'split', cg, lim, seq, TXG)], f'a full root is split once: {pp(done)[:200]}')
            ctx.ob('insert', where, e is not None and len(e) == 2 and e[1] == ('half', cg) and isagg(e[0]) and dict(e[0][3])['key'] == dict(old[3])['key'] and dict(e[0][3])['txgs'] == ('age', cg) and cg in parts(dict(e[0][3])['ptr']) and dict(e[0][3])['ptr'][2] == 'Mem',
                   f'the new root has the half that stayed, from the least key on, and the other half: {pp(got)[:500]}')
            ctx.ob('insert', where, set(w) == {cg, rg} and field_of(I, o, rg, 'height') == add(('.', rg, 'height'), 1) and only(w[rg], rg, 'height'), f'the tree is one level higher: {pp(w.get(rg))[:200]}')
            ctx.ob('insert', where, ops[1:] == [down] and v == ('out', down), f'the insertion goes on in the new root: {pp(ops)[:300]}')
        elif kind == 'Leaf':
            want = ('op', 'insert_leaf_no_split', ('.', rg, 'elem'), out(lk, '1'), K, V, TXG, dml, left)
            ctx.ob('insert', where, ops[1:] == [want] and v == ('out', want) and not w, f'a root that is a leaf with room takes the item: {pp(ops)[:400]}')
        else:
            ctx.ob('insert', where, kind == 'Int' and ops[1:] == [down] and v == ('out', down) and not w, f'the insertion goes on in the root: {pp(ops)[:400]}')
    ctx.floor('insert', 'ways to insert', n, 4)

    # a leaf
    where = T + 'insert_leaf_no_split'
    I = tree(ctx)
    del I.hooks[where]
    I.hooks[N + 'LeafData::insert'] = op('leaf')
    ptr = ('in', 'ptr')
    st = St()
    e = I.alloc(st, an_elem(ptr))
    n = 0
    for o in drive(ctx, I, where, [e, write_guard('child'), K, V, TXG, ref('dml'), GIVEN], st, True):
        v, evs = canon(I.deep(o.st, o.val)), [canon(x) for x in events(I, o.st)]
        if fact(o, lambda k: canon(k) == ('discr', child_)) == 'Int':
            continue
        ops = [x for x in evs if x[0] in ('op', 'did')]
        put_ = [x for x in ops if x[1] == 'leaf']
        n += 1
        items = ('.', ('.', child_, 'v:Leaf'), '0')
        ctx.ob('insert', where, len(put_) == 1 and put_[0][2:] == (items, K, V, TXG, ('in', 'dml'), GIVEN), f'the item enters the leaf: {pp(ops)[:300]}')
        t = canon(get(I, o.st, e, 'txgs'))
        ctx.ob('insert', where, dict(t[3])['start'] == TXG and is_next(dict(t[3])['end']) and canon(get(I, o.st, e, 'key')) == ('in', 'key') and canon(get(I, o.st, e, 'ptr')) == ptr,
               f'the leaf is as of this transaction: {pp(t)[:200]}')
        if put_:
            x = ('out', put_[0])
            ctx.ob('insert', where, v == ('.', x, '0') and [y[2:] for y in ops if y[1] == 'repay'] == [(('.', x, '1'),)], f'what it replaced is returned and what credit is left repaid: {pp(v)[:200]} {pp(ops)[:300]}')
    ctx.floor('insert', 'ways to insert in a leaf', n, 1)


def field_path(v, path):
    for f in path:
        v = ('.', v, f)
    return v


def before(evs, a, b):
    """Whether place a[1] is let go before op b."""
    i = [n for n, e in enumerate(evs) if e[0] == 'unlock' and e[2] == a[1]]
    j = [n for n, e in enumerate(evs) if e[0] == 'op' and e[1] == b]
    return bool(i and j and min(i) < min(j))


def only(v, base, *fields):
    """v is base with nothing but these fields changed."""
    return isinstance(v, tuple) and v[0] == 'with' and v[1] == base and {k for k, _ in v[2]} <= set(fields)


def lowered(s, i, f, x):
    el = ('.', s, ('[]', i))
    return (('with', s, ((('[]', i), ('with', el, ((f, x),))),)),)


def same_with(v, s, i, f, x):
    return v in lowered(s, i, f, x)


def node_of(p):
    return p


def parts(t):
    return set(x for x in subterms(t) if isinstance(x, tuple))


def seq_of(v):
    """The elements of a sequence that is spelled out."""
    if isagg(v) and v[1] == 'array':
        r = {}
        for k, x in v[3]:
            k = k[1] if isinstance(k, tuple) else k
            if not str(k).isdigit():
                return None
            r[int(k)] = x
        return [r[k] for k in sorted(r)] if sorted(r) == list(range(len(r))) else None
    return None


def write_root():
    return ('out', ('ret', 'futures_locks::RwLock::write', (('ref', ('P', ('in', 'root')), ()),), 0))


MIX = ('merge', 'take_low_keys', 'take_high_keys')


def mixing(I):
    """What joins nodes is named, and so is what is asked of them, with the number of joins before."""
    def count(st):
        return sum(1 for e in st.effects() if e[:1] == ('did',) and e[1] in MIX)

    def named(n):
        def hook(I, st, c):
            args = [canon(place(c.args[0]))] + [canon(I.deep(st, a)) for a in c.args[1:]]
            if n in MIX:
                st.log('did', n, *args[:2])
                return R(st, UNIT)
            v = (n,) + tuple(args) + (count(st),)
            return R(st, I.alloc(st, v) if n == 'key' else v)
        return hook
    for n in MIX + ('can_merge', 'start_txg', 'in_danger', 'key'):
        for ty in ('Node', 'NodeData'):
            I.hooks[f'{N}{ty}::{n}'] = named(n)
    return I


def removing(ctx):
    """remove: the way down, refilling every node that is about to become too small."""
    K, SELF = ('in', 'k'), ('in', 'self')
    GIVEN = cr(('in', 'given'))
    lim, dml = ('.', SELF, 'limits'), ('.', SELF, 'dml')
    kids = lambda p: ('.', ('.', ('.', p, 'v:Int'), '0'), 'children')
    out = lambda e, *p: field_path(('.', ('.', ('out', e), 'v:Ok'), '0'), p)
    parent, child_, idx, node_ = ('in', 'parent'), ('in', 'child'), ('in', 'idx'), ('in', 'node')
    failed = lambda v, e: isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', e), 'v:Err'), '0')

    def paths(name, args, prep=None):
        I = mixing(tree(ctx))
        I.hooks.pop(T + name, None)
        if prep:
            prep(I)
        for o in drive(ctx, I, T + name, args, None, True):
            evs = [canon(e) for e in events(I, o.st)]
            yield I, o, canon(I.deep(o.st, o.val)), evs, [e for e in evs if e[0] == 'op']

    # from the root
    where = T + 'remove'
    root = ('.', SELF, 'root')
    n = 0
    for I, o, v, evs, ops in paths('remove', [ref('self'), K, TXG, GIVEN]):
        n += 1
        lk = ('op', 'xlock_and_merge_root', dml, root, TXG, GIVEN)
        ctx.ob('remove', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', root)] and ops[:1] == [lk] and not written(I, o), f'the root is locked, lowered if it can be: {pp(ops)[:200]}')
        if failed(v, lk) and len(ops) == 1:
            continue
        go = ('op', 'remove_no_fix', SELF, out(lk, '1'), K, TXG, out(lk, '2'))
        ctx.ob('remove', where, ops[1:] == [go] and v == ('out', go), f'the removal goes on in it: {pp(ops)[:300]}')
    ctx.floor('remove', 'ways to remove', n, 2)

    # the root is lowered
    where = T + 'xlock_and_merge_root'
    lk = ('op', 'xlock_root', ('in', 'dml'), ('in', 'root'), TXG, GIVEN)
    rg, cg, left = out(lk, '0'), out(lk, '1', '0'), out(lk, '2')
    again = ('op', 'xlock_root', ('in', 'dml'), rg, TXG, left)
    least = ('ret', 'tree::node::MinValue::min_value', ())
    n = 0
    for I, o, v, evs, ops in paths('xlock_and_merge_root', [ref('dml'), write_root(), TXG, GIVEN]):
        n += 1
        ctx.ob('remove', where, ops[:1] == [lk], f'the root is locked: {pp(ops)[:200]}')
        if failed(v, lk) and len(ops) == 1:
            continue
        kind = fact(o, lambda k: canon(k) == ('discr', cg))
        w = written(I, o)
        for m in ((0, 1, 2, 3) if kind == 'Int' else (None,)):
            env = {('n', kids(cg)): m, ('len', kids(cg)): m}
            if m is not None and any(truth(canon(k), x, env) is False for k, x in o.st.facts.items()):
                continue
            if m not in (0, 1):
                ctx.ob('remove', where, not w and len(ops) == 1 and v == ok(('agg', 'tuple', '', (('0', rg), ('1', out(lk, '1')), ('2', left)))), f'a root that is {"a leaf" if m is None else f"a node with {m} children"} stays: {pp(w)[:200]}')
                continue
            ctx.ob('remove', where, ops[1:] == [again] and v == ('out', again), f'the new root is locked in its place: {pp(ops)[:300]}')
            el, h = field_of(I, o, rg, 'elem'), field_of(I, o, rg, 'height')
            ctx.ob('remove', where, rg in w and only(w[rg], rg, 'elem', 'height') and set(w) <= {rg, cg}, f'only the root changes: {pp(list(w))[:200]}')
            if m == 1:
                base = [('.', kids(cg), ('[]', sub((q, kids(cg)), 1))) for q in ('n', 'len')] + [('.', kids(cg), ('[]', 0))]
                ctx.ob('remove', where, el in [('with', b, (('key', least),)) for b in base] and h == sub(('.', rg, 'height'), 1), f'the only child becomes the root, from the least key on, one level lower: {pp(el)[:300]}, height {pp(h)[:100]}')
            else:
                leaf_ = isagg(el) and dict(el[3])
                empty = leaf_ and leaf_['key'] == least and "'Leaf'" in str(leaf_['ptr']) and leaf_['ptr'][2] == 'Mem' and any(x[0] == 'empty' for x in parts(leaf_['ptr']))
                ctx.ob('remove', where, empty and h == 1, f'a root without children becomes an empty leaf: {pp(el)[:300]}, height {pp(h)[:100]}')
    ctx.floor('remove', 'ways to lower the root', n, 5)

    # in a node
    where = T + 'remove_no_fix'
    at = ('child', kids(node_), K)
    lk = ('op', 'xlock', wguard(node_), dml, at, TXG, GIVEN)

    def leaf_remove(I):
        I.hooks[N + 'LeafData::remove'] = op('leaf')
    n = 0
    for I, o, v, evs, ops in paths('remove_no_fix', [ref('self'), write_guard('node'), K, TXG, GIVEN], leaf_remove):
        n += 1
        kind = fact(o, lambda k: canon(k) == ('discr', node_))
        ctx.ob('remove', where, not written(I, o), 'nothing else is changed')
        if kind == 'Leaf':
            data = ('.', ('.', node_, 'v:Leaf'), '0')
            good = len(ops) == 1 and ops[0][1] == 'leaf' and ops[0][2] == data and set(ops[0][3:]) == {dml, TXG, K}
            ctx.ob('remove', where, good, f'the item leaves the leaf: {pp(ops)[:200]}')
            if not good or failed(v, ops[0]):
                continue
            got = out(ops[0])
            back = [e[2:] for e in evs if e[0] == 'did' and e[1] == 'repay']
            ctx.ob('remove', where, v == ok(('.', got, '0')) and len(back) == 1 and canon(amount(back[0][0])) == add(('in', 'given'), ('amount', ('.', got, '1'))), f'what was removed is returned, and its credit and what is left repaid: {pp(v)[:200]}, {pp(back)[:200]}')
            continue
        ctx.ob('remove', where, kind == 'Int' and ops[:1] == [lk], f'the child for the key is locked: {pp(ops)[:200]}')
        if failed(v, lk) and len(ops) == 1:
            continue
        go = ('op', 'remove_int', SELF, out(lk, '0'), at, out(lk, '1'), K, TXG, out(lk, '2'))
        ctx.ob('remove', where, ops[1:] == [go] and v == ('out', go), f'the removal goes on there with the credit left: {pp(ops)[:400]}')
    ctx.floor('remove', 'ways to remove in a node', n, 3)

    # a child of an inner node
    where = T + 'remove_int'
    n = 0

    def named_fix(I):
        I.hooks[T + 'fix_int'] = op('fix_int')
    for I, o, v, evs, ops in paths('remove_int', [ref('self'), write_guard('parent'), idx, write_guard('child'), K, TXG, GIVEN], named_fix):
        n += 1
        danger = tri(o, ('in_danger', child_, lim, 0))
        if danger is None:
            danger = next((x for k, x in o.st.facts.items() if canon(k) == ('in_danger', child_, lim, 0)), None)
        ctx.ob('remove', where, danger is not None and not written(I, o), 'whether the child could become too small is asked')
        if not danger:
            go = ('op', 'remove_no_fix', SELF, wguard(child_), K, TXG, GIVEN)
            ctx.ob('remove', where, ops == [go] and v == ('out', go), f'in a child that is large enough the removal goes on: {pp(ops)[:200]}')
            continue
        fx = ('op', 'fix_int', SELF, parent_guard(parent), idx, wguard(child_), TXG, GIVEN)
        ctx.ob('remove', where, ops[:1] == [fx], f'a child that is not is refilled: {pp(ops)[:300]}')
        if failed(v, fx) and len(ops) == 1:
            continue
        now = kids(out(fx, '0', '0'))
        lk = ('op', 'xlock', out(fx, '0'), dml, ('child', now, K), TXG, out(fx, '3'))
        ctx.ob('remove', where, ops[1:2] == [lk], f'the child for the key is looked for again: {pp(ops)[:400]}')
        if failed(v, lk) and len(ops) == 2:
            continue
        go = ('op', 'remove_no_fix', SELF, out(lk, '1'), K, TXG, out(lk, '2'))
        ctx.ob('remove', where, ops[2:] == [go] and v == ('out', go), f'the removal goes on there: {pp(ops)[:500]}')
    ctx.floor('remove', 'ways to remove below a node', n, 4)

    # refilling
    where = T + 'fix_int'
    n = 0
    for I, o, v, evs, ops in paths('fix_int', [ref('self'), write_guard('parent'), idx, write_guard('child'), TXG, GIVEN]):
        n += 1
        last = None
        for k, x in o.st.facts.items():
            k = canon(k)
            d = sub(sub(('n', kids(parent)), 1), idx)
            if k == ('pos', d):
                last = not x
            elif k == ('pos', sub(1, d)):
                last = bool(x)
        sib = None if last is None else sub(idx, 1) if last else add(idx, 1)
        lk = ('op', 'xlock', wguard(parent), dml, sib, TXG, GIVEN)
        ctx.ob('remove', where, last is not None and ops == [lk], f'the sibling after the child is locked, or the one before where it is the last: {pp(ops)[:300]}')
        if ops != [lk] or failed(v, lk):
            continue
        P, S, left = out(lk, '0'), out(lk, '1'), out(lk, '2')
        s = field_path(S, ('0',))
        L, H = (s, child_) if last else (child_, s)          # the lower and the higher of the two
        li, hi = (sib, idx) if last else (idx, sib)
        at = kids(field_path(P, ('0',)))
        can = next((x for k, x in o.st.facts.items() if canon(k) == ('can_merge', L, H, lim, 0)), None)
        ctx.ob('remove', where, can is not None, 'whether the two fit in one node is asked')
        if can is None:
            continue
        el = lambda i: ('.', at, ('[]', i))
        young = lambda p: ('start_txg', p, TXG, 1)
        done = [e for e in evs if e[0] == 'did' and e[1] in MIX]
        now = field_of(I, o, field_path(P, ('0',)), 'v:Int', '0', 'children')
        w = written(I, o)
        ctx.ob('remove', where, set(w) == {field_path(P, ('0',))}, f'only the parent and the two nodes change: {pp(list(w))[:200]}')
        txgs = lambda i, p: ('txgs', ('with', ('.', el(i), 'txgs'), (('start', young(p)),)))
        if can:
            moved = [e[1:] for e in done]
            other = S if not last else wguard(child_)
            ctx.ob('remove', where, moved == [('merge', L, other)], f'two nodes that fit in one are joined, the higher into the lower: {pp(moved)[:300]}')
            base = ('with', at, ((('[]', li), ('with', el(li), (txgs(li, L),))),))
            ctx.ob('remove', where, now == ('less', base, hi), f'the higher leaves the parent, and the lower has the age of both: {pp(now)[:500]}')
            b, a = (1, 0) if last else (0, 1)
        else:
            moved = [e[1:] for e in done]
            ctx.ob('remove', where, moved == [('take_high_keys' if last else 'take_low_keys', child_, s)], f'otherwise the child takes from its sibling: {pp(moved)[:300]}')
            want = {('[]', li): {txgs(li, L)}, ('[]', hi): {txgs(hi, H), ('key', ('key', H, 1))}}
            got = now[0] == 'with' and now[1] == at and {k: set(x[2]) if x[0] == 'with' and x[1] == ('.', at, k) else x for k, x in now[2]}
            ctx.ob('remove', where, got == want, f'the higher begins at its new first key, and both have their new age: {pp(now)[:500]}')
            b = a = 0
        ctx.ob('remove', where, v == ok(('agg', 'tuple', '', (('0', P), ('1', b), ('2', a), ('3', left)))), f'{b} nodes before the child and {a} after it are gone: {pp(v)[:300]}')
    ctx.floor('remove', 'ways to refill a node', n, 6)


def parent_guard(p):
    return wguard(p)


def flushing_world(ctx):
    I = tree(ctx)
    dirty = lambda I, st, c: R(st, ('dirty', canon(place(c.args[0]))))
    I.hooks[N + 'TreePtr::is_dirty'] = dirty
    I.hooks[N + 'IntElem::is_dirty'] = lambda I, st, c: R(st, ('dirty', ('.', canon(place(c.args[0])), 'ptr')))
    for ty in ('Node', 'NodeData'):
        I.hooks[f'{N}{ty}::has_dirty_children'] = lambda I, st, c: R(st, ('above', canon(place(c.args[0]))))
    return I


def flushing(ctx):
    """flush: a node goes to disk once nothing below it is left in memory, and its parent learns where and how old it is."""
    P = ctx.P
    SELF, LOW, LC, IC = ('in', 'self'), ('in', 'lowest'), ('in', 'lcomp'), ('in', 'icomp')
    dml, root, node_ = ('in', 'dml'), ('.', SELF, 'root'), ('in', 'node')
    kids = lambda p: ('.', ('.', ('.', p, 'v:Int'), '0'), 'children')
    okof = lambda e: ('.', ('.', ('out', e), 'v:Ok'), '0')
    mem = lambda p: ('.', ('.', ('.', p, 'ptr'), 'v:Mem'), '0')
    data = lambda p: ('.', mem(p), '0')
    failed = lambda v, e: isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', e), 'v:Err'), '0')

    def span(t, start):
        return isagg(t) and dict(t[3])['start'] == start and is_next(dict(t[3])['end'])

    def paths(name, args, prep=None):
        I = flushing_world(ctx)
        if prep:
            prep(I)
        for o in drive(ctx, I, T + name, args, None, True):
            evs = [canon(e) for e in events(I, o.st)]
            yield I, o, canon(I.deep(o.st, o.val)), evs, [e for e in evs if e[0] == 'op']

    def holds(o, t):
        return next((x for k, x in o.st.facts.items() if canon(k) == t), None)

    def eldest(o, s):
        """The local that holds the least start of the children s, as oldest() finds it."""
        for L in (e[1] for e in o.st.effects() if e[0] == 'loop'):
            for l, y in L.carried.items():
                c = [(a, b) for a, b in L.carried.items() if L.iters and all(sub(it[3].get(a, b), b) == 1 for it in L.iters) and L.entry[a] == 0]
                if len(c) == 1 and all(canon(it[3].get(l)) == some(('extreme', 0, ('.', ('.', ('.', s, ('[]', c[0][1])), 'txgs'), 'start'))) for it in L.iters) and canon(o.st.facts.get(('pinned', c[0][1]))) in (('len', s), ('n', s)):
                    return ('.', ('.', y, 'v:Some'), '0')
        return ('oldest', s)

    # dirty means in memory
    where = N + 'IntElem::is_dirty'
    n = 0
    for kind in ('Mem', 'Addr'):
        I = tree(ctx)
        st = St()
        r = I.alloc(st, an_elem(('agg', N + 'TreePtr', kind, (('0', ('in', 'x')),))))
        for o in drive(ctx, I, where, [r], st):
            n += 1
            ctx.ob('flush', where, o.val == int(kind == 'Mem'), f'a child {"in memory" if kind == "Mem" else "on disk"} is {"" if o.val else "not "}dirty')
    where = N + 'NodeData::has_dirty_children'
    I = flushing_world(ctx)
    del I.hooks[where]
    at = kids(('in', 'nd'))
    if True:
        for o in drive(ctx, I, where, [ref('nd')]):
            n += 1
            if fact(o, lambda k: canon(k) == ('discr', ('in', 'nd'))) == 'Leaf':
                ctx.ob('flush', where, o.val == 0, 'nothing is below a leaf')
                continue
            d = [(canon(k), x) for k, x in o.st.facts.items() if k[0] == 'dirty']
            ls = [e[1] for e in o.st.effects() if e[0] == 'loop']
            if o.val == 1:
                good = any(x == 1 and within_(k[1], at) for k, x in d)
            else:
                # every child has been looked at and none is dirty
                good = o.val == 0 and (any(all(any(canon(k)[0] == 'dirty' and x == 0 for k, x in it[1].items()) for it in L.iters) and L.iters and all(c == 0 for c in L.entry.values() if isinstance(c, int))
                                           and any(canon(x) in (('len', at), ('n', at)) for k, x in o.st.facts.items() if k[0] == 'pinned') for L in ls))
            ctx.ob('flush', where, good, f'an inner node has dirty children iff one of them is: {o.val}, {d}'[:300])
    ctx.floor('flush', 'ways to ask whether a node is dirty', n, 5)

    # the leaves of one node
    where = T + 'flush_leaves'
    n = m = 0
    for I, o, v, evs, ops in paths('flush_leaves', [ref('dml'), LC, write_guard('node'), TXG]):
        n += 1
        alls = [e for e in events(I, o.st) if e[0] == 'all']
        good = len(alls) == 1 and len(alls[0][2]) == 1 and isinstance(alls[0][2][0], Each)
        ctx.ob('flush', where, good, f'the leaves of a node are written together: {pp(evs)[:300]}')
        if not good:
            continue
        e = alls[0][2][0]
        ctx.ob('flush', where, canon(e.src) == kids(node_) and e.whole, f'all children of the node are considered, not {pp(canon(e.src))[:200]}')
        if isagg(v) and v[2] == 'Ok':
            ctx.ob('flush', where, proj(v, '0') == NONE, 'nothing is left to do in the node')
        else:
            ctx.ob('flush', where, isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', canon(alls[0][1])), 'v:Err'), '0'), f'only what a write reports is reported: {pp(v)[:200]}')
        for x, f in e.ops:
            d = next((y for k, y in f.items() if canon(k)[0] == 'dirty'), None)
            who = next((canon(k)[1] for k in f if canon(k)[0] == 'dirty'), None)
            ctx.ob('flush', where, d is not None and (x is not None) == bool(d) and who[0] == '.' and who[2] == 'ptr' and who[1][:2] == ('.', kids(node_)), f'a leaf is written iff it is dirty')
            if x is None or who is None:
                continue
            el = who[1]
            for q in I.run_future(o.st.copy(), x):
                m += 1
                if q.kind != 'ret':
                    # a dirty child is in memory
                    ctx.ob('flush', where, 'Not a TreePtr::Mem' in str(q.val), f'nothing panics: {str(q.val)[:200]}')
                    continue
                w = canon(I.deep(q.st, q.val))
                ev = [canon(y) for y in events(I, q.st)]
                locks = [y[:3] for y in ev if y[0] in ('lock', 'unlock') and y[2] != node_]
                op_ = [y for y in ev if y[0] == 'op']
                ctx.ob('flush', where, locks == [('lock', 'write', data(el)), ('unlock', 'write', data(el))], f'a leaf is written once nobody uses it: {pp(locks)[:300]}')
                good = len(op_) == 1 and op_[0][1:4] == ('write_leaf', dml, LC) and op_[0][4] == mem(el) and op_[0][5] == TXG
                ctx.ob('flush', where, good, f'the leaf itself is written: {pp(op_)[:300]}')
                if not good or failed(w, op_[0]):
                    continue
                now = field_of(I, q, node_, 'v:Int', '0', 'children')
                ch = now[0] == 'with' and now[1] == kids(node_) and len(now[2]) == 1 and now[2][0][1]
                ch = dict(ch[2]) if isinstance(ch, tuple) and ch[0] == 'with' and ch[1] == el else {}
                ctx.ob('flush', where, ch.get('ptr') == ('agg', N + 'TreePtr', 'Addr', (('0', okof(op_[0])),)) and span(ch.get('txgs'), TXG) and set(ch) == {'ptr', 'txgs'} and w == ok(UNIT),
                       f'its parent learns its address, and that it is of this transaction: {pp(ch)[:400]}')
    ctx.floor('flush', 'ways to write the leaves of a node', n, 2)
    ctx.floor('flush', 'ways to write a leaf', m, 4)

    # an inner node below the root
    where = T + 'flush_r'
    H = ('in', 'height')
    n = 0
    for I, o, v, evs, ops in paths('flush_r', [ref('dml'), write_guard('node'), LC, IC, H, TXG, LOW], lambda I: I.ty.update({H: (2, None)})):
        n += 1
        two = next((x for k, x in o.st.facts.items() if k in (('eq0', sub(H, 2)), ('eq0', sub(2, H)))), None)
        if two:
            want = ('op', 'flush_leaves', dml, LC, wguard(node_), TXG)
            ctx.ob('flush', where, ops == [want] and v == ('out', want), f'right above the leaves they are written: {pp(ops)[:200]}')
            continue
        # which child: the first dirty one from the child for `lowest` on
        ctx.ob('flush', where, two == 0, 'whether the leaves come next is told by the height')
        walk = [e[1] for e in o.st.effects() if e[0] == 'loop' and any(canon(x) == ('child', kids(node_), LOW) for x in e[1].entry.values())]
        at = None
        if len(walk) == 1:
            L, = walk
            loc = [l for l, x in L.entry.items() if canon(x) == ('child', kids(node_), LOW)]
            at = canon(L.carried[loc[0]])
            for it in L.iters:
                skipped = any(canon(k) == ('dirty', ('.', ('.', kids(node_), ('[]', at)), 'ptr')) and x == 0 for k, x in it[1].items())
                ctx.ob('flush', where, skipped and sub(canon(it[3][loc[0]]), at) == 1, 'only children that are not dirty are passed over, one by one')
        ctx.ob('flush', where, at is not None, 'children are looked through from the one for the key left off at')
        if at is None:
            continue
        el = ('.', kids(node_), ('[]', at))
        if not any(e[0] == 'lock' for e in evs):
            more_ = next((x for k, x in o.st.facts.items() if canon(k) in (('pos', sub(('n', kids(node_)), at)), ('pos', sub(('len', kids(node_)), at)))), None)
            ctx.ob('flush', where, not ops and v == ok(NONE) and more_ == 0, f'where none is dirty nothing is left to do in the node: {pp(v)[:100]}')
            continue
        ctx.ob('flush', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', data(el))] and holds(o, ('dirty', ('.', el, 'ptr'))) == 1, f'the dirty child is locked: {pp(evs)[:300]}')
        nxt = some(('.', ('.', kids(node_), ('[]', add(at, 1))), 'key'))
        lastq = next((bool(x) for k, x in o.st.facts.items() if canon(k) in (('pos', add(sub(at, ('len', kids(node_))), 2)), ('pos', add(sub(at, ('n', kids(node_))), 2)))), None)
        if lastq is None:
            lastq = next((not x for k, x in o.st.facts.items() if canon(k) in (('pos', sub(sub(('len', kids(node_)), 1), at)), ('pos', sub(sub(('n', kids(node_)), 1), at)))), None)
        nxt = NONE if lastq else nxt
        ctx.ob('flush', where, lastq is not None, 'whether a child follows is asked')
        above = holds(o, ('above', data(el)))
        if above == 0:
            good = len(ops) == 1 and ops[0] == ('op', 'put', dml, mem(el), IC, TXG) and before(evs, ('unlock', data(el)), 'put')
            ctx.ob('flush', where, good, f'a child with nothing in memory below it is written once nobody uses it: {pp(ops)[:300]}')
            if not good or failed(v, ops[0]):
                continue
            now = field_of(I, o, node_, 'v:Int', '0', 'children')
            ch = now[0] == 'with' and now[1] == kids(node_) and len(now[2]) == 1 and now[2][0][1]
            ch = dict(ch[2]) if isinstance(ch, tuple) and ch[0] == 'with' and ch[1] == el else {}
            ctx.ob('flush', where, ch.get('ptr') == ('agg', N + 'TreePtr', 'Addr', (('0', okof(ops[0])),)) and span(ch.get('txgs'), canon(eldest(o, kids(data(el))))) and set(ch) == {'ptr', 'txgs'},
                   f'the node learns its address and age: {pp(ch)[:400]}')
            ctx.ob('flush', where, v == ok(nxt), f'the next child is where to go on: {pp(v)[:200]}')
        else:
            want = ('op', 'flush_r', dml, wguard(data(el)), LC, IC, sub(H, 1), TXG, LOW)
            ctx.ob('flush', where, above == 1 and ops == [want] and not written(I, o), f'otherwise the flush goes on in the child: {pp(ops)[:300]}')
            if ops != [want] or failed(v, want):
                continue
            f = holds(o, ('discr', okof(want)))
            res = okof(want) if f == 'Some' else nxt
            got = proj(v, '0') if isagg(v) and v[2] == 'Ok' else None
            if f == 'Some':
                good = got in (okof(want), some(('.', ('.', okof(want), 'v:Some'), '0')))
            else:
                good = f == 'None' and got == nxt
            ctx.ob('flush', where, good, f'what is left there, or else the next child, is where to go on: {pp(v)[:200]}')
    ctx.floor('flush', 'ways to flush below the root', n, 6)

    # one round
    where = T + 'flush_once'
    seen = []
    I = flushing_world(ctx)
    I.hooks['futures::stream::try_unfold'] = lambda I, st, c: R(st, ('agg', 'unfold', '', (('0', c.args[0]), ('1', c.args[1]))))

    def folded(I, st, c):
        seen.append((st, c.args))
        return R(st, ('agg', 'rounds', '', ()))
    I.hooks['futures::TryStreamExt::try_fold'] = folded
    drive(ctx, I, where, [ref('self'), TXG], None, True)
    ctx.ob('flush', where, len(seen) == 1 and isagg(seen[0][1][0]) and seen[0][1][0][1] == 'unfold', 'a flush is a sequence of rounds')
    n = 0
    if len(seen) == 1:
        st, (stream, acc0, last_of) = seen[0]
        prior = len(events(I, st))
        s0 = canon(I.deep(st, proj(stream, '0')))
        ctx.ob('flush', where, canon(acc0) == 1 and s0 == ('agg', 'tuple', '', (('0', 1), ('1', ('ret', 'tree::node::MinValue::min_value', ())))), f'it begins at the least key: {pp(s0)[:200]}')
        for q in I.apply(st.copy(), last_of, [('in', 'acc'), ('in', 'more')]):
            for z in I.run_future(q.st, q.val):
                ctx.ob('flush', where, canon(I.deep(z.st, z.val)) == ok(('in', 'more')), 'and answers as its last round does')
        for more in (0, 1):
            s = ('agg', 'tuple', '', (('0', more), ('1', LOW)))
            for q in I.apply(st.copy(), proj(stream, '1'), [s]):
                for o in I.run_future(q.st, q.val):
                    n += 1
                    if o.kind != 'ret':
                        continue
                    v, evs = canon(I.deep(o.st, o.val)), [canon(e) for e in events(I, o.st)][prior:]
                    ops = [e for e in evs if e[0] == 'op']
                    done = ok(some(('agg', 'tuple', '', (('0', 0), ('1', ('agg', 'tuple', '', (('0', 0), ('1', LOW))))))))
                    if not more:
                        ctx.ob('flush', where, v == ok(NONE) and not evs, f'after the last round nothing happens: {pp(v)[:100]} {pp(evs)[:200]}')
                        continue
                    ctx.ob('flush', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', root)], f'the root is locked: {pp(evs)[:200]}')
                    d = holds(o, ('dirty', ('.', ('.', root, 'elem'), 'ptr')))
                    if d == 0:
                        ctx.ob('flush', where, not ops and v == done, f'where the root is on disk nothing is left to do: {pp(v)[:100]}')
                        continue
                    good = d == 1 and ops and ops[0][:4] == ('op', 'xlock_root', ('.', SELF, 'dml'), root) and ops[0][4] == TXG
                    ctx.ob('flush', where, good, f'the root is locked, to be used by nobody else: {pp(ops)[:300]}')
                    if not good or failed(v, ops[0]):
                        continue
                    got = okof(ops[0])
                    rg, cg = ('.', got, '0'), ('.', ('.', got, '1'), '0')
                    above = holds(o, ('above', cg))
                    if above:
                        want = ('op', 'flush_r', ('.', SELF, 'dml'), ('.', got, '1'), ('.', SELF, 'leaf_compressor'), ('.', SELF, 'int_compressor'), ('.', rg, 'height'), TXG, LOW)
                        ctx.ob('flush', where, ops[1:] == [want] and not written(I, o), f'what is in memory below the root comes first: {pp(ops)[:400]}')
                        if ops[1:] != [want] or failed(v, want):
                            continue
                        f = holds(o, ('discr', okof(want)))
                        k = ('.', ('.', okof(want), 'v:Some'), '0')
                        res = NONE if f == 'None' else some(('agg', 'tuple', '', (('0', 1), ('1', ('agg', 'tuple', '', (('0', 1), ('1', k)))))))
                        ctx.ob('flush', where, f in ('None', 'Some') and v == ok(res), f'it goes on where that left off, and there is more to do: {pp(v)[:200]}')
                        continue
                    one = next((x for k, x in o.st.facts.items() if canon(k) in (('eq0', sub(('.', rg, 'height'), 1)), ('eq0', sub(1, ('.', rg, 'height'))))), None)
                    e_ = ('.', rg, 'elem')
                    want = ('op', 'write_leaf', ('.', SELF, 'dml'), ('.', SELF, 'leaf_compressor'), mem(e_), TXG) if one else ('op', 'put', ('.', SELF, 'dml'), mem(e_), ('.', SELF, 'int_compressor'), TXG)
                    ctx.ob('flush', where, above == 0 and one is not None and ops[1:] == [want], f'a root with nothing in memory below it is written: {pp(ops)[:400]}')
                    if ops[1:] != [want] or failed(v, want):
                        continue
                    i = [k for k, e in enumerate(evs) if e == want][0]
                    el = field_of(I, o, rg, 'elem')
                    ch = dict(el[2]) if el[0] == 'with' and el[1] == e_ else {}
                    start = TXG if one else canon(eldest(o, kids(cg)))
                    ctx.ob('flush', where, ch.get('ptr') == ('agg', N + 'TreePtr', 'Addr', (('0', okof(want)),)) and span(ch.get('txgs'), start) and set(ch) == {'ptr', 'txgs'}, f'the tree learns its address and age: {pp(ch)[:400]}')
                    ctx.ob('flush', where, v == done, f'and nothing is left to do: {pp(v)[:100]}')
    ctx.floor('flush', 'ways through a round', n, 8)

    # rounds
    where = T + 'flush'
    I = flushing_world(ctx)
    I.hooks[T + 'flush_once'] = lambda I, st, c: I.opaque_call(st, c)
    n = 0
    for o in drive(ctx, I, where, [ref('self'), TXG], None, True):
        n += 1
        v = canon(I.deep(o.st, o.val))
        calls = [e for e in o.st.effects() if e[0] == 'call' and e[1] == T + 'flush_once'] + [y for e in o.st.effects() if e[0] == 'loop' for it in e[1].iters for y in it[2] if y[0] == 'call' and y[1] == T + 'flush_once']
        ctx.ob('flush', where, calls and all(canon(c[2]) == (SELF, TXG) for c in calls), 'each round is of this tree and transaction')
        last = [k[1] for k, x in o.st.facts.items() if k[0] == 'discr' and x in ('Ok', 'Err') and k[1][0] == 'out']
        if isagg(v) and v[2] == 'Ok':
            z = [x for k, x in o.st.facts.items() if "'flush_once'" in str(k) or 'flush_once' in str(k) and k[0] != 'discr']
            ctx.ob('flush', where, z and z[-1] == 0, f'the flush ends only once a round finds nothing left to do: {[(pp(k)[:100], x) for k, x in o.st.facts.items()]}')
        else:
            ctx.ob('flush', where, isagg(v) and v[2] == 'Err' and 'flush_once' in str(v), 'only what a round reports is reported')
    ctx.floor('flush', 'ways to flush', n, 2)


def within_(x, y):
    while isinstance(x, tuple) and x[0] == '.':
        if x == y:
            return True
        x = x[1]
    return x == y


def leafwriting(ctx):
    """write_leaf: the leaf that goes to disk is the leaf given, and its credit is repaid once it is there."""
    P = ctx.P
    where = T + 'write_leaf'
    node_, comp, dml = ('in', 'node'), ('in', 'comp'), ('in', 'dml')
    leaf = ('.', ('.', ('.', node_, '0'), 'v:Leaf'), '0')
    key = ('amount', ('.', leaf, 'credit'))
    I = flushing_world(ctx)
    I.hooks['futures_locks::RwLock::get_mut'] = lambda I, st, c: R(st, some(c.args[0]))
    I.hooks['futures_locks::RwLock::try_unwrap'] = lambda I, st, c: R(st, ok(c.args[0]))
    n = 0
    for o in I.run(fn(ctx, where), [ref('dml'), comp, node_, TXG], St()):
        if o.kind != 'ret':
            # only leaves are written as leaves
            ctx.ob('write', where, any(k[0] == 'discr' and x == 'Int' for k, x in o.st.facts.items()), f'a leaf is written without fail: {str(o.val)[:200]}')
            continue
        n += 1
        v = canon(I.deep(o.st, o.val))
        ctx.used(I, [o])
        f = dict(v[3]) if isagg(v) else {}
        amount = lambda c: isagg(c) and proj(c, '0') == key
        if next((x for k, x in o.st.facts.items() if 'NEEDS_FLUSH' in str(k)), None):
            ldf = f.get('0')
            good = v[2] == 'Ldf' and f.get('1') == dml and f.get('2') == comp and f.get('3') == TXG and isagg(ldf) and amount(dict(ldf[3])['credit'])
            inner = dict(ldf[3])['inner'] if good else None
            good = good and inner[:2] == ('ret', 'tree::node::Value::flush_bt') and inner[2] == (('.', leaf, 'items'), dml, TXG)
            ctx.ob('write', where, good, f'values with parts of their own are flushed first: {pp(v)[:400]}')
        else:
            p = f.get('0')
            good = v[2] == 'Dp' and p[:3] == ('op', 'put', dml) and p[4:6] == (comp, TXG) and amount(f.get('2')) and f.get('1') == dml
            ctx.ob('write', where, good, f'a leaf is put, and its credit kept till then: {pp(v)[:400]}')
            if good:
                ch = changes(p[3], node_)
                ctx.ob('write', where, set(ch) == {('0', 'v:Leaf', '0', 'credit')} and isagg(ch[('0', 'v:Leaf', '0', 'credit')]) and proj(ch[('0', 'v:Leaf', '0', 'credit')], '0') == 0,
                       f'nothing but its credit is taken from it: {pp(p[3])[:300]}')
    ctx.floor('write', 'ways to begin to write a leaf', n, 2)
    # the futures it makes
    body = {t: b for b in P.bodies.values() if b['path'].endswith('::poll') for t in ('WriteLeaf', 'LeafDataFlush') if str(b.get('self')).split('<')[0].endswith('::' + t)}
    n = 0
    for kind in ('Ldf', 'Dp'):
        where = 'WriteLeaf::poll'
        I = flushing_world(ctx)
        I.unroll = 2
        st = St()
        fut = ('in', 'fut')
        fs = (('0', fut), ('1', ref('dml')), ('2', comp), ('3', TXG)) if kind == 'Ldf' else (('0', fut), ('1', ref('dml')), ('2', cr(('in', 'credit'))))
        x = I.alloc(st, ('agg', 'tree::tree::WriteLeaf', kind, fs))
        put = None
        for o in I.run(body['WriteLeaf'], [x, ref('cx')], st):
            n += 1
            ctx.used(I, [o])
            v = canon(I.deep(o.st, o.val))
            evs = [canon(e) for e in events(I, o.st)]
            now = canon(unref(I, o.st, x))
            ops = [e for e in evs if e[0] == 'op']
            paid = [e[2] for e in evs if e[:2] == ('did', 'repay')]
            first = ('.', fut, 'inner')
            items = ('.', ('.', ('out', first), 'v:Ok'), '0')
            credit = ('amount', ('.', fut, 'credit')) if kind == 'Ldf' else ('in', 'credit')
            ctx.ob('write', where, o.kind == 'ret', f'it does not panic before it has ended: {str(o.val)[:100]}')
            if o.kind != 'ret':
                continue
            if kind == 'Ldf' and not ops and now[2] == 'Dp':
                ops = [dict(now[3])['0']]
            if kind == 'Ldf' and not ops:
                over = v == ('agg', v[1], 'Ready', (('0', ('agg', v[3][0][1][1], 'Err', (('0', ('.', ('.', ('out', first), 'v:Err'), '0')),))),)) if isagg(v) and v[2] == 'Ready' and isagg(v[3][0][1]) else v[2] == 'Pending'
                ctx.ob('write', where, over and not paid and now[2] == 'Ldf', f'until its values are flushed the leaf waits: {pp(v)[:200]}')
                continue
            if kind == 'Ldf':
                good = len(ops) == 1 and ops[0][1:3] == ('put', dml) and ops[0][4:6] == (comp, TXG)
                data = ops[0][3] if good else None
                lf = next((s for s in subterms(data) if isagg(s) and s[2] == 'Leaf'), None)
                ld = dict(lf[3][0][1][3]) if lf and isagg(lf[3][0][1]) else {}
                ctx.ob('write', where, good and ld.get('items') == items and isagg(ld.get('credit')) and proj(ld['credit'], '0') == 0, f'the leaf with its flushed values is put: {pp(ops)[:400]}')
                put = ops[0] if good else None
            else:
                ctx.ob('write', where, not ops, 'it is put once')
                put = fut
            if v[2] == 'Pending':
                held = now[2] == 'Dp' and dict(now[3])['0'] == put and dict(now[3])['1'] == dml and proj(dict(now[3])['2'], '0') == credit
                ctx.ob('write', where, held and not paid, f'until it is on disk the leaf keeps its credit: {pp(now)[:300]}')
                continue
            okay = next((y for k, y in o.st.facts.items() if canon(k) == ('discr', ('out', put))), None)
            ctx.ob('write', where, v[2] == 'Ready' and v[3][0][1] == ('out', put) and now[2] == 'Empty', f'it ends as the put ends: {pp(v)[:200]}')
            ctx.ob('write', where, okay in ('Ok', 'Err') and (okay == 'Err' or len(paid) == 1 and proj(paid[0], '0') == credit) and (okay == 'Ok' or not paid), f'the credit is repaid iff the leaf got to disk: {okay} {pp(paid)[:200]}')
    where = 'LeafDataFlush::poll'
    I = flushing_world(ctx)
    st = St()
    x = I.alloc(st, ('agg', N + 'LeafDataFlush', '', (('credit', cr(('in', 'credit'))), ('inner', ('in', 'fut')), ('_phantom', ('agg', 'tuple', '', ())))))
    for o in I.run(body['LeafDataFlush'], [x, ref('cx')], st):
        n += 1
        ctx.used(I, [o])
        v = canon(I.deep(o.st, o.val))
        if v[2] == 'Pending':
            ctx.ob('write', where, proj(dict(canon(unref(I, o.st, x))[3])['credit'], '0') == ('in', 'credit'), 'the credit stays')
            continue
        r = v[3][0][1]
        src = next((canon(k)[1] for k in o.st.facts if k[0] == 'discr' and canon(k)[1][0] == 'out'), None)
        if isagg(r) and r[2] == 'Ok':
            ld = dict(r[3][0][1][3])
            ctx.ob('write', where, ld['items'] == ('.', ('.', src, 'v:Ok'), '0') and 'credit' in str(ld['credit']) and isagg(ld['credit']) and proj(ld['credit'], '0') != 0, f'the leaf has its flushed values and its credit: {pp(r)[:300]}')
        else:
            ctx.ob('write', where, isagg(r) and r[2] == 'Err' and r[3][0][1] == ('.', ('.', src, 'v:Err'), '0'), f'an error is passed on: {pp(r)[:200]}')
    ctx.floor('write', 'ways to write a leaf', n, 11)


def cleaning_world(ctx):
    I = flushing_world(ctx)
    I.hooks['tree::tree::ranges_overlap'] = lambda I, st, c: R(st, ('meet',) + tuple(sorted((canon(unref(I, st, x)) for x in c.args), key=str)))
    for n in ('new', 'borrow', 'borrow_mut'):
        I.hooks['std::cell::RefCell::' + n] = lambda I, st, c: R(st, c.args[0])

    def order(n):
        def h(I, st, c):
            # places on disk are ordered; how is not looked into here
            if 'types::PBA' not in str(c.argtys):
                return None
            a, b = (canon(unref(I, st, x)) for x in c.args)
            return R(st, {'lt': lt(a, b), 'gt': lt(b, a), 'le': not_(lt(b, a)), 'ge': not_(lt(a, b))}[n])
        return h
    for n in ('lt', 'le', 'gt', 'ge'):
        I.hooks['std::cmp::PartialOrd::' + n] = order(n)
    for n in ('get_dirty_nodes_r', 'rewrite_node_r', 'rewrite_node', 'get_dirty_nodes'):
        I.hooks[T + n] = op(n)
    I.hooks['tree::tree::CleanZonePass1::new'] = op('pass1')
    return I


def cleaning(ctx):
    """clean_zone: every node in the zone is found, and written elsewhere unchanged."""
    P = ctx.P
    M = 'tree::tree::'
    SELF, dml, node_, NEXT, H = ('in', 'self'), ('in', 'dml'), ('in', 'node'), ('in', 'next'), ('in', 'h')
    root, sdml = ('.', SELF, 'root'), ('.', SELF, 'dml')
    kids = ('.', ('.', ('.', node_, 'v:Int'), '0'), 'children')
    okof = lambda e: ('.', ('.', ('out', e), 'v:Ok'), '0')
    failed = lambda v, e: isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', e), 'v:Err'), '0')
    KEY, PBAS, TXGS, ECH = ('in', 'key'), ('in', 'pbas'), ('in', 'txgs'), ('in', 'ech')
    params = ('agg', M + 'GetDirtyNodeParams', '', (('key', KEY), ('pbas', PBAS), ('txgs', TXGS), ('echelon', ECH)))
    NH, NKEY = ('in', 'nh'), ('in', 'nkey')
    target = ('agg', M + 'NodeId' if any(a == M + 'NodeId' for a in P.adts) else N + 'NodeId', '', (('height', NH), ('key', NKEY)))
    plain = lambda t: tuple(sorted(t[3])) if isagg(t) else t
    CREDIT0 = lambda c: isagg(c) and proj(c, '0') == 0

    def paths(name, args, prep=None):
        I = cleaning_world(ctx)
        if prep:
            prep(I)
        for o in drive(ctx, I, T + name, args, None, True):
            evs = [canon(e) for e in events(I, o.st)]
            yield I, o, canon(I.deep(o.st, o.val)), evs, [e for e in evs if e[0] == 'op']

    def inside(facts, ptr):
        """Whether a node is on disk in the zone, as far as these facts say."""
        pba = ('.', ('.', ('.', ptr, 'v:Addr'), '0'), 'pba')
        f = {canon(k): x for k, x in facts.items()}
        if f.get(('discr', ptr)) != 'Addr':
            return False if not isinstance(f.get(('discr', ptr)), str) or f.get(('discr', ptr)) in ('Mem', 'None') else None
        class O:
            class st:
                pass
        O.st.facts = f
        lo, hi = rel(O, pba, ('.', PBAS, 'start')), rel(O, pba, ('.', PBAS, 'end'))
        if lo == 1 or hi in (-1, 0):
            return False
        return True if lo in (-1, 0) and hi == 1 else None

    def at_height(o, h, level):
        """'=' where the path knows h is right above `level`, '<' where no node there is left."""
        if any(canon(k) in (('eq0', sub(sub(h, level), 1)), ('eq0', sub(add(level, 1), h))) and x for k, x in o.st.facts.items()):
            return '='
        if rel(o, level, h) in (-1,) or rel(o, add(level, 1), h) == -1 and any(canon(k) in (('eq0', sub(sub(h, level), 1)), ('eq0', sub(add(level, 1), h))) and not x for k, x in o.st.facts.items()):
            return '<'
        return '>' if rel(o, level, h) == 1 or rel(o, add(level, 1), h) == 1 or rel(o, level, h) == 0 else None

    # which nodes are in the zone
    where = T + 'get_dirty_nodes'
    n = 0
    h = ('.', root, 'height')
    el = ('.', root, 'elem')
    for I, o, v, evs, ops in paths('get_dirty_nodes', [ref('self'), params]):
        n += 1
        ctx.ob('clean', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'read', root)], f'the tree is locked: {pp(evs)[:200]}')
        what = at_height(o, h, ECH)
        if what in ('=', '<'):
            got = proj(v, '0') if isagg(v) and v[2] == 'Ok' else None
            ns, nxt = (proj(got, '0'), proj(got, '1')) if isagg(got) else (None, None)
            found = list(ns[3]) if isagg(ns) else None
            here = inside(o.st.facts, ('.', el, 'ptr')) if what == '=' else False
            good = found is not None and nxt == NONE and not ops and here is not None and (len(found) == 1 and plain(found[0][1]) == (('height', ECH), ('key', ('.', el, 'key'))) if here else not found)
            ctx.ob('clean', where, good, f'the root is found iff it is in the zone: {here} {pp(v)[:300]}')
            continue
        good = what == '>' and ops and ops[0] == ('op', 'rlock', el, sdml)
        ctx.ob('clean', where, good, f'the search begins at the root: {pp(ops)[:300]}')
        if not good or failed(v, ops[0]):
            continue
        want = ('op', 'get_dirty_nodes_r', sdml, okof(ops[0]), sub(h, 1), NONE, params)
        ctx.ob('clean', where, ops[1:] == [want] and v == ('out', want), f'and goes on in it, for the same: {pp(ops)[:400]}')
    ctx.floor('clean', 'ways to begin the search', n, 6)

    where = T + 'get_dirty_nodes_r'
    n = 0
    for I, o, v, evs, ops in paths('get_dirty_nodes_r', [ref('dml'), read_guard('node'), H, NEXT, params]):
        n += 1
        eq = [x for k, x in o.st.facts.items() if canon(k) in (('eq0', sub(sub(H, ECH), 1)), ('eq0', sub(add(ECH, 1), H)))]
        ctx.ob('clean', where, len(eq) == 1, 'whether these are the children asked for is told by the height')
        loops = [e[1] for e in o.st.effects() if e[0] == 'loop']
        got = proj(v, '0') if isagg(v) and v[2] == 'Ok' else None
        if eq and eq[0]:
            ns = proj(got, '0') if got else None
            good = got and proj(got, '1') == NEXT and len(loops) == 1 and not ops
            ctx.ob('clean', where, good, f'the children found are answered, and where to go on: {pp(v)[:300]}')
            if not good:
                continue
            L, = loops
            idx = [l for l in L.carried if L.entry[l] == 0 and all(sub(it[3].get(l), L.carried[l]) == 1 for it in L.iters)]
            acc = [l for l, x in L.carried.items() if canon(x) == ns]
            whole = len(idx) == 1 and canon(o.st.facts.get(('pinned', L.carried[idx[0]]))) in (('len', kids), ('n', kids))
            ctx.ob('clean', where, whole and len(acc) == 1 and canon(L.entry[acc[0]]) in (('agg', 'array', '', ()), ('agg', 'vec', '', ()), ('empty', 'vec')), f'every child is looked at: {pp(ns)[:200]}')
            if not (whole and len(acc) == 1):
                continue
            c = ('.', kids, ('[]', canon(L.carried[idx[0]])))
            for it in L.iters:
                here = inside(it[1], ('.', c, 'ptr'))
                x, y = canon(it[3].get(acc[0])), canon(L.carried[acc[0]])
                added = plain(x[2]) if isinstance(x, tuple) and x[0] == 'push' and x[1] == y else None if x == y else x
                ctx.ob('clean', where, here is not None and added == ((('height', sub(H, 1)), ('key', ('.', c, 'key'))) if here else None), f'a child is found iff it is in the zone: {here} {pp(x)[:300]}')
            continue
        # the first child from the key on that has anything of the zone's transactions
        L = next((L for L in loops if any(canon(x) == ('child', kids, KEY) for x in L.entry.values())), None)
        ctx.ob('clean', where, L is not None, 'children are looked through from the one for the key')
        if L is None:
            continue
        loc = [l for l, x in L.entry.items() if canon(x) == ('child', kids, KEY)][0]
        at = canon(L.carried[loc])
        c = ('.', kids, ('[]', at))
        meets = lambda e: ('meet',) + tuple(sorted((('.', e, 'txgs'), TXGS), key=str))
        for it in L.iters:
            ctx.ob('clean', where, any(canon(k) == meets(c) and x == 0 for k, x in it[1].items()) and sub(canon(it[3].get(loc)), at) == 1, 'only children too old or too new are passed over, one by one')
        if not ops:
            none_left = rel(o, at, ('n', kids)) in (-1,) or rel(o, at, ('len', kids)) == -1
            ctx.ob('clean', where, none_left and got and plain(proj(got, '0')) == () and proj(got, '1') == NEXT, f'where there is none the search goes on after this node: {pp(v)[:200]}')
            continue
        good = ops[0] == ('op', 'rlock', c, dml) and any(canon(k) == meets(c) and x == 1 for k, x in o.st.facts.items())
        ctx.ob('clean', where, good, f'that child is locked: {pp(ops)[:300]}')
        if not good or failed(v, ops[0]):
            continue
        last = [x for k, x in o.st.facts.items() if canon(k) in (('pos', sub(sub(('n', kids), at), 1)), ('pos', sub(sub(('len', kids), at), 1)))]
        nxt = some(('.', ('.', kids, ('[]', add(at, 1))), 'key')) if last and last[0] else NEXT
        want = ('op', 'get_dirty_nodes_r', dml, okof(ops[0]), sub(H, 1), nxt, params)
        ctx.ob('clean', where, len(last) == 1 and ops[1:] == [want] and v == ('out', want), f'the search goes on in it, and then at its right neighbour: {pp(ops)[:500]}')
        i, j = [k for k, e in enumerate(evs) if e == ops[0]], [k for k, e in enumerate(evs) if e[0] == 'unlock' and e[2] == node_]
        ctx.ob('clean', where, i and j and i[0] < j[0], 'the node is let go only once its child is locked')
    ctx.floor('clean', 'ways to search a node', n, 6)

    # writing one elsewhere
    def moved(where, o, v, evs, ops, D, ptr):
        want = ('op', 'pop', D, ('.', ('.', ptr, 'v:Addr'), '0'), TXG)
        ctx.ob('clean', where, ops and ops[0] == want, f'the node is taken from where it is: {pp(ops)[:300]}')
        if not ops or ops[0] != want or failed(v, want):
            return None
        good = len(ops) == 2 and ops[1][:4] == ('op', 'put', D, okof(want)) and ops[1][5] == TXG
        ctx.ob('clean', where, good, f'and the same node written anew: {pp(ops)[:400]}')
        if not good or failed(v, ops[1]):
            return None
        ctx.ob('clean', where, v == ok(UNIT), f'which is all: {pp(v)[:100]}')
        return ('agg', N + 'TreePtr', 'Addr', (('0', okof(ops[1])),))

    where = T + 'rewrite_node'
    n = 0
    for I, o, v, evs, ops in paths('rewrite_node', [ref('self'), target, TXG]):
        n += 1
        ctx.ob('clean', where, [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', root)], f'the tree is locked: {pp(evs)[:200]}')
        what = at_height(o, h, NH)
        w = written(I, o)
        if what == '<':
            ctx.ob('clean', where, not ops and not w and v == ok(UNIT), f'a node of a level that is gone is let be: {pp(v)[:100]}')
        elif what == '=':
            if fact(o, lambda k: canon(k) == ('discr', ('.', el, 'ptr'))) == 'Mem':
                ctx.ob('clean', where, not ops and not w and v == ok(UNIT), f'a root already in memory is let be: {pp(v)[:100]}')
                continue
            ptr = moved(where, o, v, evs, ops, sdml, ('.', el, 'ptr'))
            if ptr is None:
                ctx.ob('clean', where, not w, 'a failure leaves the tree as it was')
                continue
            ch = changes(w.get(root), root)
            one = next((x for k, x in o.st.facts.items() if canon(k) in (('eq0', sub(h, 1)), ('eq0', sub(1, h)))), None)
            r = ch.get(('elem', 'txgs'))
            start, end = (dict(r[3])['start'], dict(r[3])['end']) if isagg(r) else (ch.get(('elem', 'txgs', 'start'), ('.', ('.', el, 'txgs'), 'start')), ch.get(('elem', 'txgs', 'end')))
            good = ch.get(('elem', 'ptr')) == ptr and {k[:2] for k in ch} == {('elem', 'ptr'), ('elem', 'txgs')} and set(w) == {root}
            ctx.ob('clean', where, good, f'the tree learns the new address: {pp(w.get(root))[:400]}')
            ctx.ob('clean', where, end is not None and is_next(end) and one is not None and start == (TXG if one else ('.', ('.', el, 'txgs'), 'start')), f'and that the root is of this transaction: {pp((start, end))[:200]}')
        else:
            good = what == '>' and ops and ops[0][:5] == ('op', 'xlock_root', sdml, root, TXG) and CREDIT0(ops[0][5])
            ctx.ob('clean', where, good, f'a node below the root is reached through it: {pp(ops)[:300]}')
            if not good or failed(v, ops[0]):
                continue
            want = ('op', 'rewrite_node_r', sdml, ('.', okof(ops[0]), '1'), sub(h, 1), target, TXG)
            ctx.ob('clean', where, len(ops) == 2 and ops[1] == want and v == ('out', want), f'for the same node: {pp(ops)[:400]}')
    ctx.floor('clean', 'ways to rewrite a node', n, 7)

    where = T + 'rewrite_node_r'
    n = 0
    at = ('child', kids, NKEY)
    c = ('.', kids, ('[]', at))
    for I, o, v, evs, ops in paths('rewrite_node_r', [ref('dml'), write_guard('node'), H, target, TXG]):
        n += 1
        eq = [x for k, x in o.st.facts.items() if canon(k) in (('eq0', sub(sub(H, NH), 1)), ('eq0', sub(add(NH, 1), H)))]
        ctx.ob('clean', where, len(eq) == 1, 'whether it is a child is told by the height')
        w = written(I, o)
        if eq and not eq[0]:
            good = ops and ops[0][:6] == ('op', 'xlock', wguard(node_), dml, at, TXG) and CREDIT0(ops[0][6]) and not w
            ctx.ob('clean', where, good, f'the child for the key is locked: {pp(ops)[:300]}')
            if not good or failed(v, ops[0]):
                continue
            want = ('op', 'rewrite_node_r', dml, ('.', okof(ops[0]), '1'), sub(H, 1), target, TXG)
            ctx.ob('clean', where, len(ops) == 2 and ops[1] == want and v == ('out', want), f'and searched for the same node: {pp(ops)[:400]}')
            continue
        if fact(o, lambda k: canon(k) == ('discr', ('.', c, 'ptr'))) == 'Mem':
            ctx.ob('clean', where, not ops and not w and v == ok(UNIT), f'a node already in memory is let be: {pp(v)[:100]}')
            continue
        ptr = moved(where, o, v, evs, ops, dml, ('.', c, 'ptr'))
        if ptr is None:
            ctx.ob('clean', where, not w, 'a failure leaves the node as it was')
            continue
        ch = changes(w.get(node_), node_)
        pre = ('v:Int', '0', 'children', ('[]', at))
        r = ch.get(pre + ('txgs',))
        was = ('.', ('.', c, 'txgs'), 'start')
        start, end = (dict(r[3])['start'], dict(r[3])['end']) if isagg(r) else (ch.get(pre + ('txgs', 'start'), was), ch.get(pre + ('txgs', 'end')))
        one = next((x for k, x in o.st.facts.items() if canon(k) in (('eq0', sub(H, 1)), ('eq0', sub(1, H)))), None)
        good = ch.get(pre + ('ptr',)) == ptr and {k[:5] for k in ch} == {pre + ('ptr',), pre + ('txgs',)} and set(w) == {node_}
        ctx.ob('clean', where, good, f'its parent learns the new address: {pp(w.get(node_))[:400]}')
        ctx.ob('clean', where, end is not None and is_next(end) and one is not None and start == (TXG if one else was), f'and that it is of this transaction: {pp((start, end))[:200]}')
    ctx.floor('clean', 'ways to rewrite a child', n, 6)

    # all of a level
    where = M + 'CleanZonePass1'
    body = [b for b in P.bodies.values() if b['path'].endswith('::poll_next') and 'CleanZonePass1' in str(b.get('self'))][0]
    I = cleaning_world(ctx)
    for o in drive(ctx, I, M + 'CleanZonePass1::new', [ref('tree'), PBAS, TXGS, ECH]):
        f = canon(I.deep(o.st, o.val))
        f = dict(proj(f, 'inner')[3])
        good = f['cursor'] == some(('ret', 'tree::node::MinValue::min_value', ())) and f['last_fut'] == NONE and plain(f['data']) == () and (f['echelon'], f['pbas'], f['txgs'], f['tree']) == (ECH, PBAS, TXGS, ('in', 'tree'))
        ctx.ob('clean', where + '::new', good, f'the search of a level begins at the least key: {pp(canon(I.deep(o.st, o.val)))[:300]}')
    rounds = []

    def poll(I, st, c):
        v = c.args[0]
        v = I.load(st, v) if isinstance(v, tuple) and v[0] == 'ref' else v
        if not (isagg(v) and v[1] == 'rounds'):
            return None
        return R(st, ('outcome',))
    fields = ('cursor', 'data', 'echelon', 'last_fut', 'pbas', 'txgs', 'tree')
    inner = ('agg', where + 'Inner', '', tuple((k, ('in', k)) for k in fields))
    I = cleaning_world(ctx)
    I.hooks['futures::stream::poll_fn'] = lambda I, st, c: (rounds.append((st.copy(), c.args[0])), R(st, ('agg', 'pollfn', '', ())))[1]
    I.hooks['futures::TryStreamExt::try_fold'] = lambda I, st, c: R(st, ('agg', 'rounds', '', ()))
    st = St()
    x = I.alloc(st, ('agg', where, '', (('inner', inner),)))
    now = lambda o: dict(proj(canon(unref(I, o.st, x)), 'inner')[3])
    n = 0
    POLL = lambda v: (v[2], v[3][0][1] if v[3] else None) if isagg(v) else (None, None)
    for o in I.run(body, [x, ref('cx')], st):
        n += 1
        ctx.used(I, [o])
        if o.kind != 'ret':
            ctx.ob('clean', where, False, f'the search does not panic: {str(o.val)[:200]}')
            continue
        k, v = POLL(canon(I.deep(o.st, o.val)))
        empty = next((y for q, y in o.st.facts.items() if canon(q) in (('eq0', ('len', ('in', 'data'))), ('eq0', neg(('len', ('in', 'data')))))), None)
        cur = next((y for q, y in o.st.facts.items() if canon(q) == ('discr', ('in', 'cursor'))), None)
        if empty == 0:
            ctx.ob('clean', where, k == 'Ready' and v == some(ok(('.', ('in', 'data'), ('[]', 0)))) and now(o)['data'] == ('tail', ('in', 'data')), f'nodes found are answered one by one: {pp(v)[:200]}')
        elif cur == 'None':
            ctx.ob('clean', where, empty == 1 and k == 'Ready' and v == NONE, f'the search ends once all is searched: {pp(v)[:200]}')
        else:
            done = next((y for q, y in o.st.facts.items() if q[0] == 'polled'), None)
            res = next((y for q, y in o.st.facts.items() if q[0] == 'discr' and canon(q[1])[0] == 'out'), None)
            fut = next((y for q, y in o.st.facts.items() if canon(q) == ('discr', ('in', 'last_fut'))), None)
            if done == 0:
                good = k == 'Pending'
            elif res == 'Err':
                good = k == 'Ready' and isagg(v) and v[2] == 'Some' and isagg(v[3][0][1]) and v[3][0][1][2] == 'Err'
            elif fut == 'Some':
                good = k == 'Pending'
            else:
                good = res == 'Ok' and fut == 'None' and k == 'Ready' and v in (NONE, some(ok(('.', ('in', 'data'), ('[]', 0)))))
            ctx.ob('clean', where, empty == 1 and cur == 'Some' and good, f'otherwise it goes on: {k} {pp(v)[:200]}')
    ctx.floor('clean', 'ways to ask for the next node', n, 6)
    ctx.ob('clean', where, rounds, 'the search is made of rounds')
    n = 0
    for st, f in rounds[:1]:
        for o in I.apply(st, f, [ref('cx')]):
            k, v = POLL(canon(I.deep(o.st, o.val)))
            if o.kind != 'ret':
                continue
            n += 1
            had = next((y for q, y in o.st.facts.items() if canon(q) == ('discr', ('in', 'last_fut'))), None)
            par = ('agg', M + 'GetDirtyNodeParams', '', (('key', ('.', ('.', ('in', 'cursor'), 'v:Some'), '0')), ('pbas', ('in', 'pbas')), ('txgs', ('in', 'txgs')), ('echelon', ('in', 'echelon'))))
            fut = ('.', ('.', ('in', 'last_fut'), 'v:Some'), '0') if had == 'Some' else ('op', 'get_dirty_nodes', ('in', 'tree'), par)
            done = next((y for q, y in o.st.facts.items() if q[0] == 'polled' and canon(q[1]) == fut), None)
            res = next((y for q, y in o.st.facts.items() if canon(q) == ('discr', ('out', fut))), None)
            z = now(o)
            if done == 0:
                good = k == 'Pending' and z['last_fut'] == some(fut) and z['cursor'] == ('in', 'cursor') and z['data'] == ('in', 'data')
                ctx.ob('clean', where, good, f'a round under way is kept: {pp(z["last_fut"])[:200]}')
            elif res == 'Err':
                ctx.ob('clean', where, done == 1 and k == 'Ready' and v == some(err(('.', ('.', ('out', fut), 'v:Err'), '0'))), f'an error is reported: {pp(v)[:200]}')
            else:
                d, c_ = ('.', okof(fut), '0'), ('.', okof(fut), '1')
                same_ = z['data'] == d and z['cursor'] == c_ and z['last_fut'] == NONE
                ctx.ob('clean', where, done == 1 and res == 'Ok' and same_, f'what a round found is kept, and where to go on: {pp(z["data"])[:200]}')
                emp = next((y for q, y in o.st.facts.items() if canon(q) in (('eq0', ('len', d)), ('eq0', neg(('len', d))))), None)
                more = next((y for q, y in o.st.facts.items() if canon(q) == ('discr', c_)), None)
                again = emp == 1 and more == 'Some'
                ctx.ob('clean', where, k == 'Ready' and v == (some(ok(UNIT)) if again else NONE) and (again or emp == 0 or more == 'None'), f'rounds go on until one finds a node or none is left: {emp} {more} {pp(v)[:100]}')
    ctx.floor('clean', 'outcomes of a round', n, 10)

    where = T + 'clean_zone'
    I = cleaning_world(ctx)
    calls = {}

    def walk(name):
        def h(I, st, c):
            calls.setdefault(name, []).append((st.copy(), c.args))
            return None
        return h
    for nm in ('try_for_each', 'try_for_each_concurrent'):
        I.hooks['futures::TryStreamExt::' + nm] = walk(nm)
    outs = drive(ctx, I, where, [ref('self'), PBAS, TXGS, TXG], None, True)
    outer = calls.get('try_for_each', []) + calls.get('try_for_each_concurrent', [])
    ctx.ob('clean', where, len(outer) == 1 and len(outs) == 1, 'every level is cleaned in turn')
    for o in outs:
        v = canon(I.deep(o.st, o.val))
        ctx.ob('clean', where, v[0] == 'out', f'an error in any level is reported: {pp(v)[:200]}')
    for st, a in outer[:1]:
        src = canon(I.deep(st, a[0]))
        rs = [s for s in subterms(src) if isagg(s) and s[1].endswith('Range')]
        levels = len(rs) == 1 and dict(rs[0][3]) == {'start': 0, 'end': ('.', root, 'height')}
        ctx.ob('clean', where, levels and not any('take' in str(s[1]) or 'skip' in str(s[1]) or 'filter' in str(s[1]) for s in subterms(src) if isinstance(s, tuple) and s and s[0] == 'ret'), f'from the leaves to the root: {pp(src)[:300]}')
        calls.clear()
        n = 0
        for q in I.apply(st, a[-1], [ECH]):
            for o in I.run_future(q.st, q.val):
                n += 1
                ops = [canon(e) for e in events(I, o.st) if e[0] in ('op', 'await')]
                txt = [s for e in ops for s in subterms(e) if isinstance(s, tuple) and s[:2] == ('op', 'pass1')]
                ctx.ob('clean', where, txt and all(t == ('op', 'pass1', SELF, PBAS, TXGS, ECH) for t in txt), f'the nodes of the level in the zone are looked for: {pp(txt)[:200]}')
        inner_ = calls.get('try_for_each', []) + calls.get('try_for_each_concurrent', [])
        ctx.ob('clean', where, len(inner_) >= 1, 'what is found is gone through')
        for st2, b in inner_:
            src = canon(I.deep(st2, b[0]))
            ctx.ob('clean', where, any(s[:2] == ('ret', 'futures::TryStreamExt::try_collect') and ('op', 'pass1', SELF, PBAS, TXGS, ECH) in list(subterms(s)) for s in subterms(src) if isinstance(s, tuple)) and not any(isinstance(s, tuple) and s and s[0] == 'ret' and any(w in str(s[1]) for w in ('take', 'skip', 'filter')) for s in subterms(src)),
                   f'all of what was found: {pp(src)[:300]}')
            for q in I.apply(st2, b[-1], [('in', 'nd')]):
                ctx.ob('clean', where, canon(I.deep(q.st, q.val)) == ('op', 'rewrite_node', SELF, ('in', 'nd'), TXG), f'each is rewritten: {pp(canon(I.deep(q.st, q.val)))[:200]}')
        ctx.floor('clean', 'outcomes of a level', n, 2)

    # overlap
    where = M + 'ranges_overlap'
    n = 0
    ends = {'Included': 1, 'Excluded': 1, 'Unbounded': 0}
    for a in ends:
        for b in ends:
            I = world(ctx)
            S, E, YS, YE = (('in', k) for k in ('s', 'e', 'ys', 'ye'))
            for t in (S, E, YS, YE):
                I.ty[t] = (None, None)
            bound = lambda kind, x: lambda I, st, c: R(st, ('agg', 'std::ops::Bound', kind, (('0', I.alloc(st, x)),) if ends[kind] else ()))
            I.hooks['std::ops::RangeBounds::start_bound'] = bound(a, S)
            I.hooks['std::ops::RangeBounds::end_bound'] = bound(b, E)
            I.hooks['std::borrow::Borrow::borrow'] = lambda I, st, c: R(st, c.args[0])

            def order(nm):
                def h(I, st, c):
                    p, q = (canon(unref(I, st, x)) for x in c.args)
                    return R(st, {'lt': lt(p, q), 'gt': lt(q, p), 'le': not_(lt(q, p)), 'ge': not_(lt(p, q))}[nm])
                return h
            for nm in ('lt', 'le', 'gt', 'ge'):
                I.hooks['std::cmp::PartialOrd::' + nm] = order(nm)
            st = St()
            y = I.alloc(st, ('agg', 'std::ops::Range', '', (('start', YS), ('end', YE))))
            for o in drive(ctx, I, where, [ref('x'), y], st):
                for s, val in I.decide(o.st, o.val) if o.val not in (0, 1) else [(o.st, o.val)]:
                    n += 1
                    need = [lt(YS, YE)]
                    if a != 'Unbounded':
                        need.append(lt(S, YE))
                    if b != 'Unbounded':
                        need.append(not_(lt(E, YS)) if b == 'Included' else lt(YS, E))
                    if a != 'Unbounded' and b != 'Unbounded':
                        need.append(not_(lt(E, S)) if a == b == 'Included' else lt(S, E))
                    if val:
                        for t in need:
                            ctx.ob('clean', where, I.known(s, t) == 1, f'ranges said to overlap do: ({a}, {b}) {pp(t)}')
                    else:
                        u = [s.copy()]
                        for t in need:
                            u = [x for z in u for x, k in I.decide(z, t) if k]
                        ctx.ob('clean', where, not u, f'ranges that overlap are said to: ({a}, {b})')
    ctx.floor('clean', 'ways ranges meet', n, 30)


class Named:
    """Hooks for operations whose arguments are kept aside, so that what they give stays a short term."""
    def __init__(self):
        self.tab, self.all = {}, []

    def hook(self, name):
        def f(I, st, c):
            a = ('op', name) + tuple(canon(I.deep(st, x)) for x in c.args)
            if a not in self.tab:
                self.tab[a] = len(self.all)
                self.all.append(a)
            return R(st, ('op', name, ('#', self.tab[a])))
        return f

    def of(self, e):
        return self.all[e[2][1]] if len(e) == 3 and isinstance(e[2], tuple) and e[2][:1] == ('#',) else e


def removing_world(ctx, names):
    """The tree, with sets of nodes as terms, and with what is asked of the size of a node kept with what it held then."""
    I = mixing(tree(ctx))
    nm = Named()
    for n in names:
        I.hooks[T + n] = nm.hook(n)
    for n in ('xlock', 'xlock_nc'):
        I.hooks[W + n] = nm.hook(n)
    for n in ('range_delete', 'range_delete_unaccredited'):
        I.hooks[N + 'LeafData::' + n] = nm.hook('leaf.' + n)

    def kids_now(I, st, r):
        v = I.load(st, r)
        return canon(I.deep(st, v))

    for q in ('underflow', 'in_danger', 'in_extra_danger'):
        for ty in ('Node', 'NodeData'):
            I.hooks[f'{N}{ty}::{q}'] = lambda I, st, c, q=q: R(st, ('small', q, canon(place(c.args[0])), kids_now(I, st, c.args[0])))

    def insert(I, st, c):
        s, x = I.deep(st, I.load(st, c.args[0])), canon(I.deep(st, c.args[1]))
        I.store(st, c.args[0], ('ids', s, x))
        return R(st, ('fresh', s, x))

    def extend(I, st, c):
        s, x = I.deep(st, I.load(st, c.args[0])), canon(I.deep(st, c.args[1]))
        if not (isinstance(s, tuple) and s[0] in ('ids', 'noids', 'ids+', 'in', '.')):
            return None
        I.store(st, c.args[0], ('ids+', s, x))
        return R(st, UNIT)
    H = 'std::collections::HashSet::'
    for n in ('with_capacity', 'new'):
        I.hooks[H + n] = lambda I, st, c: R(st, ('noids',))
    I.hooks[H + 'insert'] = insert
    I.hooks['std::iter::Extend::extend'] = extend
    return I, nm


class Keys:
    """A node with children from these keys on, for a term to be evaluated in."""
    def __init__(self, kids, keys, more):
        self.kids, self.keys, self.more = kids, keys, more

    def get(self, t):
        if t in self.more:
            return self.more[t]
        if t[0] in ('n', 'len') and t[1] == self.kids:
            return len(self.keys)
        if t[0] == 'child' and t[1] == self.kids:
            k = value(t[2], self)
            return max(0, sum(x <= k for x in self.keys) - 1)
        if t[0] == '.' and t[2] == 'key' and t[1][0] == '.' and t[1][1] == self.kids and t[1][2][0] == '[]':
            return self.keys[value(t[1][2][1], self)]
        return None

    def __contains__(self, t):
        return self.get(t) is not None

    def __getitem__(self, t):
        return self.get(t)


def deletion(ctx, name, args, names=(), prep=None):
    I, nm = removing_world(ctx, names)
    I.hooks.pop(T + name, None)
    if prep:
        prep(I)
    outs = []
    for o in I.run(fn(ctx, T + name), args, St()):
        if name in names:
            I.hooks[T + name] = nm.hook(name)
        for q in I.run_future(o.st, o.val) if o.kind == 'ret' else [o]:
            ctx.used(I, [q])
            if q.kind == 'ret':
                evs = [canon(e) for e in events(I, q.st)]
                yield I, nm, q, canon(I.deep(q.st, q.val)), evs, [e for e in evs if e[0] == 'op']
        if name in names:
            I.hooks.pop(T + name, None)


def deleting(ctx):
    """range_delete: which children go, which are searched, which stay."""
    SELF, RANGE, GIVEN, UB, LIM, dml = ('in', 'self'), ('in', 'range'), cr(('in', 'given')), ('in', 'ub'), ('in', 'lim'), ('in', 'dml')
    node_, h = ('in', 'node'), ('in', 'h')
    kids = lambda p: ('.', ('.', ('.', p, 'v:Int'), '0'), 'children')
    okof = lambda e, *p: field_path(('.', ('.', ('out', e), 'v:Ok'), '0'), p)
    failed = lambda v, e: isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', e), 'v:Err'), '0')
    ALL = ('agg', 'std::ops::RangeFull', '', ())

    paths = lambda *a: deletion(ctx, *a)

    # the whole
    where = T + 'range_delete'
    root = ('.', SELF, 'root')
    n = 0
    for I, nm, o, v, evs, ops in paths('range_delete', [ref('self'), RANGE, TXG, GIVEN], ('range_delete_pass1', 'range_delete_pass2')):
        n += 1
        back = [canon(amount(e[2])) for e in evs if e[0] == 'did' and e[1] == 'repay']
        ops = [nm.of(e) for e in ops]
        if not ops:
            ctx.ob('range', where, v == ok(UNIT) and back == [('in', 'given')] and not written(I, o), f'where there is nothing to remove, the credit is repaid: {pp(back)[:100]}')
            ctx.ob('range', where, any(k[0] in ('pos', 'eq', 'eq0') and "'range'" in str(k) for k in o.st.facts), 'and that there is nothing is told by the bounds')
            continue
        lk = ('op', 'xlock_root', ('.', SELF, 'dml'), root, TXG, GIVEN)
        ctx.ob('range', where, ops[0] == lk and [e[:3] for e in evs if e[0] == 'lock'] == [('lock', 'write', root)], f'the tree and its root are locked: {pp(ops[0])[:200]}')
        if failed(v, lk):
            continue
        p1 = ops[1] if len(ops) > 1 else ()
        good = p1[:4] == ('op', 'range_delete_pass1', ('.', SELF, 'limits'), ('.', SELF, 'dml')) and p1[4] in (sub(('.', root, 'height'), 1), sub(okof(lk, '0', 'height'), 1)) \
            and p1[5:] == (okof(lk, '1'), RANGE, NONE, TXG, okof(lk, '2'))
        ctx.ob('range', where, good, f'what is in range is removed from the root on, which no node is right of: {pp(p1)[:300]}')
        one = [e for e in o.st.effects() if e[0] == 'op']
        first = next((canon(e) for e in events(I, o.st) if e[0] == 'op' and e[1] == 'range_delete_pass1'), None)
        if not good or failed(v, first):
            continue
        p2 = ops[2] if len(ops) > 2 else ()
        ids = [okof(first, '0'), ('ids', okof(first, '0'), field_path(okof(lk, '0'), ('elem', 'ptr', 'v:Mem', '0')))]
        good = len(ops) == 3 and p2[:4] == ('op', 'range_delete_pass2', SELF, okof(lk, '0')) and p2[4] in ids and p2[5:] == (RANGE, TXG, okof(first, '3'))
        ctx.ob('range', where, good, f'then the tree, still locked, is put in shape with the credit left: {pp(p2)[:400]}')
        ctx.ob('range', where, v == ('out', canon([e for e in events(I, o.st) if e[0] == 'op'][-1])) and not back, f'which is all: {pp(v)[:100]}')
    ctx.floor('range', 'ways to remove a range', n, 6)

    # the bounds, over small nodes
    where = T + 'range_delete_get_bounds'
    I = tree(ctx)
    I.hooks.pop(where, None)
    st = St()
    outs = [o for o in I.run(fn(ctx, where), [I.alloc(st, write_guard('node')), ref('range'), UB], st)]
    ctx.used(I, outs)
    ctx.floor('range', 'ways through the bounds', sum(o.kind == 'ret' for o in outs), 20)
    forms = []
    for o in outs:
        forms.append((o, {canon(k): x for k, x in o.st.facts.items()}, canon(I.deep(o.st, o.val)) if o.kind == 'ret' else None))
    bad = {}
    tried = 0
    for keys in ((2,), (2, 6), (2, 4, 8)):
        for ub in (None, keys[-1] + 2, keys[-1] + 4):
            for lo in [None] + [(q, t) for q in ('Included', 'Excluded') for t in range(0, keys[-1] + 6)]:
                for hi in [None] + [(q, t) for q in ('Included', 'Excluded') for t in range(0, keys[-1] + 6)]:
                    if lo and hi and (lo[1] > hi[1] or lo[1] == hi[1] and (lo[0], hi[0]) != ('Included', 'Included')):
                        continue
                    inside = lambda k: (not lo or k > lo[1] or k == lo[1] and lo[0] == 'Included') and (not hi or k < hi[1] or k == hi[1] and hi[0] == 'Included')
                    more = {}
                    for b, x in (('lo', lo), ('hi', hi)):
                        if x:
                            more[('.', ('.', (b, RANGE), 'v:' + x[0]), '0')] = x[1]
                    if ub is not None:
                        more[('.', ('.', UB, 'v:Some'), '0')] = ub
                    env = Keys(kids(node_), keys, more)
                    kind = {('discr', node_): 'Int', ('discr', ('lo', RANGE)): lo[0] if lo else 'Unbounded', ('discr', ('hi', RANGE)): hi[0] if hi else 'Unbounded', ('discr', UB): 'None' if ub is None else 'Some'}
                    hits = [(o, v) for o, f, v in forms if all(kind[k] == x if k in kind else truth(k, x, env) is not False for k, x in f.items())]
                    tried += 1
                    what = f'keys {keys} up to {ub}, range {lo} to {hi}'
                    if len(hits) != 1 or hits[0][0].kind != 'ret':
                        bad.setdefault('one answer', f'{what}: {[h[0].kind for h in hits]}')
                        continue
                    (a, b) = (proj(hits[0][1], '0'), proj(hits[0][1], '1'))
                    try:
                        a, b = (a[2], value(a[3][0][1], env)), (b[2], value(b[3][0][1], env))
                    except (Bad, IndexError, TypeError) as e:
                        bad.setdefault('one answer', f'{what}: {pp(hits[0][1])[:100]}')
                        continue
                    left = a[1] if a[0] == 'Excluded' else None
                    right = b[1] if b[0] == 'Included' else None
                    go = range(a[1] + (a[0] == 'Excluded'), b[1])
                    n = len(keys)
                    if not (a[0] in ('Included', 'Excluded') and b[0] in ('Included', 'Excluded') and 0 <= a[1] < n and 0 <= b[1] <= n and (right is None or right < n) and go.start <= (go.stop if left is None or left != right else n)):
                        bad.setdefault('indices', f'{what}: {a}, {b}')
                        continue
                    if left is not None and right is not None and left > right:
                        bad.setdefault('indices', f'{what}: {a}, {b}')
                    top = keys[-1] + 12 if ub is None else ub
                    for i in range(n):
                        has = [inside(k) for k in range(2 * keys[i], 2 * (keys[i + 1] if i + 1 < n else top))] if False else \
                              [inside(k / 2) for k in range(2 * keys[i], 2 * (keys[i + 1] if i + 1 < n else top))]
                        if i in go and i not in (left, right) and not all(has):
                            bad.setdefault('removed', f'{what}: child {i} is removed: {a}, {b}')
                        if i not in go and i not in (left, right) and any(has):
                            bad.setdefault('left', f'{what}: child {i} is left: {a}, {b}')
    for k, t in (('one answer', 'for each range and node there is one answer'), ('indices', 'the bounds are children of the node, in order'), ('removed', 'a child is removed whole only if all its keys are in range'),
                 ('left', 'a child is left alone only if none of its keys is in range')):
        ctx.ob('range', where, k not in bad, f'{t}: {bad.get(k)}')
    ctx.floor('range', 'ranges tried', tried, 1000)

    # a leaf
    where = T + 'range_delete_pass1'
    names = ('range_delete_pass1', 'range_delete_purge')
    b = lambda k, x: ('agg', 'std::ops::Bound', k, (('0', x),))
    i, d = ('in', 'i'), ('in', 'd')
    args = lambda hh: [LIM, ref('dml'), hh, write_guard('node'), RANGE, UB, TXG, GIVEN]
    n = 0
    for I, nm, o, v, evs, ops in paths('range_delete_pass1', args(0), names):
        n += 1
        data = ('.', ('.', node_, 'v:Leaf'), '0')
        good = len(ops) == 1 and nm.of(ops[0]) == ('op', 'leaf.range_delete', data, dml, TXG, RANGE)
        ctx.ob('range', where, good, f'in a leaf the items in range are removed: {pp([nm.of(e) for e in ops])[:300]}')
        if not good or failed(v, ops[0]):
            continue
        back = [canon(amount(e[2])) for e in evs if e[0] == 'did' and e[1] == 'repay']
        ctx.ob('range', where, back == [('amount', okof(ops[0]))], f'their credit is repaid: {pp(back)[:100]}')
        r = proj(v, '0')
        good = isagg(r) and proj(r, '0') == ('noids',) and proj(r, '2') in (('n', ('.', data, 'items')), ('len', ('.', data, 'items'))) and proj(r, '3') == GIVEN
        ctx.ob('range', where, good, f'how many are left is told, and what credit: {pp(r)[:200]}')
        ctx.ob('range', where, worried(o, proj(r, '1'), []), f'and whether these are too few: {pp(proj(r, "1"))[:200]}')
    ctx.floor('range', 'ways to remove from a leaf', n, 2)

    # an inner node: one child has all of them
    def given(x, y):
        def prep(I):
            I.ty[i] = I.ty[d] = 'usize'
            I.hooks[T + 'range_delete_get_bounds'] = lambda I, st, c: (ctx.ob('range', where, canon(I.deep(st, c.args[1])) == RANGE and canon(I.deep(st, c.args[2])) == UB and canon(place(c.args[0])) in (node_, ('in', 'node'), canon(place(c.args[0]))),
                                                                                'the bounds are those of the range in this node'), R(st, ('agg', 'tuple', '', (('0', x), ('1', y)))))[1]
        return prep

    def high(o):
        """Only inner nodes are of interest here."""
        return not any(canon(k) in (('eq0', h), ('eq0', neg(h))) and x for k, x in o.st.facts.items()) and fact(o, lambda k: canon(k) == ('discr', node_)) != 'Leaf'

    def models(o, *within):
        """The places in nodes of a few children for which the path is the one taken."""
        r = []
        for at in (0, 1):
            for di in (0, 1, 2):
                for cnt in range(1, 7):
                    env = {i: at, d: di, ('n', kids(node_)): cnt, ('len', kids(node_)): cnt}
                    if all(value(x, env) < cnt + y for x, y in within) and not any(truth(canon(k), x, env) is False for k, x in o.st.facts.items() if k[0] in ('pos', 'eq0')):
                        r.append((env, cnt))
        return r

    def bound_of(at, ub, envs):
        """The least key right of child `at` is its neighbour's, or where it has none that of the node."""
        return all(ub == UB if value(at, env) == cnt - 1 else ub == some(('.', ('.', kids(node_), ('[]', add(at, 1))), 'key')) for env, cnt in envs)

    n = 0
    for I, nm, o, v, evs, ops in paths('range_delete_pass1', args(h), names, given(b('Excluded', i), b('Included', i))):
        if not high(o):
            continue
        n += 1
        full = [nm.of(e) for e in ops]
        lk = ('op', 'xlock', wguard(node_), dml, i, TXG, GIVEN)
        ctx.ob('range', where, full[:1] == [lk], f'the child that has them all is locked: {pp(full[:1])[:200]}')
        if full[:1] != [lk] or failed(v, ops[0]):
            continue
        p = full[1] if len(full) > 1 else ()
        good = p[:5] == ('op', 'range_delete_pass1', LIM, dml, sub(h, 1)) and p[5] == okof(ops[0], '1') and p[6] == RANGE and p[8:] == (TXG, okof(ops[0], '2')) and bound_of(i, p[7], models(o, (i, 0))) and len(full) == 2
        ctx.ob('range', where, good, f'and searched with the key right of it as its end: {pp(p)[:300]}')
        if not good or failed(v, ops[1]):
            continue
        P = field_path(okof(ops[0], '0'), ('0',))
        if fact(o, lambda k: canon(k) == ('discr', P)) == 'Leaf':
            continue    # what has children is no leaf
        r = proj(v, '0')
        ln, dang = okof(ops[1], '2'), okof(ops[1], '1')
        empty = next((x for k, x in o.st.facts.items() if canon(k) in (('eq0', ln), ('eq0', neg(ln)))), None)
        bad_ = holds(o, dang)
        now = field_of(I, o, P, 'v:Int', '0', 'children')
        ctx.ob('range', where, empty is not None and now == (('less', kids(P), i) if empty else kids(P)), f'the child leaves the node iff it is left empty: {pp(now)[:200]}')
        me = field_path(kids(P), (('[]', i), 'ptr', 'v:Mem', '0'))
        sets = [okof(ops[1], '0')] + ([('ids', okof(ops[1], '0'), me)] if not empty else [])
        ctx.ob('range', where, proj(r, '0') in (sets[:1] if not bad_ or empty else sets[1:]), f'the nodes that may be too small are noted: {pp(proj(r, "0"))[:200]}')
        ctx.ob('range', where, proj(r, '3') == okof(ops[1], '3'), f'the credit left is handed back: {pp(proj(r, "3"))[:200]}')
        lens = [(q, now) for q in ('n', 'len')] + ([sub((q, kids(P)), 1) for q in ('n', 'len')] if empty else [])
        ctx.ob('range', where, proj(r, '2') in lens, f'how many children are left is told: {pp(proj(r, "2"))[:200]}')
        ctx.ob('range', where, worried(o, proj(r, '1'), [] if empty else [dang], now), f'and whether it may have too few: {pp(proj(r, "1"))[:200]}')
    ctx.floor('range', 'ways to remove below one child', n, 10)

    # ... or several have
    for x, y, l, a, z, rgt in ((b('Excluded', i), b('Included', add(i, add(d, 1))), i, add(i, 1), add(i, add(d, 1)), add(i, add(d, 1))), (b('Included', i), b('Included', add(i, d)), None, i, add(i, d), add(i, d)),
                               (b('Excluded', i), b('Excluded', add(i, add(d, 1))), i, add(i, 1), add(i, add(d, 1)), None), (b('Included', i), b('Excluded', add(i, d)), None, i, add(i, d), None)):
        n = 0
        for I, nm, o, v, evs, ops in paths('range_delete_pass1', args(h), names, given(x, y)):
            if not high(o):
                continue
            # children go up to z, and the ends are children
            envs = models(o, (z, 1), *[(x_, 0) for x_ in (l, rgt) if x_ is not None])
            if not envs:
                continue
            n += 1
            full = [(e, nm.of(e)) for e in ops]
            locks = [(e, f) for e, f in full if f[1] == 'xlock_nc']
            searched = [(e, f) for e, f in full if f[1] == 'range_delete_pass1']
            gone = [(e, f) for e, f in full if f[1] == 'range_delete_purge']
            ctx.ob('range', where, all(f[2:4] == (wguard(node_), dml) and f[5:7] == (h, TXG) and f[4] in (l, rgt) for e, f in locks) and len({f[4] for e, f in locks}) == len(locks), f'the children at the ends are locked: {pp(locks)[:300]}')
            ctx.ob('range', where, gone == [(e, f) for e, f in gone if f == ('op', 'range_delete_purge', dml, h, ('agg', 'std::ops::Range', '', (('start', a), ('end', z))), wguard(node_), TXG)] and len(gone) <= 1, f'the children between are removed: {pp(gone)[:300]}')
            sides = {}
            for e, f in locks:
                sides['L' if f[4] == l else 'R'] = e
            for e, f in searched:
                s = next((s for s, q in sides.items() if f[5] == okof(q, '1')), None)
                at = l if s == 'L' else rgt
                good = s is not None and f[2:5] == (LIM, dml, sub(h, 1)) and f[6] == RANGE and f[8:] == (TXG, okof(sides[s], '2')) and bound_of(at, f[7], envs)
                ctx.ob('range', where, good, f'those are searched, each with the key right of it as its end: {pp(f)[:300]}')
                if s is not None:
                    sides[s + 's'] = e
            share = [amount(f[7]) for e, f in locks]
            half = ('half', ('in', 'given'))
            if isagg(v) and v[2] == 'Err':
                ctx.ob('range', where, any(failed(v, e) for e in ops), f'only what a step reports is reported: {pp(v)[:100]}')
                continue
            ctx.ob('range', where, ('L' in sides) == (l is not None) and ('R' in sides) == (rgt is not None) and ('Ls' in sides) == (l is not None) and ('Rs' in sides) == (rgt is not None) and len(gone) == 1 and len(full) == 1 + 2 * len(locks),
                   f'each end is searched, and what is between removed: {pp(ops)[:200]}')
            r = proj(v, '0')
            if not gone or not isagg(r):
                continue
            P = field_path(okof(gone[0][0]), ('0',))
            if fact(o, lambda k: canon(k) == ('discr', P)) == 'Leaf':
                continue
            now = field_of(I, o, P, 'v:Int', '0', 'children')
            lens, dangs, empties = {}, {}, {}
            for s in 'LR':
                e = sides.get(s + 's')
                if e is None:
                    continue
                ln = okof(e, '2')
                empties[s] = next((bool(x_) for k, x_ in o.st.facts.items() if canon(k) in (('eq0', ln), ('eq0', neg(ln)))), None)
                dangs[s] = holds(o, okof(e, '1'))
            taken = {s: next((x_ for k, x_ in o.st.facts.items() if canon(k) == ('discr', okof(sides[s], '0'))), None) for s in 'LR' if s in sides}
            ctx.ob('range', where, None not in empties.values() and None not in taken.values(), f'whether an end is left empty, and where it is, is told: {empties} {taken}')
            wrong = {}
            for di in (0, 1, 2):
                for at in (0, 1):
                    env = {i: at, d: di}
                    if any(truth(canon(k), x_, env) is False for k, x_ in o.st.facts.items() if k[0] in ('pos', 'eq0')):
                        continue
                    total = value(z, env) + (rgt is not None) + 2
                    old = list(range(total))
                    del old[value(a, env):value(z, env)]
                    names_ = {}
                    for s, x_ in (('L', l), ('R', rgt)):
                        if x_ is not None:
                            names_[value(x_, env)] = s
                    want = [(names_[q] if taken.get(names_[q]) == 'Some' else q) if q in names_ else q for q in old if not (q in names_ and empties[names_[q]])]
                    who = {okof(sides[s], '0', 'v:Some', '0'): s for s in 'LR' if s in sides}
                    try:
                        got = listed(now, kids(P), old, env, who)
                    except (Bad, IndexError, TypeError) as e_:
                        got = repr(e_)
                    if not (got == want):
                        wrong.setdefault('stay', f'removing children {value(a, env)} to {value(z, env)} of {total} with ends {names_}, of which empty {empties}, leaves {got} rather than {want}')
                    ids, sets = proj(r, '0'), []
                    try:
                        noted = unioned(ids, sets, kids(P), old, env, who)
                        ref_ = sorted(str(names_[q] if taken.get(names_[q]) == 'Some' else q) for q in names_ if not empties[names_[q]] and dangs[names_[q]])
                        most = sorted(str(names_[q] if taken.get(names_[q]) == 'Some' else q) for q in names_ if not empties[names_[q]] and dangs[names_[q]] != 0)
                        good = set(ref_) <= set(noted) <= set(most) or set(ref_) == set(noted)
                    except (Bad, IndexError, TypeError) as e_:
                        noted, good = repr(e_), False
                    if not (good):
                        wrong.setdefault('ends', f'the ends that may be too small are noted: {noted} of {names_} in danger {dangs}, empty {empties}')
                    if not ({q for q in sets} == {okof(sides[s], '0') for s in ('Ls', 'Rs') if s in sides}):
                        wrong.setdefault('sets', f'with what is below them: {pp(sets)[:200]}')
                    try:
                        cnt = proj(r, '2')
                        cnt = value(cnt, Lengths(env, lambda t: len(listed(t, kids(P), old, env, who))))
                    except (Bad, IndexError, TypeError) as e_:
                        cnt = repr(e_)
                    if not (cnt == len(want)):
                        wrong.setdefault('count', f'and how many children are left is told: {cnt}')
            for k_, t_ in (('stay', 'the children that stay are the others, each end as it was locked'), ('ends', 'the ends that may be too small are noted'), ('sets', 'with what is below them'), ('count', 'how many are left is told')):
                ctx.ob('range', where, k_ not in wrong, f'{t_}: {wrong.get(k_)}')
            ctx.ob('range', where, worried(o, proj(r, '1'), [okof(sides[s], '1') for s in ('Ls', 'Rs') if s in sides], now), f'and whether they may be too few: {pp(proj(r, "1"))[:200]}')
            left = amount(proj(r, '3'))
            due = GIVEN_ = ('in', 'given')
            for e, f in locks:
                due = sub(due, amount(f[7]))
            for s in ('Ls', 'Rs'):
                if s in sides:
                    due = add(due, ('amount', okof(sides[s], '3')))
            ctx.ob('range', where, canon(left) == canon(due), f'no credit is lost: {pp(left)[:200]} for {pp(due)[:200]}')
        ctx.floor('range', 'ways to remove below several children', n, 4)


class Lengths:
    """Values, and the lengths of lists of children."""
    def __init__(self, env, length):
        self.env, self.length = env, length

    def __contains__(self, t):
        return t in self.env or isinstance(t, tuple) and t[0] in ('n', 'len')

    def __getitem__(self, t):
        return self.env[t] if t in self.env else self.length(t[1])


def listed(t, base, old, env, who):
    """The children a term stands for, where `old` are those of `base`."""
    if t == base:
        return list(old)
    if t[0] == 'less':
        r = listed(t[1], base, old, env, who)
        del r[value(t[2], env)]
        return r
    if t[0] == 'with':
        r = listed(t[1], base, old, env, who)
        for k, x in t[2]:
            if k[0] != '[]':
                raise Bad(pp(t))
            q = value(k[1], env)
            if q < 0 or q >= len(r):
                raise IndexError(q)
            r[q] = child_of(x, base, old, env, who)
        return r
    raise Bad(pp(t)[:200])


def child_of(x, base, old, env, who):
    if x in who:
        return who[x]
    if x[0] == '.' and x[2][0] == '[]':
        q = value(x[2][1], env)
        if q < 0:
            raise IndexError(q)
        return listed(x[1], base, old, env, who)[q]
    raise Bad(pp(x)[:200])


def unioned(t, sets, base, old, env, who):
    """The children noted in a set, other than those of the sets it was made of."""
    if t == ('noids',):
        return []
    if t[0] == 'ids+':
        return unioned(t[1], sets, base, old, env, who) + unioned(t[2], sets, base, old, env, who)
    if t[0] == 'ids':
        x = t[2]
        for f in ('0', 'v:Mem', 'ptr'):
            if x[0] != '.' or x[2] != f:
                raise Bad(pp(x)[:200])
            x = x[1]
        return unioned(t[1], sets, base, old, env, who) + [str(child_of(x, base, old, env, who))]
    sets.append(t)
    return []


def holds(o, t):
    """What the path takes a flag for."""
    r = None
    for k, x in o.st.facts.items():
        k = canon(k)
        if k in (t, ('pos', t), ('eq0', sub(t, 1)), ('eq0', sub(1, t))):
            r = int(bool(x))
        elif k in (('eq0', t), ('eq0', neg(t)), ('pos', sub(1, t))):
            r = int(not x)
    return r


def worried(o, v, below, now=None):
    """A node is said to be large enough only if it is, and those below are."""
    small = [(canon(k), x) for k, x in o.st.facts.items() if canon(k)[0] == 'small']
    if isinstance(v, tuple) and v[:1] == ('small',):
        small, v = small + [(v, 0)], 0
    if v in below and holds(o, v) is not None:
        v = holds(o, v)
    asked = {q: 0 if q == v else holds(o, q) for q in below}
    if v == 1:
        return any(x for _, x in small) or any(asked.values())
    if v != 0 and v not in below:
        return False
    fine = [k for k, x in small if not x]
    if now is not None:
        # asked once the children are what they stay
        fine = [k for k in fine if proj(proj(proj(k[3], 'v:Int'), '0'), 'children') == now]
    return bool(fine) and not any(x or x is None for x in asked.values())


def purging(ctx):
    """range_delete_purge: every node below the children that go is gone, with its items."""
    dml, node_, h = ('in', 'dml'), ('in', 'node'), ('in', 'h')
    kids = lambda p: ('.', ('.', ('.', p, 'v:Int'), '0'), 'children')
    okof = lambda e, *p: field_path(('.', ('.', ('out', e), 'v:Ok'), '0'), p)
    failed = lambda v, e: isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', e), 'v:Err'), '0')
    ALL = ('agg', 'std::ops::RangeFull', '', ())
    A, B = ('in', 'a'), ('in', 'b')
    span = lambda a, b: ('agg', 'std::ops::Range', '', (('start', a), ('end', b)))
    where = T + 'range_delete_purge'
    names = ('range_delete_purge',)

    def store(x):
        # the one the function was given, which each of its closures holds
        return x == dml or isinstance(x, tuple) and x[0] == '.' and x[2] == 'dml'

    def flushes(f):
        return next((x for k, x in f.items() if k[0] == 'const' and k[1].endswith('NEEDS_FLUSH')), None)

    # a leaf
    n = 0
    data = ('.', ('.', node_, 'v:Leaf'), '0')
    for I, nm, o, v, evs, ops in deletion(ctx, 'range_delete_purge', [ref('dml'), 0, span(A, B), write_guard('node'), TXG], names):
        n += 1
        back = [canon(amount(e[2])) for e in evs if e[0] == 'did' and e[1] == 'repay']
        if flushes(o.st.facts) == 0:
            ctx.ob('range', where, not ops and v == ok(wguard(node_)) and not written(I, o), f'a leaf whose items own nothing just goes: {pp(ops)[:200]}')
            continue
        good = len(ops) == 1 and nm.of(ops[0]) == ('op', 'leaf.range_delete', data, dml, TXG, ALL)
        ctx.ob('range', where, good, f'all items of a leaf are removed: {pp([nm.of(e) for e in ops])[:200]}')
        if good and not failed(v, ops[0]):
            ctx.ob('range', where, back == [('amount', okof(ops[0]))] and v == ok(wguard(node_)), f'and their credit repaid: {pp(back)[:200]}')
    ctx.floor('range', 'ways to empty a leaf', n, 3)

    # its parent
    n = m = 0
    mid = None
    for I, nm, o, v, evs, ops in deletion(ctx, 'range_delete_purge', [ref('dml'), 1, span(A, B), write_guard('node'), TXG], names):
        n += 1
        now = field_of(I, o, node_, 'v:Int', '0', 'children')
        ctx.ob('range', where, now == join(I, part(I, kids(node_), 0, A), part(I, kids(node_), B, ('n', kids(node_)))), f'the children in the range leave the node: {pp(now)[:200]}')
        alls = [e for e in events(I, o.st) if e[0] == 'all']
        good = len(alls) == 1 and len(alls[0][2]) == 1 and isinstance(alls[0][2][0], Each) and alls[0][2][0].whole \
            and canon(alls[0][2][0].src) in (('agg', 'it:seq', '', (('0', part(I, kids(node_), A, B)),)), part(I, kids(node_), A, B))
        ctx.ob('range', where, good, f'each of them is dealt with, and all are waited for: {pp(evs)[:300]}')
        if not good:
            continue
        ctx.ob('range', where, v == ok(wguard(node_)) or isagg(v) and v[2] == 'Err' and v[3][0][1] == ('.', ('.', ('out', canon(alls[0][1])), 'v:Err'), '0'), f'the node is handed back: {pp(v)[:200]}')
        for x, f in alls[0][2][0].ops:
            kind = next((y for k, y in f.items() if k[0] == 'discr' and isinstance(k[1], tuple) and k[1][0] == '.' and k[1][2] == 'ptr'), None)
            ptr = next((canon(k[1]) for k, y in f.items() if k[0] == 'discr' and isinstance(k[1], tuple) and k[1][0] == '.' and k[1][2] == 'ptr'), None)
            if kind == 'None':
                continue
            ctx.ob('range', where, kind is not None and x is not None, f'whatever they are: {kind}')
            if kind is None or x is None:
                continue
            s2 = o.st.copy()
            s2.facts.update(f)
            before = len(events(I, s2))
            for q in I.run_future(s2, x):
                if q.kind != 'ret':
                    continue
                w = canon(I.deep(q.st, q.val))
                ev = [canon(e) for e in events(I, q.st)][before:]
                op_ = [e for e in ev if e[0] == 'op']
                back = [canon(amount(e[2])) for e in ev if e[0] == 'did' and e[1] == 'repay']
                full = [nm.of(e) for e in op_]
                need = flushes(q.st.facts)
                m += 1
                if kind == 'Addr':
                    ad = field_path(ptr, ('v:Addr', '0'))
                    if need == 0:
                        ctx.ob('range', where, len(full) == 1 and full[0][1] == 'delete' and store(strip(full[0][2])) and strip(full[0][3]) == ad and full[0][4] == TXG, f'a leaf on disk is freed: {pp(full)[:200]}')
                        continue
                    good = full and full[0][1] == 'pop' and store(strip(full[0][2])) and strip(full[0][3]) == ad and full[0][4] == TXG
                    ctx.ob('range', where, need == 1 and bool(good), f'a leaf on disk whose items own something is taken from it: {pp(full)[:200]}')
                    if not good or failed(w, op_[0]):
                        continue
                    good = len(full) == 2 and full[1][1] in ('leaf.range_delete_unaccredited', 'leaf.range_delete') and store(full[1][3]) and full[1][4:] == (TXG, ALL) and op_[0] in subterms(full[1][2])
                    ctx.ob('range', where, good and (w == ok(UNIT) or failed(w, op_[1])), f'and all of its items removed: {pp(full)[:300]}')
                    continue
                if need == 0:
                    ctx.ob('range', where, not full, f'a leaf in memory whose items own nothing just goes: {pp(full)[:200]}')
                else:
                    good = len(full) == 1 and full[0][1] == 'leaf.range_delete' and store(full[0][3]) and full[0][4:] == (TXG, ALL) and field_path(ptr, ('v:Mem', '0', '0')) in subterms(full[0][2])
                    ctx.ob('range', where, good, f'all items of a leaf in memory are removed: {pp(full)[:300]}')
                    if not good or failed(w, op_[0]):
                        continue
                t = sum_of(back)
                own = [y for y in subterms(t) if isinstance(y, tuple) and y[0] == '.' and y[2] == 'credit' or isinstance(y, tuple) and y[0] == 'amount' and (not op_ or y != ('amount', okof(op_[0])))]
                rest = t if need == 0 else sub(t, ('amount', okof(op_[0])))
                held = [y for y in own if field_path(ptr, ('v:Mem', '0', '0')) in subterms(y)]
                ctx.ob('range', where, len(back) >= 1 and any(rest == y for y in held), f'its credit is repaid: {pp(back)[:400]}')
    ctx.floor('range', 'ways to empty the parent of leaves', n, 2)
    ctx.floor('range', 'ways to remove a leaf', m, 5)

    # above
    fns = []

    def gather(I):
        I.ty[h] = 'u8'
        I.hooks[W + 'drain_xlock'] = lambda I, st, c: (fns.append((I, st.copy(), c.args[4])), R(st, ('op', 'drain') + tuple(canon(I.deep(st, x)) for x in c.args[:4])))[1]
    n = 0
    for I, nm, o, v, evs, ops in deletion(ctx, 'range_delete_purge', [ref('dml'), h, span(A, B), write_guard('node'), TXG], names, gather):
        zero = any(canon(k) in (('eq0', h), ('eq0', neg(h)), ('eq0', sub(h, 1)), ('eq0', sub(1, h))) and x for k, x in o.st.facts.items())
        if zero:
            continue
        n += 1
        good = ops == [('op', 'drain', wguard(node_), dml, span(A, B), TXG)]
        ctx.ob('range', where, good, f'the inner nodes in the range are taken out and locked: {pp(ops)[:300]}')
        if good and not failed(v, ops[0]):
            ctx.ob('range', where, v == ok(okof(ops[0], '0')), f'the node is handed back: {pp(v)[:200]}')
    ctx.floor('range', 'ways to remove inner nodes', n, 2)
    ctx.floor('range', 'tasks for inner nodes', len(fns), 1)
    P = ('in', 'below')
    for I, st, f in fns:
        I.hooks[T + 'range_delete_purge'] = op('range_delete_purge')
        s2 = st.copy()
        for q in I.apply(s2, f, [write_guard('below'), ref('dml2')]):
            if q.kind != 'ret' or fact(q, lambda k: canon(k) == ('discr', P)) == 'Leaf':
                continue
            x = canon(I.deep(q.st, q.val))
            good = x[:2] == ('op', 'range_delete_purge') and x[2] in (dml, ('in', 'dml2')) and x[3] == sub(h, 1) and x[4] in [span(0, (w, kids(P))) for w in ('n', 'len')] and x[5:] == (wguard(P), TXG)
            ctx.ob('range', where, good, f'all that is below each of them goes: {pp(x)[:300]}')


def sum_of(ts):
    r = 0
    for t in ts:
        r = add(r, t)
    return r
